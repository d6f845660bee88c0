module guarded

go 1.18
