package main

// Runtime of the checks: phases of numbered cases are executed on all cores in
// a worker process; a monitor inside the worker watches for cases that do not
// return, the parent process turns crashes and hangs of the worker into
// verdicts. Every random choice derives from (VERIF_SEED, check, phase, index).

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode"
	"unicode/utf8"
)

// Phase is a numbered list of cases.
type Phase struct {
	Name     string
	Quick    int // number of cases
	Thorough int
	Run      func(t *T, idx int)
	// Exhaustive marks phases that enumerate a finite space; distinctness
	// of their cases is by construction.
	Exhaustive bool
	// Serial phases run on one goroutine (they use several themselves).
	Serial bool
}

// Check decides one property.
type Check struct {
	ID          string
	Rule        string
	Level       string
	Assumptions []string
	// Required lists the features a run must have observed to be conclusive.
	Required []string
	Phases   []Phase
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// T is the environment of a case.
type T struct {
	*rand.Rand
	check  *Check
	phase  *Phase
	idx    int
	w      *worker
	input  string
	desc   func() string
	hasKey bool
}

type violation struct {
	Phase  string `json:"phase"`
	Idx    int    `json:"idx"`
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
	Big    bool   `json:"big,omitempty"` // a large input

	// how often the watchdog saw it running
	Ticks int `json:"ticks,omitempty"`
}

// Feat counts an observed feature.
func (t *T) Feat(name string) { t.w.feats[name]++ }

// FeatN counts n observations of a feature.
func (t *T) FeatN(name string, n int) { t.w.feats[name] += int64(n) }

// Key declares the case as non-trivial, with the canonical form of its input.
func (t *T) Key(key string) {
	t.hasKey = true
	if t.phase.Exhaustive {
		t.w.exhaustiveKeys++
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	t.w.keys[h.Sum64()] = struct{}{}
}

// Input records a lazily built description of the case for reports.
func (t *T) Input(s string) { t.input = s }

var noBig = os.Getenv("VERIF_NOBIG") != ""

// big declares that the case is about n items, which may take long if they
// are very many.
func (t *T) big(n int) {
	if n < 20000 {
		return
	}
	if noBig {
		panic(unspecified{"large input"})
	}
	atomic.StoreInt32(&t.w.slot.big, 1)
}

// Eval counts an evaluation of the oracle.
func (t *T) Eval() { t.w.evals++ }

type failure struct{ msg string }

// Failf reports a violation and abandons the case.
func (t *T) Failf(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Sample offers a sample for the evidence.
func (t *T) Sample(s string) {
	if len(t.w.samples) < 6 && t.idx%7 == 0 {
		t.w.samples = append(t.w.samples, t.phase.Name+": "+clip(s, 600))
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// printable escapes what a terminal, or whoever reads the output as text, may
// choke on.
func printable(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && w <= 1:
			fmt.Fprintf(&b, "\\x%02x", s[i])
		case r != '\n' && r != '\t' && !unicode.IsPrint(r):
			fmt.Fprintf(&b, "\\u%04x", r)
		default:
			b.WriteString(s[i : i+w])
		}
		i += w
	}
	return b.String()
}

type worker struct {
	feats          map[string]int64
	keys           map[uint64]struct{}
	exhaustiveKeys int64
	evals          int64
	samples        []string
	unspec         int64
	slot           *slot
}

type slot struct {
	start int64 // unix nano, 0: idle
	phase int32
	idx   int64
	big   int32
	_     [36]byte
}

type result struct {
	Violations []violation        `json:"violations"`
	Feats      map[string]int64   `json:"feats"`
	Evals      int64              `json:"evals"`
	Cases      int64              `json:"cases"`
	Distinct   int64              `json:"distinct"`
	Samples    []string           `json:"samples"`
	Unspec     int64              `json:"unspec"`
	PerPhase   map[string]int64   `json:"per_phase"`
	Seconds    map[string]float64 `json:"seconds"`
	// a case that did not return
	Hang *violation `json:"hang,omitempty"`
}

func seedFor(seed int64, parts ...string) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d", seed)
	for _, p := range parts {
		h.Write([]byte{0})
		h.Write([]byte(p))
	}
	x := h.Sum64()
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return int64(x)
}

type unspecified struct{ why string }

// runCase runs a case and returns its violation, if any.
func runCase(w *worker, c *Check, p *Phase, idx int, seed int64) (v *violation) {
	t := &T{
		Rand:  rand.New(newFastSource(seedFor(seed, c.ID, p.Name, fmt.Sprint(idx)))),
		check: c, phase: p, idx: idx, w: w,
	}
	defer func() {
		if r := recover(); r != nil {
			if t.desc != nil {
				func() {
					defer func() { recover() }()
					t.input += "\n" + t.desc()
				}()
			}
			switch r := r.(type) {
			case failure:
				v = &violation{p.Name, idx, "mismatch", r.msg + "\n" + t.input, false, 0}
			case unspecified:
				w.unspec++
			default:
				kind, stack := "panic", trimStack(debug.Stack())
				if !strings.Contains(stack, "go-sqlf") {
					kind = "harness" // not in the code under test
					if _, ok := r.(runtime.Error); ok {
						// what the library returned is not what the
						// monitor can handle
						kind = "unexpected result"
					}
				}
				v = &violation{p.Name, idx, kind,
					fmt.Sprintf("panic: %v\n%s\n%s", r, t.input, stack), false, 0}
			}
		}
	}()
	p.Run(t, idx)
	return nil
}

func trimStack(b []byte) string {
	s := string(b)
	if i := strings.LastIndex(s, "panic("); i >= 0 {
		s = s[i:]
	}
	return clip(s, 3000)
}

const (
	maxViolations = 3
	numSlots      = 64
)

// quickScale multiplies the cases of the sampled phases of the quick tier, such
// that a check takes about half a minute.
func quickScale(id string) float64 {
	switch id {
	case "C06":
		return 1.5
	case "C07":
		return 2
	case "C08":
		return 1
	case "C02", "C10", "C16", "C19":
		return 5
	}
	return 3
}

func hangLimit() time.Duration {
	if s := os.Getenv("VERIF_HANG_S"); s != "" {
		var n int
		fmt.Sscan(s, &n)
		return time.Duration(n) * time.Second
	}
	return 15 * time.Second
}

// tickCount is how often the watchdog has seen a case: few times in a long time
// if the machine had stopped.
type tickCount struct {
	start int64
	n     int
}

// inflight is the table of running cases, kept in a shared file mapping so
// that it survives a crash of the worker.
type inflight struct{ mem []byte }

func openInflight(path string) *inflight {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	must(err)
	must(f.Truncate(numSlots * 64))
	mem, err := syscall.Mmap(int(f.Fd()), 0, numSlots*64, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	f.Close()
	return &inflight{mem}
}

func (f *inflight) set(i int, phase, idx int) {
	b := f.mem[i*64 : i*64+64]
	le := func(off int, v uint64) {
		for k := 0; k < 8; k++ {
			b[off+k] = byte(v >> (8 * k))
		}
	}
	le(0, uint64(phase+1))
	le(8, uint64(idx))
}

func (f *inflight) clear(i int) { f.mem[i*64] = 0; f.mem[i*64+1] = 0 }

func readInflight(path string) (r [][2]int) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	rd := func(off int) (v uint64) {
		for k := 7; k >= 0; k-- {
			v = v<<8 | uint64(b[off+k])
		}
		return
	}
	for i := 0; i+64 <= len(b); i += 64 {
		if p := rd(i); p != 0 {
			r = append(r, [2]int{int(p) - 1, int(rd(i + 8))})
		}
	}
	return r
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// work runs (part of) a check in this process and writes its result.
func work(c *Check, tier string, seed int64, only string, out string) {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30) // garbage is no runaway
	infl := openInflight(out + ".inflight")
	n := runtime.GOMAXPROCS(0)
	if n > numSlots {
		n = numSlots
	}
	if s := os.Getenv("VERIF_THREADS"); s != "" {
		fmt.Sscan(s, &n)
	}
	slots := make([]slot, numSlots)
	res := &result{Feats: map[string]int64{}, PerPhase: map[string]int64{}, Seconds: map[string]float64{}}
	var mu sync.Mutex
	keys := map[uint64]struct{}{}
	var nviol int32
	var scale = 1.0
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		fmt.Sscan(s, &scale)
	}

	finish := func(code int) {
		b, err := json.Marshal(res)
		must(err)
		must(os.WriteFile(out, b, 0o600))
		os.Exit(code)
	}
	// the watchdog: a case takes micro- to milliseconds; one that takes more
	// than the limit is reported for confirmation, alone, by the parent.
	limit := hangLimit()
	go func() {
		var ms runtime.MemStats
		var ticks []tickCount
		for tick := 0; ; tick++ {
			time.Sleep(250 * time.Millisecond)
			now := time.Now().UnixNano()
			runaway := false
			if tick%4 == 0 {
				runtime.ReadMemStats(&ms)
				runaway = ms.HeapAlloc > 12<<30
			}
			if ticks == nil {
				ticks = make([]tickCount, len(slots))
			}
			worst, at := int64(0), -1
			for i := range slots {
				st := atomic.LoadInt64(&slots[i].start)
				if st != ticks[i].start {
					ticks[i] = tickCount{start: st}
				}
				ticks[i].n++
				if st != 0 && now-st > worst {
					worst, at = now-st, i
				}
			}
			if at >= 0 && (worst > int64(limit) || runaway) {
				kind := "no return"
				if runaway {
					kind = "memory runaway"
				}
				mu.Lock()
				res.Hang = &violation{
					Phase: c.Phases[slots[at].phase].Name, Idx: int(atomic.LoadInt64(&slots[at].idx)),
					Big:   atomic.LoadInt32(&slots[at].big) != 0,
					Ticks: ticks[at].n,
					Kind:  kind, Detail: fmt.Sprintf("case still running after %v", time.Duration(worst)),
				}
				finish(3)
			}
		}
	}()

	for pi := range c.Phases {
		p := &c.Phases[pi]
		total := p.Quick
		if tier == "thorough" {
			total = p.Thorough
		}
		if tier == "quick" && !p.Exhaustive && p.Quick > 1000 {
			total = int(float64(total) * quickScale(c.ID))
		}
		if scale != 1 && !p.Exhaustive {
			total = int(float64(total)*scale) + 1
		}
		first := 0
		if only != "" {
			i := strings.LastIndex(only, ":")
			if only[:i] != p.Name {
				continue
			}
			fmt.Sscan(only[i+1:], &first)
			total = first + 1
		}
		threads := n
		if p.Serial || only != "" {
			threads = 1
		}
		var next = int64(first)
		phaseStart := time.Now()
		var wg sync.WaitGroup
		for g := 0; g < threads; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				s := &slots[g]
				w := &worker{feats: map[string]int64{}, keys: map[uint64]struct{}{}, slot: s}
				cases := int64(0)
				for atomic.LoadInt32(&nviol) < maxViolations {
					i := int(atomic.AddInt64(&next, 1) - 1)
					if i >= total {
						break
					}
					infl.set(g, pi, i)
					s.phase = int32(pi)
					atomic.StoreInt64(&s.idx, int64(i))
					atomic.StoreInt32(&s.big, 0)
					atomic.StoreInt64(&s.start, time.Now().UnixNano())
					v := runCase(w, c, p, i, seed)
					atomic.StoreInt64(&s.start, 0)
					cases++
					if v != nil && atomic.AddInt32(&nviol, 1) <= maxViolations {
						mu.Lock()
						res.Violations = append(res.Violations, *v)
						mu.Unlock()
					}
				}
				infl.clear(g)
				mu.Lock()
				defer mu.Unlock()
				for k, v := range w.feats {
					res.Feats[k] += v
				}
				for k := range w.keys {
					keys[k] = struct{}{}
				}
				res.Distinct += w.exhaustiveKeys
				res.Evals += w.evals
				res.Unspec += w.unspec
				res.Cases += cases
				res.PerPhase[p.Name] += cases
				if len(res.Samples) < 24 && len(w.samples) > 0 {
					k := 3
					if len(w.samples) < k {
						k = len(w.samples)
					}
					res.Samples = append(res.Samples, w.samples[:k]...)
				}
			}(g)
		}
		wg.Wait()
		res.Seconds[p.Name] = time.Since(phaseStart).Seconds()
		if nviol > 0 {
			break
		}
	}
	mu.Lock()
	res.Distinct += int64(len(keys))
	code := 0
	if len(res.Violations) > 0 {
		code = 1
	}
	sort.Strings(res.Samples)
	finish(code)
}

// fastSource is splitmix64; seeding math/rand's own source is expensive.
type fastSource struct{ s uint64 }

func newFastSource(seed int64) *fastSource { return &fastSource{uint64(seed)} }
func (f *fastSource) Seed(seed int64)      { f.s = uint64(seed) }
func (f *fastSource) Int63() int64         { return int64(f.Uint64() >> 1) }
func (f *fastSource) Uint64() uint64 {
	f.s += 0x9e3779b97f4a7c15
	z := f.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
