// Functions may panic with nil like in programs of older Go versions.
//
//go:debug panicnil=1
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type replay struct {
	Check  string `json:"check"`
	Seed   int64  `json:"seed"`
	Tier   string `json:"tier"`
	Phase  string `json:"phase"`
	Idx    int    `json:"idx"`
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
	How    string `json:"how_to_replay"`
}

func main() {
	checkID := flag.String("check", "", "property to check")
	worker := flag.Bool("worker", false, "run as worker")
	out := flag.String("out", "", "result file of the worker")
	only := flag.String("only", "", "run only this phase:index")
	replayFile := flag.String("replay", "", "replay file of a violation")
	root := flag.String("root", "/verif", "root of the framework")
	tierFlag := flag.String("tier", "", "quick or thorough, instead of $VERIF_TIER")
	list := flag.Bool("list", false, "list checks")
	flag.Parse()
	log.SetOutput(io.Discard) // debug mode of the query builder logs

	if *list {
		ids := []string{}
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if *tierFlag != "" {
		tier = *tierFlag
	}
	if tier != "thorough" {
		tier = "quick"
	}
	if *replayFile != "" {
		b, err := os.ReadFile(*replayFile)
		must(err)
		var r replay
		must(json.Unmarshal(b, &r))
		*checkID, seed, tier = r.Check, r.Seed, r.Tier
		*only = fmt.Sprintf("%s:%d", r.Phase, r.Idx)
	}
	c := checks[*checkID]
	if c == nil {
		fmt.Fprintf(os.Stderr, "unknown check %q\n", *checkID)
		os.Exit(2)
	}
	if *worker {
		work(c, tier, seed, *only, *out)
		return
	}
	os.Exit(supervise(c, tier, seed, *only, *root))
}

type runOutcome struct {
	code   int
	res    *result
	output string
	infl   [][2]int
	races  []string
}

// runWorker runs a worker process to its end.
func runWorker(c *Check, tier string, seed int64, only, dir, name string, hang int, noBig bool, timeout time.Duration) runOutcome {
	self, err := os.Executable()
	must(err)
	out := filepath.Join(dir, name+".json")
	args := []string{"-worker", "-check", c.ID, "-out", out}
	if only != "" {
		args = append(args, "-only", only)
	}
	cmd := exec.Command(self, args...)
	raceLog := filepath.Join(dir, name+".race")
	cmd.Env = append(os.Environ(),
		fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier,
		fmt.Sprintf("VERIF_HANG_S=%d", hang),
		"GORACE=halt_on_error=0 exitcode=0 log_path="+raceLog,
		"GOTRACEBACK=single",
	)
	if noBig {
		cmd.Env = append(cmd.Env, "VERIF_NOBIG=1")
	}
	if name == "again" && os.Getenv("VERIF_THREADS") == "" {
		cmd.Env = append(cmd.Env, "VERIF_THREADS=3")
	}
	var buf bytes.Buffer
	lw := &limitedWriter{w: &buf, n: 64 << 10}
	cmd.Stdout, cmd.Stderr = lw, lw
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	select {
	case <-done:
	case <-time.After(timeout):
		timedOut = true
		cmd.Process.Kill()
		<-done
	}
	o := runOutcome{code: cmd.ProcessState.ExitCode(), output: buf.String()}
	if timedOut {
		o.code = -99
	}
	if b, err := os.ReadFile(out); err == nil {
		o.res = &result{}
		if json.Unmarshal(b, o.res) != nil {
			o.res = nil
		}
	}
	o.infl = readInflight(out + ".inflight")
	logs, _ := filepath.Glob(raceLog + ".*")
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		for _, blk := range strings.Split(string(b), "==================") {
			if strings.Contains(blk, "WARNING: DATA RACE") {
				o.races = append(o.races, strings.TrimSpace(blk))
			}
		}
	}
	return o
}

// hangOf tells which case made the watchdog end the worker.
func hangOf(o runOutcome) *violation {
	if o.code == 3 && o.res != nil {
		return o.res.Hang
	}
	return nil
}

type limitedWriter struct {
	w io.Writer
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.n -= len(q)
		l.w.Write(q)
	}
	return len(p), nil
}

func supervise(c *Check, tier string, seed int64, only, root string) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+c.ID+"-")
	must(err)
	defer os.RemoveAll(dir)
	timeout := 13 * time.Minute
	if tier == "thorough" {
		timeout = 3 * time.Hour
	}
	noBig := false
	runAlone := func(h *violation, name string) runOutcome {
		limit := 45
		if h.Big && c.ID != "C06" {
			limit = 240
		}
		return runWorker(c, tier, seed, fmt.Sprintf("%s:%d", h.Phase, h.Idx), dir, name, limit, false, 5*time.Minute)
	}
	o := runWorker(c, tier, seed, only, dir, "main", 15, false, timeout)
	var alone *runOutcome
	if h := hangOf(o); h != nil {
		// A slow machine? If the case returns when run alone, all is run
		// again, with a larger limit and less at a time. If the code is slow for large inputs,
		// C06 is the one to tell; the others do without them.
		r := runAlone(h, "alone")
		if r.code == 0 {
			noBig = h.Big && c.ID != "C06"
			o = runWorker(c, tier, seed, only, dir, "again", 60, noBig, timeout)
			if h2 := hangOf(o); h2 != nil && only == "" && !h2.Big && o.res.Hang.Ticks >= 100 {
				// Not even the larger limit is enough, and it's a small
				// case. If it returns when run alone, it may be what was
				// done before, in the same process, that makes it hang.
				if r := runAlone(h2, "alone2"); r.code == 0 {
					if o = runWorker(c, tier, seed, only, dir, "again", 60, noBig, timeout); hangOf(o) != nil && !o.res.Hang.Big && o.res.Hang.Ticks >= 100 {
						h := *o.res.Hang
						h.Detail += ", for the third time in a process that did other cases before it (seconds, or less, when run alone)"
						o.code, o.res.Violations = 1, append(o.res.Violations, h)
					}
				}
			}
		} else {
			alone = &r
		}
	}
	var viols []violation
	inconclusive := ""
	switch {
	case o.code == 0 && o.res != nil:
	case o.code == 1 && o.res != nil:
		viols = o.res.Violations
	case o.code == 3 && o.res != nil && o.res.Hang != nil:
		h := *o.res.Hang
		viols = append(viols, o.res.Violations...)
		// confirm alone, with a multiple of the limit
		key := fmt.Sprintf("%s:%d", h.Phase, h.Idx)
		r := runOutcome{}
		if alone != nil {
			r = *alone
		} else {
			r = runAlone(&h, "confirm")
		}
		switch {
		case r.code == 3 && r.res != nil && r.res.Hang != nil:
			h.Kind = r.res.Hang.Kind
			h.Detail = "confirmed alone: " + r.res.Hang.Detail + " (such a case takes milliseconds, or at most seconds)"
			viols = append(viols, h)
		case r.code == 1 && r.res != nil:
			viols = append(viols, r.res.Violations...)
		case r.code == 0:
			inconclusive = fmt.Sprintf("case %s exceeded the watchdog, but returned when run alone", key)
		default:
			h.Kind, h.Detail = "crash", clip(r.output, 4000)
			viols = append(viols, h)
		}
	case o.code == -99:
		inconclusive = "worker exceeded the total time limit"
	default:
		// the worker crashed: find the case among those running
		for i, in := range o.infl {
			key := fmt.Sprintf("%s:%d", c.Phases[in[0]].Name, in[1])
			r := runWorker(c, tier, seed, key, dir, fmt.Sprintf("crash%d", i), 45, false, 3*time.Minute)
			if r.code == 0 {
				continue
			}
			v := violation{c.Phases[in[0]].Name, in[1], "crash", clip(r.output, 4000), false, 0}
			if r.code == 1 && r.res != nil && len(r.res.Violations) > 0 {
				v = r.res.Violations[0]
			}
			if v.Kind == "crash" && !strings.Contains(r.output, "go-sqlf") {
				v.Kind = "harness"
			}
			viols = append(viols, v)
			break
		}
		if len(viols) == 0 && strings.Contains(o.output, "fatal error:") && strings.Contains(o.output, "go-sqlf") {
			// e.g. concurrent map writes, which may not come up again
			in := [2]int{}
			if len(o.infl) > 0 {
				in = o.infl[0]
			}
			viols = append(viols, violation{c.Phases[in[0]].Name, in[1], "crash", clip(o.output, 4000), false, 0})
		}
		if len(viols) == 0 {
			inconclusive = fmt.Sprintf("worker ended with code %d and no case reproduces it: %s", o.code, clip(o.output, 2000))
		}
	}
	kept := viols[:0]
	for _, v := range viols {
		if v.Kind == "harness" {
			inconclusive = "panic in the harness: " + v.Detail
			continue
		}
		kept = append(kept, v)
	}
	viols = kept
	res := o.res
	if res == nil {
		res = &result{Feats: map[string]int64{}}
	}
	for _, r := range o.races {
		if strings.Contains(r, "go-sqlf/v2") || strings.Contains(r, "/repo/") {
			viols = append(viols, violation{"race", 0, "data race", clip(r, 4000), false, 0})
			if len(viols) >= maxViolations {
				break
			}
		} else {
			inconclusive = "race report without code under test: " + clip(r, 1500)
		}
	}
	if only != "" {
		for _, v := range viols {
			fmt.Printf("replayed: %s %s:%d\n%s\n", v.Kind, v.Phase, v.Idx, printable(v.Detail))
		}
		if len(viols) == 0 {
			fmt.Println("replayed: no violation")
			return 0
		}
		return 1
	}
	missing := []string{}
	if len(viols) == 0 && inconclusive == "" && os.Getenv("VERIF_SCALE") == "" {
		for _, f := range c.Required {
			if res.Feats[f] == 0 {
				missing = append(missing, f)
			}
		}
		if noBig {
			fmt.Println("NOTE: large inputs take very long, they were left out; see C06")
		} else if len(missing) > 0 {
			inconclusive = "not observed: " + strings.Join(missing, ", ")
		}
	}
	if err := writeEvidence(c, tier, seed, root, res, viols, len(o.races), time.Since(start)); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}
	fmt.Printf("%s %s: %d cases, %d oracle evaluations, %d distinct non-trivial, %d unspecified, %.1fs\n",
		c.ID, tier, res.Cases, res.Evals, res.Distinct, res.Unspec, time.Since(start).Seconds())
	if os.Getenv("VERIF_TIMES") != "" {
		fmt.Println(res.Seconds)
	}
	if len(viols) > 0 {
		odir := filepath.Join(root, "out")
		os.MkdirAll(odir, 0o755)
		for i, v := range viols {
			path := filepath.Join(odir, fmt.Sprintf("%s-%d.json", c.ID, i))
			b, _ := json.MarshalIndent(replay{c.ID, seed, tier, v.Phase, v.Idx, v.Kind, v.Detail,
				fmt.Sprintf("./run.sh %s -replay %s", c.ID, path)}, "", "  ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("--- %s in %s:%d\n%s\n", v.Kind, v.Phase, v.Idx, printable(clip(v.Detail, 3000)))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Printf("INCONCLUSIVE: %s\n", inconclusive)
		return 2
	}
	return 0
}

func writeEvidence(c *Check, tier string, seed int64, root string, res *result, viols []violation, races int, wall time.Duration) error {
	samples := []any{}
	for _, s := range res.Samples {
		if len(samples) < 8 {
			samples = append(samples, s)
		}
	}
	exhaustive := []string{}
	for _, p := range c.Phases {
		if p.Exhaustive {
			exhaustive = append(exhaustive, p.Name)
		}
	}
	cov := map[string]any{
		"evaluations":         res.Evals,
		"distinct_nontrivial": res.Distinct,
		"rule":                c.Rule,
		"samples":             samples,
		"cases":               res.Cases,
		"cases_per_phase":     res.PerPhase,
		"observed":            res.Feats,
		"unspecified_skipped": res.Unspec,
		"exhaustive_phases":   exhaustive,
	}
	if c.ID == "C08" {
		cov["race_reports"] = races
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": c.Assumptions,
		"wall_s": wall.Seconds(), "violations": len(viols),
	}
	b, err := json.MarshalIndent(ev, "", "  ")
	if err != nil {
		return err
	}
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0o755)
	return os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644)
}
