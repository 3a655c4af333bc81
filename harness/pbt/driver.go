package pbt

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// survey is a development aid: go on after failures and list one case per signature.
var survey = os.Getenv("VERIF_SURVEY") != ""

// slow is a development aid too: cases that took longer than this are listed.
var slow, _ = time.ParseDuration(os.Getenv("VERIF_SLOW"))

// caseOut is what a worker reports per case.
type caseOut struct {
	Index   int            `json:"i"`
	Start   bool           `json:"start,omitempty"`
	Fails   []Failure      `json:"fails,omitempty"`
	Classes map[string]int `json:"cl,omitempty"`
	NonTriv bool           `json:"nt,omitempty"`
	Hash    uint64         `json:"h,omitempty"`
	Desc    string         `json:"d,omitempty"`
	Notes   []string       `json:"n,omitempty"`
	Tape    []uint64       `json:"t,omitempty"`
	Done    bool           `json:"done,omitempty"`
}

func hashTape(t []uint64) uint64 {
	h := fnv.New64a()
	var b [8]byte
	for _, v := range t {
		for k := range b {
			b[k] = byte(v >> (8 * k))
		}
		h.Write(b[:])
	}
	return h.Sum64()
}

func runOne(p *Prop, d *D, idx int) caseOut {
	c := p.Gen(d)
	r := NewR()
	desc := clip(p.describe(c), 6000)
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.Fail("panic", "panic in the calling goroutine: %v\n%s", e, clip(string(debug.Stack()), 6000))
			}
		}()
		p.Run(c, r)
	}()
	r.mu.Lock()
	defer r.mu.Unlock()
	o := caseOut{Index: idx, Fails: r.Fails, Classes: r.Classes, NonTriv: r.NonTriv, Hash: hashTape(d.Rec), Desc: desc, Done: true}
	if len(r.Fails) > 0 {
		o.Tape = d.Rec
		o.Notes = r.Notes
	}
	return o
}

// Worker runs cases from..to (step) and writes JSON lines to fd 3.
func Worker(id string, seed uint64, from, to int, withDesc int) {
	p := Get(id)
	debug.SetMemoryLimit(3 << 30)
	out := os.NewFile(3, "out")
	w := bufio.NewWriter(out)
	enc := json.NewEncoder(w)
	for i := from; i < to; i++ {
		enc.Encode(caseOut{Index: i, Start: true})
		w.Flush()
		// every fourth case of a property with CPUs > 1 runs with real parallelism
		n := 1
		if p.CPUs > 1 && i%4 == 3 {
			n = p.CPUs
		}
		runtime.GOMAXPROCS(n)
		t0 := time.Now()
		o := runOne(p, NewD(seed, p.ID, uint64(i)), i)
		if slow > 0 && time.Since(t0) > slow {
			fmt.Fprintf(os.Stdout, "SLOW %v %s\n", time.Since(t0), clip(p.Desc(p.Gen(NewD(seed, p.ID, uint64(i)))), 900))
		}
		if len(o.Fails) == 0 && (withDesc <= 0 || !o.NonTriv) {
			o.Desc = ""
		} else if len(o.Fails) == 0 {
			withDesc--
		}
		enc.Encode(o)
		w.Flush()
	}
}

// WorkerTape runs one tape (JSON array on stdin) and reports on fd 3.
func WorkerTape(id string) {
	p := Get(id)
	n := p.CPUs
	if n == 0 {
		n = 1
	}
	runtime.GOMAXPROCS(n)
	var t []uint64
	json.NewDecoder(os.Stdin).Decode(&t)
	out := os.NewFile(3, "out")
	enc := json.NewEncoder(out)
	enc.Encode(caseOut{Start: true})
	o := runOne(p, ReplayD(t), 0)
	enc.Encode(o)
}

// WorkerPre runs the deterministic sweep.
func WorkerPre(id, tier string) {
	p := Get(id)
	runtime.GOMAXPROCS(1)
	out := os.NewFile(3, "out")
	enc := json.NewEncoder(out)
	enc.Encode(caseOut{Index: -1, Start: true})
	r := NewR()
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.Fail("panic", "panic: %v\n%s", e, clip(string(debug.Stack()), 6000))
			}
		}()
		p.Pre(r, tier)
	}()
	enc.Encode(caseOut{Index: -1, Fails: r.Fails, Classes: r.Classes, NonTriv: true, Notes: r.Notes, Done: true})
}

type procRes struct {
	outs    []caseOut
	crashed bool   // ended without finishing
	cur     int    // case in progress at the crash
	reason  string // crash text
	infra   string // not attributable to the code under test
	flaky   bool   // infra that running the same cases again may well not meet
}

// runtimeFault tells the self-checks of the Go runtime's memory management (garbage collector, scheduler) from the
// fatal errors that a program causes, such as concurrent map writes or a deadlock. The library under test has no
// unsafe code, so it cannot cause the former: they are faults of the runtime, which the harness runs with bubbles.
func runtimeFault(txt string) bool {
	for _, m := range []string{"found pointer to free object", "found bad pointer in Go heap", "sweep increased allocation count",
		"swept cached span", "invalid pointer found on stack", "marking free object", "workbuf is empty", "bad sweepgen",
		"unexpected signal during runtime execution", "schedule: holding locks", "releasep: invalid p state"} {
		if strings.Contains(txt, m) && !strings.Contains(txt, "panic: ") {
			return true
		}
	}
	return false
}

const cpuLimitPerCase = 40.0 // seconds of CPU time without finishing one case

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	k := strings.LastIndexByte(s, ')')
	f := strings.Fields(s[k+1:])
	if len(f) < 14 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	v, _ := strconv.ParseFloat(f[12], 64)
	return (u + v) / 100
}

func spawn(args []string, stdin []byte, stop *atomic.Bool) procRes {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, args...)
	pr, pw, _ := os.Pipe()
	cmd.ExtraFiles = []*os.File{pw}
	var eb bytes.Buffer
	cmd.Stderr = &limited{b: &eb, n: 1 << 20}
	if slow > 0 {
		cmd.Stdout = os.Stdout
	} else {
		cmd.Stdout = io.Discard
	}
	race := filepath.Join(os.TempDir(), "race")
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GODEBUG=", "VERIF_RACE_LOG="+race,
		"GORACE=log_path="+race+" exitcode=0 atexit_sleep_ms=0 history_size=4 suppress_equal_stacks=0 suppress_equal_addresses=0")
	if stdin != nil {
		cmd.Stdin = bytes.NewReader(stdin)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var res procRes
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		res.infra = err.Error()
		return res
	}
	pw.Close()
	done := make(chan struct{})
	var caseCPU atomic.Uint64
	var livelock atomic.Bool
	var killed atomic.Bool
	var lastSeen atomic.Int64
	lastSeen.Store(time.Now().UnixNano())
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
			}
			if stop != nil && stop.Load() {
				killed.Store(true)
				cmd.Process.Kill()
				return
			}
			c := cpuSeconds(cmd.Process.Pid)
			if c*1000-float64(caseCPU.Load()) > cpuLimitPerCase*1000 {
				livelock.Store(true)
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(2 * time.Second)
				cmd.Process.Kill()
				return
			}
			// no CPU used and no report for a very long wall time: the worker is stuck
			if time.Now().UnixNano()-lastSeen.Load() > int64(300*time.Second) {
				killed.Store(true)
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(time.Second)
				cmd.Process.Kill()
				return
			}
		}
	}()
	dec := json.NewDecoder(bufio.NewReader(pr))
	inProgress := false
	for {
		var o caseOut
		if err := dec.Decode(&o); err != nil {
			break
		}
		lastSeen.Store(time.Now().UnixNano())
		if o.Start {
			res.cur = o.Index
			inProgress = true
			caseCPU.Store(uint64(cpuSeconds(cmd.Process.Pid) * 1000))
			continue
		}
		inProgress = false
		res.outs = append(res.outs, o)
	}
	err := cmd.Wait()
	close(done)
	pr.Close()
	if err != nil || inProgress {
		res.crashed = inProgress
		txt := eb.String()
		switch {
		case livelock.Load():
			res.reason = fmt.Sprintf("livelock: one case used more than %.0f s of CPU time without finishing\n%s", cpuLimitPerCase, clip(txt, 6000))
		case killed.Load():
			res.infra = "stopped: " + clip(txt, 4000)
		case strings.Contains(txt, "panic:") || strings.Contains(txt, "fatal error: ") || strings.Contains(txt, "runtime: goroutine stack exceeds"):
			if strings.Contains(txt, "cannot allocate memory") || runtimeFault(txt) {
				res.infra = clip(txt, 4000)
				res.flaky = true
			}
			res.reason = "process crashed: " + crashHead(txt)
		default:
			res.infra = fmt.Sprintf("worker ended: %v: %s", err, clip(txt, 3000))
			res.flaky = true
		}
		if !inProgress && res.infra == "" {
			res.infra = fmt.Sprintf("worker ended outside a case: %v %s", err, clip(txt, 3000))
		}
	}
	return res
}

func crashHead(t string) string {
	k := strings.Index(t, "panic:")
	if k < 0 {
		k = strings.Index(t, "fatal error:")
	}
	if k < 0 {
		k = 0
	}
	return clip(t[k:], 3500)
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

// crashSig names a crash by the first frame of the library under test.
func crashSig(reason string) string {
	if strings.HasPrefix(reason, "livelock") {
		return "livelock"
	}
	return "crash"
}

// Finding is a line of the known-findings file.
type Finding struct{ Prop, Sig, Text string }

func LoadFindings(path string) (fs []Finding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var f Finding
		l = strings.TrimPrefix(l, "finding: ")
		for _, w := range strings.SplitN(l, " ", 3) {
			switch {
			case strings.HasPrefix(w, "property="):
				f.Prop = w[9:]
			case strings.HasPrefix(w, "sig="):
				f.Sig = w[4:]
			default:
				f.Text = w
			}
		}
		fs = append(fs, f)
	}
	return
}

// Replay file.
type ReplayFile struct {
	Property string    `json:"property"`
	Seed     uint64    `json:"seed"`
	Index    int       `json:"index"`
	Tape     []uint64  `json:"tape"`
	Case     string    `json:"case"`
	Failures []Failure `json:"failures"`
	Notes    []string  `json:"notes,omitempty"`
	Shrunk   string    `json:"shrink,omitempty"`
}

// Drive runs a whole check. Returns the exit code.
// Scratch makes a directory for the temporary files of workers, which are not sure to clean up themselves.
func Scratch() func() {
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		return func() {}
	}
	os.Setenv("TMPDIR", dir)
	return func() { os.RemoveAll(dir) }
}

func Drive(id, tier string, seed uint64, verifDir string) int {
	defer Scratch()()
	p := Get(id)
	if p == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	t0 := time.Now()
	total := p.Quick
	limit := 75 * time.Second
	if tier == "thorough" {
		total = p.Deep
		limit = 600 * time.Second
	}
	if v := os.Getenv("VERIF_CASES"); v != "" {
		total, _ = strconv.Atoi(v)
	}
	if v := os.Getenv("VERIF_LIMIT_S"); v != "" {
		n, _ := strconv.Atoi(v)
		limit = time.Duration(n) * time.Second
	}
	chunk := p.Chunk
	if chunk == 0 {
		chunk = 100
	}
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	if chunk > (total+par-1)/par {
		chunk = (total + par - 1) / par
	}
	known := map[string]Finding{}
	for _, f := range LoadFindings(filepath.Join(verifDir, "known-findings.txt")) {
		if f.Prop == id {
			known[f.Sig] = f
		}
	}
	knownSeen := map[string]int{}

	var mu sync.Mutex
	evals := 0
	distinct := map[uint64]bool{}
	classes := map[string]int{}
	var samples []string
	type fail struct {
		idx   int
		fails []Failure
		tape  []uint64
		desc  string
		notes []string
	}
	var fails []fail
	var infra []string
	var stop atomic.Bool
	next := 0
	timedOut := false
	addOut := func(o caseOut) {
		if o.Index >= 0 {
			evals++
		}
		for c, n := range o.Classes {
			if n > 0 {
				classes[c]++
			}
		}
		if o.NonTriv && o.Index >= 0 {
			distinct[o.Hash] = true
			if o.Desc != "" && len(samples) < 4 && len(o.Fails) == 0 {
				samples = append(samples, clip(o.Desc, 1200))
			}
		}
		if len(o.Fails) > 0 {
			allKnown := true
			for _, f := range o.Fails {
				if _, ok := known[f.Sig]; ok {
					knownSeen[f.Sig]++
				} else {
					allKnown = false
				}
			}
			if !allKnown {
				fails = append(fails, fail{o.Index, o.Fails, o.Tape, o.Desc, o.Notes})
				stop.Store(!survey)
			}
		}
	}
	flakes := 0
	var wg sync.WaitGroup
	if p.Pre != nil {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res := spawn([]string{"workerpre", id, tier}, nil, nil)
			if res.flaky {
				res = spawn([]string{"workerpre", id, tier}, nil, nil)
			}
			mu.Lock()
			defer mu.Unlock()
			for _, o := range res.outs {
				addOut(o)
			}
			if res.crashed && res.infra == "" {
				fails = append(fails, fail{-1, []Failure{{crashSig(res.reason), res.reason}}, nil, "deterministic sweep", nil})
				stop.Store(!survey)
			} else if res.infra != "" {
				infra = append(infra, res.infra)
			}
		}()
	}
	for k := 0; k < par; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= total || stop.Load() || len(infra) > 3 {
					mu.Unlock()
					return
				}
				if time.Since(t0) > limit {
					timedOut = true
					mu.Unlock()
					return
				}
				from := next
				to := min(from+chunk, total)
				next = to
				mu.Unlock()
				for from < to {
					nd := 0
					if k == 0 {
						nd = 3
					}
					res := spawn([]string{"worker", id, fmt.Sprint(seed), fmt.Sprint(from), fmt.Sprint(to), fmt.Sprint(nd)}, nil, &stop)
					mu.Lock()
					for _, o := range res.outs {
						addOut(o)
					}
					if res.crashed && res.infra == "" {
						sig := crashSig(res.reason)
						evals++
						if _, ok := known[sig]; ok {
							knownSeen[sig]++
						} else {
							d := NewD(seed, p.ID, uint64(res.cur))
							c := p.Gen(d)
							fails = append(fails, fail{res.cur, []Failure{{sig, res.reason}}, d.Rec, clip(p.describe(c), 6000), nil})
							stop.Store(!survey)
						}
						from = res.cur + 1
						mu.Unlock()
						continue
					}
					if res.flaky && !stop.Load() && flakes < 5 { // the cases that are left, again
						flakes++
						from += len(res.outs)
						mu.Unlock()
						continue
					}
					if res.infra != "" && !stop.Load() {
						infra = append(infra, res.infra)
					}
					mu.Unlock()
					break
				}
			}
		}(k)
	}
	wg.Wait()

	code := 0
	var viol int
	if survey {
		first := map[string]fail{}
		n := map[string]int{}
		for _, f := range fails {
			for _, x := range f.fails {
				n[x.Sig]++
				if g, ok := first[x.Sig]; !ok || len(f.tape) < len(g.tape) {
					first[x.Sig] = f
				}
			}
		}
		for sig, f := range first {
			fmt.Printf("### %s: %d cases, e.g. %s\n", sig, n[sig], clip(f.desc, 700))
			for _, x := range f.fails {
				fmt.Printf("  [%s] %s\n", x.Sig, clip(x.Msg, 1800))
			}
		}
		return 1
	}
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool { return len(fails[i].tape) < len(fails[j].tape) })
		f := fails[0]
		for _, g := range fails {
			if g.idx < 0 { // sweep failure: no tape
				f = g
			}
		}
		viol = len(fails)
		rf := ReplayFile{Property: id, Seed: seed, Index: f.idx, Tape: f.tape, Case: f.desc, Failures: f.fails, Notes: f.notes}
		if f.idx >= 0 {
			shrink(p, &rf, known)
		}
		os.MkdirAll(filepath.Join(verifDir, "evidence", "replay"), 0o755)
		path := filepath.Join(verifDir, "evidence", "replay", fmt.Sprintf("%s-seed%d.json", id, seed))
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("case: %s\n", clip(rf.Case, 3000))
		for _, x := range rf.Failures {
			fmt.Printf("  [%s] %s\n", x.Sig, clip(x.Msg, 3000))
		}
		for i, x := range rf.Notes {
			if i < 60 {
				fmt.Printf("    %s\n", clip(x, 300))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		code = 1
	} else if len(infra) > 0 {
		fmt.Printf("ERROR property=%s: %s\n", id, infra[0])
		code = 2
	}
	for s, f := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (sig %s, met in %d cases of this run)\n", id, f.Text, s, knownSeen[s])
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": p.Rule,
			"samples": samples, "classes": classes, "planned_cases": total, "stopped_by_time_limit": timedOut, "worker_restarts": flakes,
		},
		"assumptions": p.Assume,
		"wall_s":      time.Since(t0).Seconds(), "violations": viol,
	}
	if p.Assume == nil {
		delete(ev, "assumptions")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs, violations=%d\n", id, tier, seed, evals, len(distinct), time.Since(t0).Seconds(), viol)
	if os.Getenv("VERIF_VERBOSE") != "" {
		ks := make([]string, 0)
		for k := range classes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("   %-50s %d\n", k, classes[k])
		}
	}
	return code
}

// tryTape runs a tape; returns the output and whether it fails in an unlisted way.
func tryTape(p *Prop, tape []uint64, known map[string]Finding) (caseOut, bool) {
	b, _ := json.Marshal(tape)
	res := spawn([]string{"workertape", p.ID}, b, nil)
	if res.crashed && res.infra == "" {
		sig := crashSig(res.reason)
		_, k := known[sig]
		d := ReplayD(tape)
		c := p.Gen(d)
		return caseOut{Fails: []Failure{{sig, res.reason}}, Desc: clip(p.describe(c), 6000), Tape: d.Rec}, !k
	}
	for _, o := range res.outs {
		for _, f := range o.Fails {
			if _, ok := known[f.Sig]; !ok {
				return o, true
			}
		}
	}
	return caseOut{}, false
}

func shrink(p *Prop, rf *ReplayFile, known map[string]Finding) {
	deadline := time.Now().Add(45 * time.Second)
	if v := os.Getenv("VERIF_SHRINK_S"); v != "" {
		n, _ := strconv.Atoi(v)
		deadline = time.Now().Add(time.Duration(n) * time.Second)
	}
	best := append([]uint64(nil), rf.Tape...)
	tries := 0
	repro := false
	for k := 0; k < 3 && time.Now().Before(deadline); k++ {
		tries++
		if o, bad := tryTape(p, best, known); bad {
			repro = true
			rf.Case, rf.Failures, rf.Notes = o.Desc, o.Fails, o.Notes
			break
		}
	}
	if !repro {
		rf.Shrunk = "not reproduced deterministically in 3 attempts (schedule-dependent); original case kept"
		return
	}
	par := min(runtime.NumCPU(), 8)
	// parallel candidate evaluation: first improving candidate (in order) wins
	attempt := func(cands [][]uint64) bool {
		for i := 0; i < len(cands); i += par {
			if time.Now().After(deadline) {
				return false
			}
			batch := cands[i:min(i+par, len(cands))]
			outs := make([]caseOut, len(batch))
			bad := make([]bool, len(batch))
			var wg sync.WaitGroup
			for j := range batch {
				wg.Add(1)
				go func() {
					defer wg.Done()
					outs[j], bad[j] = tryTape(p, batch[j], known)
				}()
			}
			wg.Wait()
			tries += len(batch)
			for j := range batch {
				if bad[j] {
					t := batch[j]
					if len(outs[j].Tape) > 0 && len(outs[j].Tape) <= len(t) {
						t = outs[j].Tape
					}
					best = append([]uint64(nil), t...)
					rf.Case, rf.Failures, rf.Notes = outs[j].Desc, outs[j].Fails, outs[j].Notes
					return true
				}
			}
		}
		return false
	}
	for progress := true; progress && time.Now().Before(deadline); {
		progress = false
		// delete chunks
		for size := len(best) / 2; size >= 1 && time.Now().Before(deadline); size /= 2 {
			for {
				var cands [][]uint64
				for at := 0; at+size <= len(best); at += size {
					c := append(append([]uint64(nil), best[:at]...), best[at+size:]...)
					cands = append(cands, c)
				}
				if len(cands) == 0 || !attempt(cands) {
					break
				}
				progress = true
			}
		}
		// zero chunks
		for size := 8; size >= 1 && time.Now().Before(deadline); size /= 2 {
			var cands [][]uint64
			for at := 0; at < len(best); at += size {
				c := append([]uint64(nil), best...)
				ch := false
				for k := at; k < min(at+size, len(c)); k++ {
					if c[k] != 0 {
						c[k] = 0
						ch = true
					}
				}
				if ch {
					cands = append(cands, c)
				}
			}
			for len(cands) > 0 && attempt(cands) {
				progress = true
				cands = cands[:0]
				for at := 0; at < len(best); at += size {
					c := append([]uint64(nil), best...)
					ch := false
					for k := at; k < min(at+size, len(c)); k++ {
						if c[k] != 0 {
							c[k] = 0
							ch = true
						}
					}
					if ch {
						cands = append(cands, c)
					}
				}
			}
		}
		// reduce values
		for k := 0; k < len(best) && time.Now().Before(deadline); k++ {
			if k >= len(best) || best[k] == 0 {
				continue
			}
			v := best[k]
			var cands [][]uint64
			for _, nv := range []uint64{v / 2, v - 1} {
				c := append([]uint64(nil), best...)
				c[k] = nv
				cands = append(cands, c)
			}
			if attempt(cands) {
				progress = true
			}
		}
	}
	rf.Tape = best
	rf.Shrunk = fmt.Sprintf("%d candidate executions", tries)
}

// ReplayPath re-executes a replay file. Exit 1 when it still fails.
func ReplayPath(path string) int {
	defer Scratch()()
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	o, bad := tryTape(Get(rf.Property), rf.Tape, nil)
	fmt.Println("case:", clip(o.Desc, 4000))
	for _, f := range o.Fails {
		fmt.Printf("  [%s] %s\n", f.Sig, f.Msg)
	}
	for _, n := range o.Notes {
		fmt.Println("   ", n)
	}
	if bad {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
		return 1
	}
	return 0
}
