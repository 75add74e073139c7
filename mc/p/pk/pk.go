// Package pk runs exhaustive enumerations of cases on the real code.
//
// A scenario enumerates its cases in a fixed order. It's run by several child processes, each
// taking its share, under limits on memory and on the time one case may take, so that a case that
// kills the process or never ends is found, named and reported like any other.
package pk

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Scenario is one enumeration.
type Scenario struct {
	Name     string
	Bound    string // what is enumerated, quick
	Deep     string // what is enumerated, thorough ("" = the same)
	Run      func(t *T)
	Single   bool          // one child only
	Memory   uint64        // limit of the address space (default 6 GB)
	CaseTime time.Duration // how long one case may take (default 20 s)
}

// T is what a scenario runs against.
type T struct {
	Thorough bool
	shard    int
	shards   int
	target   int64 // only this case is run and described (-1: all)
	upto     bool  // ...after all those before it
	next     int64
	cur      int64
	mem      *[512]int64
	text     []byte
	rep      Report
	kinds    map[string]bool
	stop     bool
	lastDesc func() string
}

// Report is the outcome of a child.
type Report struct {
	Cases, States, Steps, Traces int64
	Failures                     []Failure
	Samples                      []string
	Counts                       map[string]int64
}

// Failure is one violated case.
type Failure struct {
	Kind, Msg, Desc string
	Case            int64
}

// Case announces the next case and tells if it's to be run here.
func (t *T) Case(desc func() string) bool {
	n := t.next
	t.next++
	if t.stop {
		return false
	}
	if t.target >= 0 {
		if n > t.target {
			t.stop = true
			return false
		}
		if n != t.target && !(t.upto && n%int64(t.shards) == int64(t.shard)) {
			return false
		}
	} else if n%int64(t.shards) != int64(t.shard) {
		return false
	}
	t.cur = n
	t.lastDesc = desc
	t.mem[1] = n
	if n == t.target {
		copy(t.text, desc()+"\x00")
		t.mem[2] = 1
	}
	t.mem[0]++ // last: the case is under way
	t.rep.Cases++
	if len(t.rep.Samples) < 3 && (t.rep.Cases == 1 || t.rep.Cases == 500 || t.rep.Cases == 20000) {
		t.rep.Samples = append(t.rep.Samples, cut(desc(), 200))
	}
	return true
}

// Alive tells the parent that a long case makes progress.
func (t *T) Alive() { t.mem[0]++ }

// Stop tells if enough was found.
func (t *T) Stop() bool { return t.stop }

// State, Step and Trace count what the case covered.
func (t *T) State()      { t.rep.States++ }
func (t *T) Step(n int)  { t.rep.Steps += int64(n) }
func (t *T) Trace(n int) { t.rep.Traces += int64(n) }
func (t *T) Count(what string, n int64) {
	if t.rep.Counts == nil {
		t.rep.Counts = map[string]int64{}
	}
	t.rep.Counts[what] += n
}

// Fail reports a violation in the current case.
func (t *T) Fail(kind, format string, args ...interface{}) {
	if t.kinds[kind] {
		return
	}
	t.kinds[kind] = true
	t.rep.Failures = append(t.rep.Failures, Failure{kind, fmt.Sprintf(format, args...), cut(t.lastDesc(), 2000), t.cur})
	if len(t.kinds) >= 5 {
		t.stop = true
	}
}

// Guard runs f and turns a panic into text ("" if none).
func Guard(f func()) (crash string) {
	defer func() {
		if e := recover(); e != nil {
			crash = fmt.Sprint("panic: ", e)
		}
	}()
	f()
	return ""
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d)", len(s))
	}
	return s
}

type scReport struct {
	Name   string           `json:"scenario"`
	Bound  string           `json:"bound"`
	Cases  int64            `json:"cases"`
	States int64            `json:"states"`
	Steps  int64            `json:"transitions"`
	Traces int64            `json:"traces"`
	Counts map[string]int64 `json:"counts,omitempty"`
	Capped string           `json:"capped,omitempty"`
	Wall   float64          `json:"wall_s"`
}

func shm() string {
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		return "/dev/shm"
	}
	return os.TempDir()
}

func mapped(f *os.File) []byte {
	b, err := syscall.Mmap(int(f.Fd()), 0, 16384, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, "mmap:", err)
		os.Exit(2)
	}
	return b
}

func child(scs []*Scenario) {
	p := strings.Split(os.Getenv("ZZCHILD"), ",") // scenario index, shard, shards, tier, target, upto
	n := make([]int, len(p))
	for i := range p {
		n[i], _ = strconv.Atoi(p[i])
	}
	sc := scs[n[0]]
	b := mapped(os.NewFile(3, "mem"))
	lim := sc.Memory
	if lim == 0 {
		lim = 6 << 30
	}
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	debug.SetMemoryLimit(int64(lim / 4))
	runtime.GOMAXPROCS(2)
	log.SetOutput(io.Discard)
	t := &T{shard: n[1], shards: n[2], Thorough: n[3] == 1, target: int64(n[4]), upto: n[5] == 1,
		mem: (*[512]int64)(unsafe.Pointer(&b[0])), text: b[4096:], kinds: map[string]bool{}}
	sc.Run(t)
	out, _ := json.Marshal(&t.rep)
	os.NewFile(4, "out").Write(out)
	os.Exit(0)
}

type result struct {
	rep   Report
	ok    bool   // it ended by itself
	crash string // why not
	last  int64  // the case it was running
	text  string
}

func spawn(si int, sc *Scenario, shard, shards int, thorough bool, target int64, upto bool, deadline time.Time) result {
	f, err := os.CreateTemp(shm(), "zzpk")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	os.Remove(f.Name())
	f.Truncate(16384)
	b := mapped(f)
	defer syscall.Munmap(b)
	defer f.Close()
	mem := (*[512]int64)(unsafe.Pointer(&b[0]))
	r, w, _ := os.Pipe()
	cmd := exec.Command(os.Args[0])
	bit := func(v bool) int {
		if v {
			return 1
		}
		return 0
	}
	cmd.Env = append(os.Environ(), fmt.Sprintf("ZZCHILD=%d,%d,%d,%d,%d,%d", si, shard, shards, bit(thorough), target, bit(upto)))
	cmd.ExtraFiles = []*os.File{f, w}
	errs, _ := os.CreateTemp(shm(), "zzerr")
	os.Remove(errs.Name())
	defer errs.Close()
	cmd.Stderr = errs
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	w.Close()
	outc := make(chan []byte, 1)
	go func() { o, _ := io.ReadAll(r); r.Close(); outc <- o }()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	patience := sc.CaseTime
	if patience == 0 {
		patience = 20 * time.Second
	}
	var res result
	seen, since := int64(-1), time.Now()
	for {
		select {
		case err := <-done:
			out := <-outc
			res.last = mem[1]
			res.text = strings.SplitN(string(b[4096:]), "\x00", 2)[0]
			if err == nil && json.Unmarshal(out, &res.rep) == nil {
				res.ok = true
				return res
			}
			if res.crash == "" {
				e := make([]byte, 4096)
				k, _ := errs.ReadAt(e, 0)
				res.crash = "the process was killed: " + firstLines(string(e[:k]))
				if err != nil && k == 0 {
					res.crash = "the process was killed: " + err.Error()
				}
			}
			return res
		case <-time.After(50 * time.Millisecond):
			if v := mem[0]; v != seen {
				seen, since = v, time.Now()
			} else if seen > 0 && time.Since(since) > patience {
				res.crash = fmt.Sprintf("it does not end (%v)", patience)
				cmd.Process.Kill()
				since = time.Now().Add(time.Hour)
			}
			if time.Now().After(deadline) && res.crash == "" {
				res.crash = "deadline"
				cmd.Process.Kill()
			}
		}
	}
}

func firstLines(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > 3 {
		l = l[:3]
	}
	return strings.Join(l, " / ")
}

// Main runs the check of one property.
func Main(prop string, scs []*Scenario, explanation string, assumptions []string) {
	if os.Getenv("ZZCHILD") != "" {
		child(scs)
	}
	tier := flag.String("tier", "quick", "")
	evidence := flag.String("evidence", "", "")
	replays := flag.String("replays", "", "")
	known := flag.String("known", "", "")
	replay := flag.String("replay", "", "")
	only := flag.String("only", "", "")
	limit := flag.Float64("limit", 0, "")
	procs := flag.Int("procs", 8, "")
	all := flag.Bool("all", false, "")
	flag.Parse()
	start := time.Now()
	if *replay != "" {
		doReplay(scs, *replay)
		return
	}
	thorough := *tier == "thorough"
	if *limit == 0 {
		*limit = 480
		if thorough {
			*limit = 3600
		}
	}
	deadline := start.Add(time.Duration(*limit * float64(time.Second)))
	ks := loadKnown(*known, prop)
	var reports []scReport
	var samples []string
	exhaustive, exit, violations := true, 0, 0
	seenKnown := map[string]bool{}
	for si, sc := range scs {
		if *only != "" && !strings.Contains(sc.Name, *only) {
			continue
		}
		t0 := time.Now()
		shards := *procs
		if sc.Single {
			shards = 1
		}
		rs := make([]result, shards)
		var wg sync.WaitGroup
		for i := range rs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				rs[i] = spawn(si, sc, i, shards, thorough, -1, false, deadline)
			}(i)
		}
		wg.Wait()
		r := scReport{Name: sc.Name, Bound: sc.Bound}
		if thorough && sc.Deep != "" {
			r.Bound = sc.Deep
		}
		var fs []Failure
		for i, x := range rs {
			if !x.ok {
				if x.crash == "deadline" {
					r.Capped = "time"
					continue
				}
				// once more: by itself, then after those before it
				y := spawn(si, sc, i, shards, thorough, x.last, false, time.Now().Add(3*time.Minute))
				if y.ok || y.crash == "deadline" {
					y = spawn(si, sc, i, shards, thorough, x.last, true, time.Now().Add(5*time.Minute))
				}
				if y.ok || y.crash == "deadline" {
					fmt.Printf("unconfirmed (not reported): [%s] case %d: %s\n", sc.Name, x.last, x.crash)
					r.Capped = "unconfirmed"
					continue
				}
				fs = append(fs, Failure{"crash", y.crash, y.text, x.last})
				r.Capped = "crash"
				continue
			}
			r.Cases += x.rep.Cases
			r.States += x.rep.States
			r.Steps += x.rep.Steps
			r.Traces += x.rep.Traces
			for k, v := range x.rep.Counts {
				if r.Counts == nil {
					r.Counts = map[string]int64{}
				}
				r.Counts[k] += v
			}
			fs = append(fs, x.rep.Failures...)
			if i < 2 {
				for _, s := range x.rep.Samples {
					samples = append(samples, sc.Name+": "+s)
				}
			}
		}
		r.Wall = time.Since(t0).Seconds()
		if r.Cases == 0 && r.Capped == "" {
			r.Capped = "vacuous"
		}
		if r.Capped != "" {
			exhaustive = false
		}
		reports = append(reports, r)
		fmt.Printf("%-30s cases %d states %d transitions %d traces %d %s %.1fs\n", sc.Name, r.Cases, r.States, r.Steps, r.Traces, r.Capped, r.Wall)
		sort.SliceStable(fs, func(a, b int) bool { return fs[a].Case < fs[b].Case })
		kinds := map[string]bool{}
		for _, f := range fs {
			msg := f.Msg + " -- " + f.Desc
			if k := matchKnown(ks, sc.Name, msg); k != "" {
				if !seenKnown[k] {
					seenKnown[k] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
				}
				continue
			}
			if kinds[f.Kind] {
				continue
			}
			kinds[f.Kind] = true
			violations++
			exit = 1
			path := ""
			if *replays != "" {
				path = filepath.Join(*replays, fmt.Sprintf("%s-%s-%d.json", prop, sc.Name, f.Case))
				b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "scenario": sc.Name, "case": f.Case,
					"thorough": thorough, "shards": shards, "message": f.Msg, "description": f.Desc}, "", " ")
				os.MkdirAll(*replays, 0o755)
				os.WriteFile(path, append(b, '\n'), 0o644)
			}
			fmt.Printf("violated: [%s] %s\n", sc.Name, cut(msg, 600))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		}
		if exit == 1 && !*all {
			exhaustive = false
			break
		}
	}
	var cases, states, steps, traces int64
	for _, r := range reports {
		cases += r.Cases
		states += r.States
		steps += r.Steps
		traces += r.Traces
	}
	if samples == nil {
		samples = []string{"none"}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *evidence != "" {
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": prop, "tier": *tier, "seed": seed, "level": "model_checking",
			"coverage": map[string]interface{}{
				"states": states, "transitions": steps, "traces_validated_against_impl": traces,
				"evaluations": cases, "scenarios": reports, "samples": samples, "exhaustive": exhaustive,
				"explanation": explanation,
			},
			"assumptions": assumptions, "wall_s": time.Since(start).Seconds(), "violations": violations,
		}, "", " ")
		os.MkdirAll(filepath.Dir(*evidence), 0o755)
		if err := os.WriteFile(*evidence, append(b, '\n'), 0o644); err != nil {
			fmt.Println("evidence:", err)
		}
	}
	os.Exit(exit)
}

func doReplay(scs []*Scenario, path string) {
	var v struct {
		Scenario, Message, Description string
		Case                           int64
		Thorough                       bool
		Shards                         int
	}
	b, err := os.ReadFile(path)
	if err != nil || json.Unmarshal(b, &v) != nil {
		fmt.Println("cannot read", path)
		os.Exit(2)
	}
	for si, sc := range scs {
		if sc.Name != v.Scenario {
			continue
		}
		for _, upto := range []bool{false, true} {
			x := spawn(si, sc, int(v.Case)%v.Shards, v.Shards, v.Thorough, v.Case, upto, time.Now().Add(10*time.Minute))
			if !x.ok {
				fmt.Printf("violated: [%s] case %d: %s -- %s\n", sc.Name, v.Case, x.crash, x.text)
				os.Exit(1)
			}
			for _, f := range x.rep.Failures {
				if f.Case == v.Case {
					fmt.Printf("violated: [%s] case %d: %s -- %s\n", sc.Name, v.Case, f.Msg, f.Desc)
					os.Exit(1)
				}
			}
		}
		fmt.Println("held")
		os.Exit(0)
	}
	fmt.Println("no such scenario")
	os.Exit(2)
}

type knownFinding struct{ sc, sub, text string }

func loadKnown(path, prop string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		head, text := l, l
		if i := strings.Index(l, " | "); i > 0 {
			head, text = l[:i], l[i+3:]
		}
		var k knownFinding
		k.text = text
		if i := strings.Index(head, "scenario="); i > 0 {
			k.sc = strings.Fields(head[i+9:])[0]
		}
		if i := strings.Index(head, "match="); i > 0 {
			k.sub = head[i+6:]
		}
		out = append(out, k)
	}
	return out
}

func matchKnown(ks []knownFinding, sc, msg string) string {
	for _, k := range ks {
		if (k.sc == "" || k.sc == sc) && k.sub != "" && strings.Contains(msg, k.sub) {
			return k.text
		}
	}
	return ""
}
