package zzvs

import (
	"bufio"
	"bytes"
	"encoding/gob"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Scenario is one closed system to explore.
type Scenario struct {
	Name string
	// Quick and Thorough are the numbers of deviations explored.
	Quick, Thorough int
	// Config adjusts the world before an execution starts.
	Config func(w *World)
	// New makes the body of one execution and the check run when it is over.  The check is
	// not run for executions cut short because they reached a known state.
	New func() (body func(), check func(w *World))
	// Races makes data races violations; otherwise racing accesses become scheduling points.
	Races bool
	// CrashOK: the death of the process is not a violation of this property.
	CrashOK bool
	// HorizonOK: running into the step horizon is not a violation.
	HorizonOK bool
	// Parts, if not 0, is the number of variants that are each explored: World.Part tells the body
	// which it is.  They run at the same time.
	Parts int
	// MaxExec bounds the executions of one level (deterministic); 0: none.
	QuickExec, ThoroughExec int
}

// Explorer explores one scenario in one process.
type Explorer struct {
	racy      map[int32]bool
	MapRaceOK bool
	table     []uint64
	local     map[uint64]bool
	fresh     int64
	full      bool
}

func (ex *Explorer) visit(key uint64, n int) bool {
	if key == 0 {
		key = 1
	}
	if ex.table == nil {
		if ex.local[key] {
			return true
		}
		ex.local[key] = true
		ex.fresh++
		return false
	}
	t := ex.table
	m := uint64(len(t) - 1)
	for i, k := key&m, 0; k < 4096; i, k = (i+1)&m, k+1 {
		v := atomic.LoadUint64(&t[i])
		if v == key {
			return true
		}
		if v == 0 {
			if atomic.CompareAndSwapUint64(&t[i], 0, key) {
				ex.fresh++
				return false
			}
			if atomic.LoadUint64(&t[i]) == key {
				return true
			}
		}
	}
	ex.full = true
	return false
}

// Fail records that the property is violated in this execution; kind is a short stable name.
func Fail(kind, f string, a ...interface{}) {
	w := W
	if w == nil {
		w = checking
	}
	s := kind
	if f != "" {
		s += ": " + fmt.Sprintf(f, a...)
	}
	s = plain(s, 4000)
	w.Faults = append(w.Faults, s)
	if W != nil {
		w.trace("FAULT %s", s)
	}
}

var checking *World

// plain is a text that can be printed, with its end left out if it is long.
func plain(s string, n int) string {
	if len(s) > n {
		s = fmt.Sprintf("%s... (%d bytes)", s[:n], len(s))
	}
	return strings.Map(func(r rune) rune {
		if r < ' ' && r != '\n' && r != '\t' || r == 0xfffd {
			return '?'
		}
		return r
	}, s)
}

// Event adds an observation of the harness to the state: two executions that observed
// different events, or observed them in a different order, are different states.
func Event(s string) {
	if g := soft(); g != nil {
		W.envH = mix(W.envH, hstr(s))
		W.trace("EVENT %s", s)
	}
}

// Eventf is Event with formatting.
func Eventf(f string, a ...interface{}) { Event(fmt.Sprintf(f, a...)) }

func (ex *Explorer) run(sc *Scenario, devs []Dev, tracing, prune bool) *World {
	W = nil
	for _, f := range resets {
		f()
	}
	w := &World{
		MaxTime: 1 << 62, MaxSteps: 200_000, SpinBudget: 200, Preempt: true, Freeze: true,
		doneCh: make(chan struct{}, 1), devs: devs, pruneOK: prune, ex: ex,
		mem: map[unsafe.Pointer]*shadow{}, atoms: map[unsafe.Pointer]*obj{},
		chans: map[unsafe.Pointer]*chanState{}, maps: map[unsafe.Pointer]*shadow{},
		raceSeen: map[[2]int32]bool{}, Tracing: tracing,
		Net: &Net{eph: map[string]int{}},
	}
	if len(devs) > 0 && devs[0].Pos < 0 {
		w.Part = int(devs[0].Alt)
		w.devs = devs[1:]
		w.envH = mix(w.envH, uint64(w.Part)+1)
	}
	if !prune && ex.local == nil {
		ex.local = map[uint64]bool{}
	}
	if sc.Config != nil {
		sc.Config(w)
	}
	body, check := sc.New()
	g := w.newG(nil, "main")
	w.main = g
	w.cur = g
	W = w
	w.start(g, body)
	g.wake <- struct{}{}
	<-w.doneCh
	for _, x := range w.gs {
		select {
		case x.wake <- struct{}{}:
		default:
		}
	}
	w.wg.Wait()
	W = nil
	if w.reason == "horizon" && !sc.HorizonOK && w.Crash == "" {
		w.Faults = append(w.Faults, "endless: the execution does not come to rest")
	}
	if w.Crash != "" && !sc.CrashOK {
		w.Faults = append(w.Faults, "crash: "+w.Crash)
	}
	if sc.Races {
		for _, r := range w.Races {
			w.Faults = append(w.Faults, "race: "+r.String())
		}
	}
	if w.reason == "quiescent" && w.Crash == "" && check != nil {
		checking = w
		check(w)
		checking = nil
	}
	return w
}

// Live lists the goroutines that were still blocked when the execution came to rest.
func (w *World) Live() []string {
	var out []string
	for _, x := range w.gs {
		if !x.done {
			out = append(out, x.name+" ("+x.what+")")
		}
	}
	return out
}

// Now is the final virtual time.
func (w *World) Now() int64 { return w.now }

// ---------------------------------------------------------------- workers

type job struct {
	Sc      int
	Racy    []int32
	Nodes   [][]Dev
	Expand  bool
	NewPass bool
}

type fault struct {
	Node []Dev
	Msg  string
}

type result struct {
	Kids     [][]Dev
	Execs    int64
	Steps    int64
	Fresh    int64
	Pruned   int64
	Diverged int64
	Horizon  int64
	Maxgs    int
	Faults   []fault
	Races    []Race
	Outcomes map[string]int64
	Full     bool
	Stuck    int64
	Sample   string
}

func worker(scs []*Scenario, table []uint64) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	in := gob.NewDecoder(bufio.NewReader(os.NewFile(3, "in")))
	outf := os.NewFile(4, "out")
	out := gob.NewEncoder(outf)
	prog := progress()
	for {
		var j job
		if err := in.Decode(&j); err != nil {
			return
		}
		sc := scs[j.Sc]
		ex := &Explorer{racy: map[int32]bool{}, MapRaceOK: sc.Races, table: table}
		for _, s := range j.Racy {
			ex.racy[s] = true
		}
		res := result{Outcomes: map[string]int64{}}
		seen := map[Race]bool{}
		kinds := map[string]int{}
		for i, nd := range j.Nodes {
			atomic.StoreInt64(prog, int64(i+1))
			w := ex.run(sc, nd, false, true)
			res.Execs++
			res.Steps += int64(w.steps)
			if w.all > res.Maxgs {
				res.Maxgs = w.all
			}
			switch w.reason {
			case "pruned":
				res.Pruned++
			case "diverged":
				res.Diverged++
			case "horizon":
				res.Horizon++
			}
			if w.reason != "pruned" && w.reason != "diverged" {
				o := w.Outcome
				if o == "" {
					o = w.reason
				}
				if len(res.Outcomes) < 2000 {
					res.Outcomes[o]++
				}
			}
			for _, r := range w.Races {
				if !seen[r] {
					seen[r] = true
					res.Races = append(res.Races, r)
				}
			}
			if w.reason == "diverged" {
				continue
			}
			for _, f := range w.Faults {
				k := kindOf(f)
				if kinds[k] < 3 {
					kinds[k]++
					res.Faults = append(res.Faults, fault{nd, f})
				}
			}
			if j.Expand {
				base := int32(0)
				if n := len(nd); n > 0 {
					base = nd[n-1].Pos + 1
				}
				for p, n := range w.nalts {
					for a := int32(1); a < n; a++ {
						kid := make([]Dev, len(nd)+1)
						copy(kid, nd)
						kid[len(nd)] = Dev{base + int32(p), a}
						res.Kids = append(res.Kids, kid)
					}
				}
			}
		}
		atomic.StoreInt64(prog, 0)
		res.Fresh = ex.fresh
		res.Full = ex.full
		if err := out.Encode(&res); err != nil {
			return
		}
	}
}

func kindOf(f string) string {
	if i := strings.Index(f, ": "); i > 0 {
		k := f[:i]
		if k == "race" || k == "crash" {
			return f
		}
		return k
	}
	return f
}

// progress is a word shared with the master: the node the worker is at.
var progWord *int64

func progress() *int64 { return progWord }

func mmap(f *os.File, size int) []byte {
	b, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		log.Fatal("mmap: ", err)
	}
	return b
}

func memfile(dir, name string, size int64) *os.File {
	f, err := os.CreateTemp(dir, name)
	if err != nil {
		log.Fatal(err)
	}
	os.Remove(f.Name())
	if err := f.Truncate(size); err != nil {
		log.Fatal(err)
	}
	return f
}

type proc struct {
	cmd  *exec.Cmd
	in   *gob.Encoder
	out  *gob.Decoder
	inf  *os.File
	outf *os.File
	prog *int64
	step *int64
	err  *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(b []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, b...)
	if len(t.b) > 1<<20 {
		t.b = append(t.b[:64<<10:64<<10], t.b[len(t.b)-(64<<10):]...)
	}
	t.mu.Unlock()
	return len(b), nil
}

type master struct {
	scs   []*Scenario
	tabf  *os.File
	tabn  int
	table []uint64
	procs []*proc
	dir   string
}

func (m *master) spawn() *proc {
	exe, _ := os.Executable()
	c := exec.Command(exe)
	c.Env = append(os.Environ(), "ZZWORKER="+strconv.Itoa(m.tabn))
	r1, w1, _ := os.Pipe()
	r2, w2, _ := os.Pipe()
	pf := memfile(m.dir, "prog", 4096)
	t := &tail{}
	c.Stderr = t
	c.ExtraFiles = []*os.File{r1, w2, m.tabf, pf}
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := c.Start(); err != nil {
		log.Fatal(err)
	}
	r1.Close()
	w2.Close()
	pb := mmap(pf, 4096)
	pf.Close()
	return &proc{c, gob.NewEncoder(w1), gob.NewDecoder(bufio.NewReader(r2)), w1, r2,
		(*int64)(unsafe.Pointer(&pb[0])), (*int64)(unsafe.Pointer(&pb[8])), t}
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	p.inf.Close()
	p.outf.Close()
	p.cmd.Wait()
}

const hangAfter = 30 * time.Second

// cpuTicks is the processor time a process has used, in 1/100 s.
func cpuTicks(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	v, _ := strconv.ParseInt(f[12], 10, 64)
	return u + v
}

// do runs a job in a worker; a worker that dies or hangs yields a fault for the node it ran.
func (m *master) do(i int, j job) (total result) {
	total.Outcomes = map[string]int64{}
	for len(j.Nodes) > 0 {
		p := m.procs[i]
		type ans struct {
			r   result
			err error
		}
		ch := make(chan ans, 1)
		go func() {
			var a ans
			if a.err = p.in.Encode(&j); a.err == nil {
				a.err = p.out.Decode(&a.r)
			}
			ch <- a
		}()
		var a ans
		last, lastStep, since := int64(-1), int64(-1), time.Now()
		hung, spins := false, false
		var cpu int64
	wait:
		for {
			select {
			case a = <-ch:
				break wait
			case <-time.After(2 * time.Second):
				if v, st := atomic.LoadInt64(p.prog), atomic.LoadInt64(p.step); v != last || st != lastStep {
					last, lastStep, since = v, st, time.Now()
					cpu = cpuTicks(p.cmd.Process.Pid)
				} else if time.Since(since) > hangAfter {
					hung = true
					spins = cpuTicks(p.cmd.Process.Pid)-cpu > int64(hangAfter/time.Second)*100/3
					p.cmd.Process.Signal(syscall.SIGABRT)
					time.Sleep(500 * time.Millisecond)
					p.cmd.Process.Kill()
					a = <-ch
					break wait
				}
			}
		}
		if a.err == nil && !hung {
			total.add(a.r)
			return
		}
		at := int(atomic.LoadInt64(p.prog))
		p.kill()
		msg := "hang: an execution never returns"
		if !hung {
			msg = "crash: the process died: " + firstLines(string(p.err.b))
		}
		m.procs[i] = m.spawn()
		if hung && !spins || strings.Contains(msg, "all goroutines are asleep") {
			// blocked somewhere the scheduler does not control: no verdict
			total.Stuck++
			if at >= 1 && at <= len(j.Nodes) && total.Stuck < 3 {
				j.Nodes = append(append([][]Dev{}, j.Nodes[:at-1]...), j.Nodes[at:]...)
				continue
			}
			return
		}
		if at >= 1 && at <= len(j.Nodes) {
			total.Faults = append(total.Faults, fault{j.Nodes[at-1], msg})
			total.Execs += int64(at)
			// the results of the nodes before it are lost: run them again one at a time
			done := j.Nodes[:at-1]
			rest := j.Nodes[at:]
			j.Nodes = append(append([][]Dev{}, done...), rest...)
			if len(total.Faults) > 2 {
				return
			}
		} else {
			total.Faults = append(total.Faults, fault{nil, msg})
			return
		}
	}
	return
}

func firstLines(s string) string {
	for _, k := range []string{"fatal error:", "panic:", "runtime:"} {
		if i := strings.Index(s, k); i >= 0 {
			s = s[i:]
			break
		}
	}
	l := strings.SplitN(s, "\n", 3)
	if len(l) > 2 {
		l = l[:2]
	}
	return strings.Join(l, " ") + callers(s)
}

func (t *result) add(r result) {
	t.Kids = append(t.Kids, r.Kids...)
	t.Execs += r.Execs
	t.Steps += r.Steps
	t.Fresh += r.Fresh
	t.Pruned += r.Pruned
	t.Diverged += r.Diverged
	t.Horizon += r.Horizon
	if r.Maxgs > t.Maxgs {
		t.Maxgs = r.Maxgs
	}
	t.Faults = append(t.Faults, r.Faults...)
	t.Races = append(t.Races, r.Races...)
	for k, v := range r.Outcomes {
		if len(t.Outcomes) < 20000 {
			t.Outcomes[k] += v
		}
	}
	t.Full = t.Full || r.Full
}

type scReport struct {
	Name      string   `json:"scenario"`
	Bound     int      `json:"deviation_bound"`
	Completed int      `json:"deviations_completed"`
	Execs     int64    `json:"executions"`
	Pruned    int64    `json:"executions_ended_in_known_state"`
	States    int64    `json:"states"`
	Steps     int64    `json:"transitions"`
	Levels    []int    `json:"executions_per_level"`
	Maxgs     int      `json:"max_goroutines"`
	Outcomes  int      `json:"distinct_outcomes"`
	Diverged  int64    `json:"diverged"`
	Horizon   int64    `json:"horizon"`
	RacySites int      `json:"racing_sites_as_scheduling_points"`
	Capped    string   `json:"capped,omitempty"`
	Example   []string `json:"example_outcomes,omitempty"`
	Wall      float64  `json:"wall_s"`
}

// Main runs the check of one property: it explores the scenarios and writes the evidence.
func Main(prop string, scs []*Scenario, assumptions []string) {
	One(scs)
	if n := os.Getenv("ZZWORKER"); n != "" {
		log.SetOutput(io.Discard)
		k, _ := strconv.Atoi(n)
		var tab []uint64
		if k > 0 {
			b := mmap(os.NewFile(5, "table"), k*8)
			tab = unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), k)
		}
		pb := mmap(os.NewFile(6, "prog"), 4096)
		progWord = (*int64)(unsafe.Pointer(&pb[0]))
		stepWord = (*int64)(unsafe.Pointer(&pb[8]))
		worker(scs, tab)
		os.Exit(0)
	}
	tier := flag.String("tier", "quick", "")
	evidence := flag.String("evidence", "", "")
	replays := flag.String("replays", "", "")
	known := flag.String("known", "", "")
	replay := flag.String("replay", "", "replay file to run")
	only := flag.String("only", "", "scenario (substring)")
	depth := flag.Int("depth", -1, "override the deviation bound")
	most := flag.Int("cap", 99, "cap on the deviation bound")
	more := flag.Int("more", 0, "added to the deviation bound")
	limit := flag.Float64("limit", 0, "wall-clock limit (s)")
	procs := flag.Int("procs", 8, "")
	tabBits := flag.Int("table", 0, "")
	keepGoing := flag.Bool("all", false, "")
	flag.Parse()
	log.SetOutput(io.Discard)
	if *replay != "" {
		doReplay(scs, *replay)
		return
	}
	start := time.Now()
	if *limit == 0 {
		*limit = 420
		if *tier == "thorough" {
			*limit = 3000
		}
	}
	if *tabBits == 0 {
		*tabBits = 24
		if *tier == "thorough" {
			*tabBits = 27
		}
	}
	deadline := start.Add(time.Duration(*limit * float64(time.Second)))
	dir := ""
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		dir = "/dev/shm"
	}
	m := &master{scs: scs, tabn: 1 << *tabBits, dir: dir}
	m.tabf = memfile(dir, "zztab", int64(m.tabn)*8)
	tb := mmap(m.tabf, m.tabn*8)
	m.table = unsafe.Slice((*uint64)(unsafe.Pointer(&tb[0])), m.tabn)
	for i := 0; i < *procs; i++ {
		m.procs = append(m.procs, m.spawn())
	}
	defer func() {
		for _, p := range m.procs {
			p.kill()
		}
	}()
	knownSet := loadKnown(*known, prop)
	var reports []*scReport
	violations := 0
	exhaustive := true
	var validated int64
	exit := 0
	seenKnown := map[string]bool{}
	var samples []interface{}
	cum := 0
	for si, sc := range scs {
		if *only != "" && !strings.Contains(sc.Name, *only) {
			continue
		}
		cum++
		d := sc.Quick
		cap := sc.QuickExec
		if *tier == "thorough" {
			d = sc.Thorough
			cap = sc.ThoroughExec
		}
		if d >= 0 {
			d += *more
		}
		if d > *most {
			d = *most
		}
		if *depth >= 0 {
			d = *depth
		}
		if d < 0 {
			continue // not in this tier
		}
		left := time.Until(deadline)
		// later scenarios keep a share of the time
		share := time.Duration(float64(left) / float64(len(scs)-si) * 3)
		if share > left {
			share = left
		}
		rep, faults := m.explore(si, sc, d, cap, time.Now().Add(share))
		reports = append(reports, rep)
		if rep.Execs == rep.Pruned && rep.Capped == "" {
			// the first execution at least has to be checked to its end
			rep.Capped = "vacuous"
		}
		if rep.Capped != "" {
			exhaustive = false
		}
		fmt.Printf("%-34s bound %d (completed %d) execs %d pruned %d states %d transitions %d outcomes %d diverged %d racy-sites %d %s %.1fs\n",
			sc.Name, rep.Bound, rep.Completed, rep.Execs, rep.Pruned, rep.States, rep.Steps, rep.Outcomes, rep.Diverged, rep.RacySites, rep.Capped, rep.Wall)
		// validate: replay three executions from their recorded schedules and compare
		validated += m.validate(si, sc, faults)
		byKind := map[string]bool{}
		sort.SliceStable(faults.list, func(a, b int) bool { return len(faults.list[a].Node) < len(faults.list[b].Node) })
		for _, f := range faults.list {
			k := kindOf(f.Msg)
			if byKind[k] {
				continue
			}
			if kf := matchKnown(knownSet, sc.Name, f.Msg); kf != "" && seenKnown[kf] {
				continue
			}
			byKind[k] = true
			ok, msg, tr := m.confirm(si, sc, f, faults.racy)
			if !ok {
				fmt.Printf("unconfirmed (not reported): %s\n", f.Msg)
				byKind[k] = false
				exhaustive = false
				continue
			}
			if kf := matchKnown(knownSet, sc.Name, msg); kf != "" {
				byKind[k] = false
				if !seenKnown[kf] {
					seenKnown[kf] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf)
				}
				continue
			}
			violations++
			path := writeReplay(*replays, prop, sc.Name, f.Node, faults.racy, msg, tr)
			fmt.Printf("violated: [%s] %s\n", sc.Name, plain(msg, 4000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			exit = 1
			if !*keepGoing {
				break
			}
		}
		if exit == 1 && !*keepGoing {
			exhaustive = false
			break
		}
	}
	var execs, states, steps, outcomes int64
	for _, r := range reports {
		execs += r.Execs
		states += r.States
		steps += r.Steps
		outcomes += int64(r.Outcomes)
		for i, e := range r.Example {
			if i < 3 {
				samples = append(samples, map[string]string{"scenario": r.Name, "outcome": e})
			}
		}
	}
	if samples == nil {
		samples = append(samples, "none")
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	WriteEvidence(*evidence, map[string]interface{}{
		"property": prop, "tier": *tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": steps,
			"traces_validated_against_impl": execs,
			"replays_compared":              validated,
			"distinct_outcomes":             outcomes,
			"scenarios":                     reports,
			"samples":                       samples,
			"exhaustive":                    exhaustive,
			"explanation": "every trace is an execution of the instrumented implementation itself (no separate model); states are happens-before " +
				"histories, transitions are executed scheduling points; within each scenario all executions with at most the completed number of " +
				"deviations from the default schedule/environment were enumerated",
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	})
	for _, p := range m.procs {
		p.kill()
	}
	os.Exit(exit)
}

// WriteEvidence writes an evidence file.
func WriteEvidence(path string, v map[string]interface{}) {
	if path == "" {
		return
	}
	b, _ := json.MarshalIndent(v, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
}

type faults struct {
	list   []fault
	racy   []int32
	sample [][]Dev
}

func (m *master) explore(si int, sc *Scenario, bound, capExec int, deadline time.Time) (*scReport, *faults) {
	t0 := time.Now()
	racy := map[int32]bool{}
	for round := 0; ; round++ {
		rep := &scReport{Name: sc.Name, Bound: bound, Completed: -1}
		fs := &faults{}
		for i := range m.table {
			if m.table[i] != 0 {
				m.table[i] = 0
			}
		}
		for s := range racy {
			fs.racy = append(fs.racy, s)
		}
		sort.Slice(fs.racy, func(i, j int) bool { return fs.racy[i] < fs.racy[j] })
		rep.RacySites = len(fs.racy)
		outcomes := map[string]int64{}
		level := roots(sc)
		again := false
		for d := 0; d <= bound; d++ {
			if len(level) == 0 {
				rep.Completed = bound
				break
			}
			if capExec > 0 && len(level) > capExec {
				rep.Capped = fmt.Sprintf("level %d cut at %d of %d executions", d, capExec, len(level))
				level = level[:capExec]
			}
			rep.Levels = append(rep.Levels, len(level))
			var next [][]Dev
			var mu sync.Mutex
			pos := 0
			chunk := len(level)/(len(m.procs)*16) + 1
			if chunk > 200 {
				chunk = 200
			}
			stop := false
			var wg sync.WaitGroup
			for i := range m.procs {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						mu.Lock()
						if pos >= len(level) || stop {
							mu.Unlock()
							return
						}
						if time.Now().After(deadline) {
							rep.Capped = fmt.Sprintf("time: level %d stopped after %d of %d executions", d, pos, len(level))
							stop = true
							mu.Unlock()
							return
						}
						e := pos + chunk
						if e > len(level) {
							e = len(level)
						}
						j := job{Sc: si, Racy: fs.racy, Nodes: level[pos:e], Expand: d < bound}
						pos = e
						mu.Unlock()
						r := m.do(i, j)
						mu.Lock()
						next = append(next, r.Kids...)
						rep.Execs += r.Execs
						rep.Steps += r.Steps
						rep.States += r.Fresh
						rep.Pruned += r.Pruned
						rep.Diverged += r.Diverged
						rep.Horizon += r.Horizon
						if r.Maxgs > rep.Maxgs {
							rep.Maxgs = r.Maxgs
						}
						if r.Stuck > 0 {
							rep.Capped = "blocked outside the scheduler"
							stop = true
						}
						if r.Full {
							rep.Capped = "state table full"
						}
						for k, v := range r.Outcomes {
							outcomes[k] += v
						}
						fs.list = append(fs.list, r.Faults...)
						if len(fs.list) > 200 {
							stop = true
						}
						if !sc.Races {
							for _, x := range r.Races {
								for _, s := range []int32{x.A, x.B} {
									if !racy[s] {
										racy[s] = true
										again = true
									}
								}
							}
						}
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			if len(fs.list) > 0 || stop {
				break
			}
			if rep.Capped == "" {
				rep.Completed = d
			}
			if again && round < 5 {
				break
			}
			again = false
			// canonical order keeps a capped exploration deterministic
			sort.Slice(next, func(a, b int) bool { return lessDevs(next[a], next[b]) })
			level = next
		}
		if again && len(fs.list) == 0 && rep.Capped == "" && round < 5 {
			continue
		}
		rep.Outcomes = len(outcomes)
		var ks []string
		for k := range outcomes {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool {
			if outcomes[ks[i]] != outcomes[ks[j]] {
				return outcomes[ks[i]] > outcomes[ks[j]]
			}
			return ks[i] < ks[j]
		})
		for i, k := range ks {
			if i < 5 {
				rep.Example = append(rep.Example, fmt.Sprintf("%dx %s", outcomes[k], k))
			}
		}
		rep.Wall = time.Since(t0).Seconds()
		fs.sample = level
		return rep, fs
	}
}

// roots are the executions without a deviation.
func roots(sc *Scenario) (out [][]Dev) {
	if sc.Parts == 0 {
		return [][]Dev{nil}
	}
	for i := 0; i < sc.Parts; i++ {
		out = append(out, []Dev{{-1, int32(i)}})
	}
	return out
}

func lessDevs(a, b []Dev) bool {
	// breadth-first over positions: sort by hash to spread a capped level evenly
	ha, hb := devHash(a), devHash(b)
	if ha != hb {
		return ha < hb
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

func devHash(a []Dev) uint64 {
	h := uint64(7)
	for _, d := range a {
		h = mix(h, uint64(d.Pos)<<16|uint64(d.Alt))
	}
	return h
}

func digest(w *World) uint64 {
	h := fnv.New64a()
	for _, l := range w.Log {
		io.WriteString(h, stripPtr(l))
	}
	return h.Sum64()
}

// stripPtr removes addresses.
func stripPtr(s string) string {
	i := strings.Index(s, "0x")
	if i < 0 {
		return s
	}
	var b strings.Builder
	for {
		b.WriteString(s[:i])
		b.WriteString("PTR")
		for i += 2; i < len(s) && (s[i] >= '0' && s[i] <= '9' || s[i] >= 'a' && s[i] <= 'f'); i++ {
		}
		s = s[i:]
		if i = strings.Index(s, "0x"); i < 0 {
			b.WriteString(s)
			return b.String()
		}
	}
}

// validate replays some recorded schedules twice and compares everything observed.
func (m *master) validate(si int, sc *Scenario, fs *faults) int64 {
	var n int64
	nodes := roots(sc)[:1]
	if k := len(fs.sample); k > 0 {
		nodes = append(nodes, fs.sample[0], fs.sample[k/2])
	}
	var wg sync.WaitGroup
	same := make([]int, len(nodes))
	for i, nd := range nodes {
		i, nd := i, nd
		wg.Add(1)
		go func() {
			defer wg.Done()
			var a isoResult
			var ok1 bool
			first := make(chan bool)
			go func() {
				a, ok1 = m.isolated(si, nd, fs.racy)
				close(first)
			}()
			b, ok2 := m.isolated(si, nd, fs.racy)
			<-first
			if ok1 && ok2 && a.Digest == b.Digest {
				same[i] = 1
			} else if ok1 && ok2 {
				same[i] = -1
			}
		}()
	}
	wg.Wait()
	for i, k := range same {
		if k > 0 {
			n++
		} else if k < 0 {
			fmt.Printf("warning: schedule %v of %s does not replay identically\n", nodes[i], sc.Name)
		}
	}
	return n
}

type isoResult struct {
	Faults []string
	Reason string
	Log    []string
	Digest uint64
}

// isolated runs one schedule in a fresh process.
func (m *master) isolated(si int, nd []Dev, racy []int32) (isoResult, bool) {
	var r isoResult
	exe, _ := os.Executable()
	arg, _ := json.Marshal(map[string]interface{}{"sc": si, "devs": nd, "racy": racy})
	c := exec.Command(exe)
	c.Env = append(os.Environ(), "ZZONE="+string(arg))
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	t := &tail{}
	c.Stderr = t
	pr, pw, _ := os.Pipe()
	pf := memfile(m.dir, "prog", 4096)
	c.ExtraFiles = []*os.File{pw, pf}
	if err := c.Start(); err != nil {
		return r, false
	}
	pw.Close()
	pb := mmap(pf, 4096)
	pf.Close()
	step := (*int64)(unsafe.Pointer(&pb[8]))
	defer syscall.Munmap(pb)
	done := make(chan error, 1)
	go func() {
		done <- gob.NewDecoder(bufio.NewReader(pr)).Decode(&r)
	}()
	last, since, cpu := int64(-1), time.Now(), int64(0)
wait:
	for {
		select {
		case err := <-done:
			c.Process.Kill()
			c.Wait()
			if err != nil {
				msg := firstLines(string(t.b))
				r.Reason = "died"
				if !strings.Contains(msg, "all goroutines are asleep") {
					r.Faults = []string{"crash: the process died: " + msg}
				}
			}
			break wait
		case <-time.After(time.Second):
			if v := atomic.LoadInt64(step); v != last {
				last, since, cpu = v, time.Now(), cpuTicks(c.Process.Pid)
			} else if time.Since(since) > hangAfter {
				spins := cpuTicks(c.Process.Pid)-cpu > int64(hangAfter/time.Second)*100/3
				c.Process.Kill()
				c.Wait()
				r.Reason = "hang"
				if spins {
					r.Faults = []string{"hang: an execution never returns"}
				}
				break wait
			}
		}
	}
	pr.Close()
	return r, true
}

// One handles the isolated mode.
func One(scs []*Scenario) {
	s := os.Getenv("ZZONE")
	if s == "" {
		return
	}
	log.SetOutput(io.Discard)
	runtime.GOMAXPROCS(1)
	pb := mmap(os.NewFile(4, "prog"), 4096)
	stepWord = (*int64)(unsafe.Pointer(&pb[8]))
	var a struct {
		Sc   int
		Devs []Dev
		Racy []int32
	}
	json.Unmarshal([]byte(s), &a)
	sc := scs[a.Sc]
	ex := &Explorer{racy: map[int32]bool{}, MapRaceOK: sc.Races}
	for _, x := range a.Racy {
		ex.racy[x] = true
	}
	w := ex.run(sc, a.Devs, true, false)
	r := isoResult{Faults: w.Faults, Reason: w.reason, Log: w.Log, Digest: digest(w)}
	if w.reason == "quiescent" {
		for _, l := range w.Live() {
			r.Log = append(r.Log, "still blocked at the end: "+l)
		}
	}
	gob.NewEncoder(os.NewFile(3, "out")).Encode(&r)
	os.Exit(0)
}

// confirm re-runs a violating schedule five times; it counts if it fails at least 3 times.
func (m *master) confirm(si int, sc *Scenario, f fault, racy []int32) (bool, string, []string) {
	n := 0
	msg := ""
	var tr []string
	for i := 0; i < 5; i++ {
		r, ok := m.isolated(si, f.Node, racy)
		if !ok {
			continue
		}
		for _, x := range r.Faults {
			if kindOf(x) == kindOf(f.Msg) || (strings.HasPrefix(x, "crash: ") && strings.HasPrefix(f.Msg, "crash: ")) {
				n++
				msg = x
				tr = r.Log
				break
			}
		}
		if n >= 3 || i-n >= 2 {
			break
		}
	}
	return n >= 3, msg, tr
}

type replayFile struct {
	Property string
	Scenario string
	Fault    string
	Devs     []Dev
	Racy     []int32
	Trace    []string
}

func writeReplay(dir, prop, sc string, nd []Dev, racy []int32, msg string, tr []string) string {
	if dir == "" {
		dir = os.TempDir()
	}
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", prop, strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, sc)))
	b, _ := json.MarshalIndent(replayFile{prop, sc, msg, nd, racy, tr}, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func doReplay(scs []*Scenario, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var rf replayFile
	json.Unmarshal(b, &rf)
	for si, sc := range scs {
		if sc.Name == rf.Scenario {
			m := &master{scs: scs}
			r, _ := m.isolated(si, rf.Devs, rf.Racy)
			for _, l := range r.Log {
				fmt.Println(l)
			}
			fmt.Println("end:", r.Reason)
			for _, f := range r.Faults {
				fmt.Println("FAULT", f)
			}
			if len(r.Faults) > 0 {
				os.Exit(1)
			}
			os.Exit(0)
		}
	}
	fmt.Println("no such scenario")
	os.Exit(2)
}

type knownFinding struct{ sc, sub, text string }

// loadKnown reads lines `known: property=ID scenario=NAME match=SUBSTRING | text`.
func loadKnown(path, prop string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		head, text := l, l
		if i := strings.Index(l, " | "); i > 0 {
			head, text = l[:i], l[i+3:]
		}
		var k knownFinding
		k.text = text
		if i := strings.Index(head, "scenario="); i > 0 {
			k.sc = strings.Fields(head[i+9:])[0]
		}
		if i := strings.Index(head, "match="); i > 0 {
			k.sub = head[i+6:]
		}
		out = append(out, k)
	}
	return out
}

func matchKnown(ks []knownFinding, sc, msg string) string {
	for _, k := range ks {
		if (k.sc == "" || k.sc == sc) && k.sub != "" && strings.Contains(msg, k.sub) {
			return k.text
		}
	}
	return ""
}
