// C16: generated proxies compile and forward every call faithfully.
package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"zzplain/pk"
)

//go:embed driver.txt
var driver string

var types = []string{"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string",
	"byte", "rune", "interface{}", "[]int", "[]string", "[]byte", "[]interface{}", "[]float64", "[][]int", "map[string]int", "map[int]string",
	"map[string]interface{}", "map[interface{}]interface{}", "map[string][]int", "[]map[string]int"}

// method is one method of an interface: its source and what it takes and returns.
type method struct {
	Name    string
	Params  []string
	Results []string
	src     string
}

type iface struct {
	Name    string
	Methods []method
}

// program is a set of files and the interfaces they declare.
type program struct {
	desc   string
	files  map[string]string
	ifaces []iface
	before func(dir string) // run in the directory before the generator
	twice  bool             // the generator is run twice
}

func sig(params, results string) string {
	if results == "" {
		return "(" + params + ")"
	}
	return "(" + params + ") " + results
}

// plain renders types with names p.e. a0, a1.
func plain(prefix string, ts []string) string {
	var l []string
	for i, t := range ts {
		if prefix == "" {
			l = append(l, t)
		} else {
			l = append(l, fmt.Sprintf("%s%d %s", prefix, i, t))
		}
	}
	return strings.Join(l, ", ")
}

func results(ts []string) string {
	switch len(ts) {
	case 0:
		return ""
	case 1:
		return ts[0]
	}
	return "(" + plain("", ts) + ")"
}

func mk(params, res []string) method {
	return method{Params: params, Results: res, src: sig(plain("a", params), results(res))}
}

// compositions calls f with every way to group n things.
func compositions(n int, f func([]int)) {
	if n == 0 {
		f(nil)
		return
	}
	var rec func(left int, acc []int)
	rec = func(left int, acc []int) {
		if left == 0 {
			f(acc)
			return
		}
		for k := 1; k <= left; k++ {
			rec(left-k, append(acc[:len(acc):len(acc)], k))
		}
	}
	rec(n, nil)
}

func grouped(prefix string, groups []int, ts []string) (src string, flat []string) {
	var l []string
	n := 0
	for i, g := range groups {
		var names []string
		for k := 0; k < g; k++ {
			names = append(names, fmt.Sprintf("%s%d", prefix, n))
			flat = append(flat, ts[i%len(ts)])
			n++
		}
		l = append(l, strings.Join(names, ", ")+" "+ts[i%len(ts)])
	}
	return strings.Join(l, ", "), flat
}

func interfaceSrc(name string, ms []method) string {
	var b strings.Builder
	fmt.Fprintf(&b, "type %s interface {\n", name)
	for _, m := range ms {
		fmt.Fprintf(&b, "\t%s%s\n", m.Name, m.src)
	}
	b.WriteString("}\n")
	return b.String()
}

// chunks makes programs of single methods, a hundred to an interface, three interfaces to a program.
func chunks(desc string, ms []method) []program {
	var out []program
	const per, ifs = 60, 3
	for from := 0; from < len(ms); from += per * ifs {
		p := program{desc: fmt.Sprintf("%s, methods %d..", desc, from), files: map[string]string{}}
		src := "package main\n\n"
		for k := 0; k < ifs; k++ {
			var part []method
			for i := from + k*per; i < from+(k+1)*per && i < len(ms); i++ {
				m := ms[i]
				m.Name = fmt.Sprintf("M%d", i)
				part = append(part, m)
			}
			if len(part) == 0 {
				continue
			}
			n := fmt.Sprintf("IChunk%d", k)
			src += interfaceSrc(n, part) + "\n"
			p.ifaces = append(p.ifaces, iface{n, part})
		}
		p.files["feature.go"] = src
		out = append(out, p)
	}
	return out
}

func params2() []program {
	var ms []method
	ms = append(ms, mk(nil, nil))
	for _, a := range types {
		ms = append(ms, mk([]string{a}, nil))
		for _, b := range types {
			ms = append(ms, mk([]string{a, b}, nil))
		}
	}
	return chunks("all parameter lists of up to 2", ms)
}

func results2() []program {
	var ms []method
	for _, a := range types {
		ms = append(ms, mk(nil, []string{a}))
		for _, b := range types {
			ms = append(ms, mk(nil, []string{a, b}))
		}
	}
	return chunks("all result lists of up to 2", ms)
}

func oneone() []program {
	var ms []method
	for _, a := range types {
		for _, b := range types {
			ms = append(ms, mk([]string{a}, []string{b}))
		}
	}
	return chunks("every parameter and result", ms)
}

func triples(few []string) []program {
	var ms []method
	for _, a := range few {
		for _, b := range few {
			for _, c := range few {
				ms = append(ms, mk([]string{a, b, c}, nil), mk(nil, []string{a, b, c}), mk([]string{a, b}, []string{b, c, a}))
			}
		}
	}
	return chunks("three out of "+strings.Join(few, " "), ms)
}

func groupings(max int) []program {
	var ms []method
	ts := []string{"int", "string", "[]int", "map[string]int", "float64", "interface{}"}
	for n := 0; n <= max; n++ {
		compositions(n, func(g []int) {
			src, flat := grouped("a", g, ts)
			ms = append(ms, method{Params: flat, src: sig(src, "")})
			if n == 0 {
				return
			}
			r, rf := grouped("r", g, ts)
			ms = append(ms, method{Results: rf, src: sig("", "("+r+")")})
			ms = append(ms, method{Params: flat, Results: rf, src: sig(src, "("+r+")")})
			ms = append(ms, method{Params: flat, Results: rf, src: sig(plain("", flat), results(rf))}) // unnamed
		})
	}
	// parameters and results grouped independently
	for n := 1; n <= 3; n++ {
		for k := 1; k <= 3; k++ {
			compositions(n, func(g []int) {
				compositions(k, func(h []int) {
					src, flat := grouped("a", g, ts)
					r, rf := grouped("r", h, ts)
					ms = append(ms, method{Params: flat, Results: rf, src: sig(src, "("+r+")")})
				})
			})
		}
	}
	// many
	for _, n := range []int{6, 7, 8, 9, 10, 12, 16} {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, ts[i%len(ts)])
		}
		ms = append(ms, mk(l, nil), mk(nil, l), mk(l, l), method{Params: l, Results: l, src: sig(plain("", l), results(l))})
	}
	return chunks("every grouping and naming style", ms)
}

func naming() []program {
	names := []string{"_", "p", "results", "err", "ferry", "slot", "string", "int", "len", "nil", "true", "false", "iota", "arg0", "arg1", "result",
		"append", "new", "make", "reflect", "fmt", "log", "i", "error", "main", "init", "x", "A", "bool", "interface_", "proxy", "chancall", "args", "ok", "ret", "name", "method", "日本"}
	var ms []method
	ts := [][2]string{{"int", "string"}, {"string", "int"}, {"[]int", "bool"}}
	for i, a := range names {
		for j, b := range names {
			if a == b && a != "_" {
				continue
			}
			t := ts[(i+j)%len(ts)]
			res := [][]string{nil, {"int"}, {"string", "[]int"}}[(i*3+j)%3]
			if (i+j)%2 == 0 {
				ms = append(ms, method{Params: []string{t[0], t[1]}, Results: res, src: sig(fmt.Sprintf("%s %s, %s %s", a, t[0], b, t[1]), results(res))})
			} else {
				ms = append(ms, method{Params: []string{t[0], t[0]}, Results: res, src: sig(fmt.Sprintf("%s, %s %s", a, b, t[0]), results(res))})
			}
		}
	}
	// names of results, alone and like the parameters' neighbours
	for _, a := range names {
		ms = append(ms, method{Results: []string{"int"}, src: sig("", fmt.Sprintf("(%s int)", a))})
		ms = append(ms, method{Params: []string{"string"}, Results: []string{"int", "[]string"}, src: sig("q string", fmt.Sprintf("(%s int, z []string)", a))})
		ms = append(ms, method{Params: []string{"int"}, Results: []string{"int"}, src: sig(a+" int", "(z int)")})
		ms = append(ms, method{Params: []string{"map[string]int"}, src: sig(a+" map[string]int", "")})
	}
	return chunks("all pairs of names", ms)
}

// layouts: every combination of ways to lay declarations out over files.
func layouts(all bool) []program {
	type feature struct {
		name string
		add  func(p *program)
	}
	simple := func(name string) iface {
		return iface{name, []method{
			{Name: "Do", Params: []string{"int", "string"}, Results: []string{"[]int"}, src: "(a int, b string) []int"},
			{Name: "Notify", Params: []string{"bool"}, src: "(on bool)"},
			{Name: "Get", Results: []string{"float64"}, src: "() float64"},
		}}
	}
	add := func(p *program, file, src string, is ...iface) {
		if p.files[file] == "" {
			pkg := "main"
			if d := filepath.Dir(file); d != "." {
				pkg = filepath.Base(d)
			}
			p.files[file] = "package " + pkg + "\n\n"
		}
		p.files[file] += src + "\n"
		for _, i := range is {
			if len(strings.Split(file, "/")) > 1 {
				i.Name = "-" + i.Name // not a name of package main
			}
			p.ifaces = append(p.ifaces, i)
		}
	}
	fs := []feature{
		{"one interface", func(p *program) { i := simple("IOne"); add(p, "one.go", interfaceSrc(i.Name, i.Methods), i) }},
		{"a group of types", func(p *program) {
			i, j := simple("IGroupA"), simple("IGroupB")
			body := func(i iface) string { return strings.TrimPrefix(interfaceSrc(i.Name, i.Methods), "type ") }
			add(p, "group.go", "type (\n"+body(i)+"\n\tplainT struct{ X int }\n\n"+body(j)+")\n", i, j)
		}},
		{"a second file", func(p *program) {
			i, j := simple("ISecond"), simple("IThird")
			add(p, "second.go", interfaceSrc(i.Name, i.Methods)+interfaceSrc(j.Name, j.Methods), i, j)
		}},
		{"a subdirectory", func(p *program) {
			i := simple("ISub")
			add(p, "sub/login.go", interfaceSrc(i.Name, i.Methods), i)
			add(p, "sub/deeper/more.go", interfaceSrc("IDeeper", i.Methods), iface{"IDeeper", i.Methods})
		}},
		{"an empty interface", func(p *program) { add(p, "empty.go", "type IEmpty interface {\n}\n", iface{"IEmpty", nil}) }},
		{"other declarations", func(p *program) {
			i := simple("IMixed")
			add(p, "mixed.go", "// IMixed does things.\n//go:noinline\nconst answer = 42\n\nvar table = map[string]int{\"type\": 1}\n\ntype record struct {\n\tA interface{}\n\tF func(x interface{}) interface{}\n}\n\n"+
				"type callback func(a, b int) string\n\ntype list []record\n\ntype alias = int\n\n"+
				"func (r *record) Do(a int, b string) []int { var x interface{} = a; _ = x; return nil }\n\nfunc helper() { type local struct{ a int }; _ = local{} }\n\n"+
				"/* a comment */\n"+interfaceSrc(i.Name, i.Methods)+"\nfunc unused(v interface{}) {}\n", i)
		}},
		{"comments and layout within", func(p *program) {
			add(p, "comments.go", "type IComment interface {\n\t// Do does.\n\tDo(a int, // first\n\t\tb string, /* second */\n\t) []int // result\n\n\t/* Notify */ Notify(on bool); Get() (float64)\n}\n", simple("IComment"))
		}},
		{"a stale generated file", func(p *program) {
			p.before = func(dir string) {
				os.WriteFile(filepath.Join(dir, "proxy.gen.go"), []byte("package main\n\ntype igoneproxy struct{}\n\ntype IGone interface { Gone(x undefinedT) }\n"), 0o644)
			}
		}},
		{"run twice", func(p *program) { p.twice = true }},
		{"files that are not Go", func(p *program) {
			p.files["notes.txt"] = "type INote interface { X( }\n"
			p.files["go.txt"] = "package"
			p.files["data.json"] = "{}"
		}},
	}
	var out []program
	for set := 0; set < 1<<len(fs); set++ {
		n := 0
		for i := range fs {
			if set>>i&1 != 0 {
				n++
			}
		}
		if !all && n > 3 && n < len(fs) {
			continue
		}
		p := program{desc: "layout:", files: map[string]string{}}
		for i, f := range fs {
			if set>>i&1 != 0 {
				p.desc += " " + f.name + ","
				f.add(&p)
			}
		}
		if len(p.ifaces) == 0 {
			continue
		}
		out = append(out, p)
	}
	return out
}

// places: interfaces in files and directories of all kinds of names, and large programs.
func places() []program {
	ms := func(i int) []method {
		m, k := mk([]string{"int", "string"}, []string{types[i%len(types)]}), mk(nil, nil)
		m.Name, k.Name = "Do", "Notify"
		return []method{m, k}
	}
	p := program{desc: "names of files", files: map[string]string{}}
	for i, f := range []string{"proxy.go", "myproxy.go", "proxygen.go", "gen.go", "a.gen.go", "ferry.go", "tool.go", "types.go", "API.go", "a-b.go", "a.b.go",
		"interface.go", "hub.go", "x1.go", "init.go", "generated.go", "test.go", "api_types.go", "z.go"} {
		name := fmt.Sprint("IFile", i)
		p.files[f] = "package main\n\n" + interfaceSrc(name, ms(i))
		p.ifaces = append(p.ifaces, iface{name, ms(i)})
	}
	q := program{desc: "names of directories", files: map[string]string{"one.go": "package main\n\n" + interfaceSrc("IRoot", ms(0))}, ifaces: []iface{{"IRoot", ms(0)}}}
	for i, d := range []string{"tool", "test", "tests", "internal", "features", "src", "pkg", "common", "proxy", "proxies", "gen", "api", "a/b/c/d/e", "go", "x.go", "x-y", "UPPER", "main", "lib", "examples"} {
		name := fmt.Sprint("IDir", i)
		q.files[d+"/f.go"] = "package some\n\n" + interfaceSrc(name, ms(i))
		q.ifaces = append(q.ifaces, iface{"-" + name, ms(i)})
	}
	r := program{desc: "many files", files: map[string]string{}}
	for i := 0; i < 120; i++ {
		name := fmt.Sprint("IMany", i)
		r.files[fmt.Sprintf("f%d.go", i)] = "package main\n\n" + interfaceSrc(name, ms(i))
		r.ifaces = append(r.ifaces, iface{name, ms(i)})
	}
	l := program{desc: "a large interface", files: map[string]string{}}
	var all []method
	for i := 0; i < 150; i++ {
		m := mk([]string{types[i%len(types)], types[i/2%len(types)]}, []string{types[i/3%len(types)]})
		m.Name = fmt.Sprint("M", i)
		all = append(all, m)
	}
	wide := mk(repeat("int", 40), repeat("string", 30))
	wide.Name = "Wide"
	all = append(all, wide)
	l.files["large.go"] = "package main\n\n" + interfaceSrc("ILarge", all)
	l.ifaces = []iface{{"ILarge", all}}
	return []program{p, q, r, l}
}

func repeat(s string, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, s)
	}
	return out
}

// shapes: interfaces of 0..4 methods, programs of 1..5 interfaces; the same method names everywhere.
func shapes() []program {
	names := []string{"Alpha", "Beta", "Get", "Call", "Slot", "CallWithResult", "String", "Do"}
	var out []program
	for k := 1; k <= 5; k++ {
		for n := 0; n <= 4; n++ {
			p := program{desc: fmt.Sprintf("%d interfaces of %d.. methods", k, n), files: map[string]string{}}
			src := "package main\n\n"
			for i := 0; i < k; i++ {
				var ms []method
				for j := 0; j < n+i%2; j++ {
					m := mk([]string{types[(i*7+j*3)%len(types)]}, []string{types[(i*5+j*11)%len(types)]})
					m.Name = names[(i+j)%len(names)]
					ms = append(ms, m)
				}
				name := []string{"IAccount", "I", "IAccountExtra", "Player", "IX_1"}[i]
				src += interfaceSrc(name, ms)
				p.ifaces = append(p.ifaces, iface{name, ms})
			}
			p.files["all.go"] = src
			out = append(out, p)
		}
	}
	return out
}

// methodNames: interfaces of all pairs of method names, many to a program, and of all of them.
func methodNames() []program {
	names := []string{"Get", "GET", "GetId", "GetID", "Getid", "GetI", "G", "GetX", "Call", "CallWithResult", "Visit", "SetTimeout", "Slot", "String", "Error",
		"P", "Results", "Err", "Ferry", "Init", "Main", "Convert", "M1", "M10", "M_1", "OnStart", "Über", "Register", "Proxy"}
	var is []iface
	add := func(l ...string) {
		var ms []method
		for k, n := range l {
			m := mk([]string{types[(len(is)+k*5)%len(types)]}, []string{types[(len(is)*3+k*7)%len(types)]})
			m.Name = n
			ms = append(ms, m)
		}
		is = append(is, iface{fmt.Sprintf("IN%d", len(is)), ms})
	}
	add(names...)
	for i, a := range names {
		for _, b := range names[i+1:] {
			add(a, b)
			add(b, a)
		}
	}
	var out []program
	for from := 0; from < len(is); from += 120 {
		p := program{desc: fmt.Sprintf("pairs of method names, interfaces %d..", from), files: map[string]string{}}
		src := "package main\n\n"
		for i := from; i < from+120 && i < len(is); i++ {
			src += interfaceSrc(is[i].Name, is[i].Methods)
			p.ifaces = append(p.ifaces, is[i])
		}
		p.files["all.go"] = src
		out = append(out, p)
	}
	return out
}

// ifaceNames: all pairs of interface names, in both orders, and all of them together.
func ifaceNames() []program {
	names := []string{"I", "IA", "IAB", "A", "Proxy", "IProxy", "IProxyProxy", "Slot", "Ferry", "Feature", "thing", "I_", "I_1", "I1", "I10", "Init", "Main",
		"String", "Reflect", "日本I", "IÜber", "P", "Results", "IAproxy_"}
	prog := func(l ...string) program {
		p := program{desc: "interfaces " + strings.Join(l, ", "), files: map[string]string{}}
		src := "package main\n\n"
		for k, n := range l {
			m := mk([]string{types[k%len(types)]}, []string{types[(k+3)%len(types)]})
			m.Name = "Do"
			src += interfaceSrc(n, []method{m})
			p.ifaces = append(p.ifaces, iface{n, []method{m}})
		}
		p.files["all.go"] = src
		return p
	}
	out := []program{prog(names...)}
	for i := range names {
		// every name first once, and every name last once
		out = append(out, prog(append(append([]string{}, names[i:]...), names[:i]...)...))
	}
	return out
}

func run(t *pk.T, ps []program) {
	for i := range ps {
		p := ps[i]
		if !t.Case(func() string { return p.desc }) {
			continue
		}
		check(t, p)
	}
}

func check(t *pk.T, p program) {
	dir, err := os.MkdirTemp(os.Getenv("FERRY_WORK"), "gen")
	if err != nil {
		t.Count("not checked", 1)
		return
	}
	defer os.RemoveAll(dir)
	write := func(name, text string) {
		f := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(f), 0o755)
		os.WriteFile(f, []byte(text), 0o644)
	}
	for f, s := range p.files {
		write(f, s)
	}
	if p.before != nil {
		p.before(dir)
	}
	exe := func(name string, args ...string) (string, error) {
		c := exec.Command(name, args...)
		c.Dir = dir
		c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
		done := make(chan struct{})
		go func() {
			for {
				select {
				case <-done:
					return
				case <-time.After(5 * time.Second):
					t.Alive()
				}
			}
		}()
		timer := time.AfterFunc(200*time.Second, func() { c.Process.Kill() })
		out, err := c.CombinedOutput()
		timer.Stop()
		close(done)
		return string(out), err
	}
	runs := 1
	if p.twice {
		runs = 2
	}
	for i := 0; i < runs; i++ {
		t.Step(1)
		if out, err := exe(os.Getenv("FERRY_TOOL")); err != nil {
			t.Fail("generator", "the generator failed: %v: %s", err, tail(out))
			return
		}
	}
	gen, err := os.ReadFile(filepath.Join(dir, "proxy.gen.go"))
	if err != nil {
		t.Fail("nothing", "nothing was generated: %v", err)
		return
	}
	write("go.mod", "module zzgen\n\ngo 1.18\n\nrequire github.com/muguangyi/ferry v0.0.0\n\nreplace github.com/muguangyi/ferry => "+os.Getenv("FERRY_REPO")+"\n")
	// the driver: which interfaces there are, and the Go types they mention
	table, _ := json.Marshal(p.ifaces)
	var kinds, impl strings.Builder
	for _, tp := range types {
		fmt.Fprintf(&kinds, "\t%q: reflect.TypeOf((*%s)(nil)).Elem(),\n", tp, tp)
	}
	for _, i := range p.ifaces {
		if !strings.HasPrefix(i.Name, "-") {
			fmt.Fprintf(&impl, "\t%q: func(v interface{}) bool { _, ok := v.(%s); return ok },\n", i.Name, i.Name)
		}
	}
	write("zzmain.go", strings.NewReplacer("//TYPES", kinds.String(), "//IMPL", impl.String(), "TABLE", fmt.Sprintf("%q", table)).Replace(driver))
	var out string
	for try := 0; ; try++ {
		out, err = exe("go", "build", "-gcflags=-N -l", "-ldflags=-s -w", "-o", "zzprog", ".")
		if err == nil {
			break
		}
		if strings.Contains(out, "proxy.gen.go") {
			t.Fail("compile", "the generated code does not compile: %s\n%s", tail(out), context(string(gen), out))
			return
		}
		if try == 1 {
			fmt.Fprintln(os.Stderr, "not checked:", tail(out))
			t.Count("not checked", 1)
			return
		}
	}
	out, err = exe("./zzprog")
	var res struct {
		Methods, Calls int
		Unbound        bool
		Fails          []string
	}
	if k := strings.Index(out, "RESULT "); k < 0 || json.Unmarshal([]byte(strings.SplitN(out[k+7:], "\n", 2)[0]), &res) != nil {
		t.Fail("crash", "the program using the proxies failed: %v %s", err, tail(out))
		return
	}
	if res.Unbound {
		t.Count("not checked", 1)
		return
	}
	t.Step(res.Calls)
	t.Trace(res.Calls)
	t.Count("methods", int64(res.Methods))
	for i := 0; i < res.Methods; i++ {
		t.State()
	}
	t.State()
	for _, f := range res.Fails {
		k := f
		if i := strings.IndexByte(f, ':'); i > 0 {
			k = f[:i]
		}
		t.Fail(k, "%s", f)
	}
}

func tail(s string) string {
	if len(s) > 700 {
		s = s[:700]
	}
	return strings.TrimSpace(s)
}

// context shows the generated line of the first error.
func context(gen, out string) string {
	var line int
	if i := strings.Index(out, "proxy.gen.go:"); i >= 0 {
		fmt.Sscanf(out[i+len("proxy.gen.go:"):], "%d", &line)
	}
	l := strings.Split(gen, "\n")
	if line > 0 && line <= len(l) {
		return l[line-1]
	}
	return ""
}

func main() {
	if os.Getenv("ZZCHILD") == "" {
		bin := filepath.Join(os.Getenv("FERRY_WORK"), "ferrytool")
		c := exec.Command("go", "build", "-o", bin, "./tool")
		c.Dir = os.Getenv("FERRY_REPO")
		c.Env = append(os.Environ(), "GOWORK=off")
		if out, err := c.CombinedOutput(); err != nil {
			fmt.Printf("no verdict: the generator does not build: %s\n", out)
			os.Setenv("FERRY_TOOL", "")
			pk.Main("C16", nil, "no verdict: the generator does not build", nil)
			return
		}
		os.Setenv("FERRY_TOOL", bin)
	}
	few := []string{"int", "string", "[]string", "map[string]int", "interface{}"}
	more := []string{"bool", "int8", "int64", "uint16", "float32", "string", "[]byte", "[][]int", "map[interface{}]interface{}", "interface{}"}
	sc := func(name, bound, deep string, f func(t *pk.T) []program) *pk.Scenario {
		return &pk.Scenario{Name: name, Bound: bound, Deep: deep, Memory: 200 << 30, CaseTime: 240 * time.Second, Run: func(t *pk.T) { run(t, f(t)) }}
	}
	fixed := func(ps []program) func(t *pk.T) []program { return func(*pk.T) []program { return ps } }
	pk.Main("C16", []*pk.Scenario{
		sc("groupings", "every way to group up to 6 parameters and results, named, grouped and unnamed", "up to 8", func(t *pk.T) []program {
			if t.Thorough {
				return groupings(8)
			}
			return groupings(6)
		}),
		sc("names", "all pairs of parameter names out of 38", "", fixed(naming())),
		sc("params", fmt.Sprintf("all parameter lists of up to 2 of %d types", len(types)), "", fixed(params2())),
		sc("results", fmt.Sprintf("all result lists of up to 2 of %d types", len(types)), "", fixed(results2())),
		sc("params-results", fmt.Sprintf("every parameter and result of %d types", len(types)), "", fixed(oneone())),
		sc("triples", "all lists of 3 of 5 types", "of 10 types", func(t *pk.T) []program {
			if t.Thorough {
				return triples(more)
			}
			return triples(few)
		}),
		sc("method-names", "all ordered pairs of 29 method names, many differing in case or length only", "", fixed(methodNames())),
		sc("interface-names", "24 interface names declared in every rotation", "", fixed(ifaceNames())),
		sc("shapes", "programs of 1..5 interfaces of 0..5 methods sharing names", "", fixed(shapes())),
		sc("places", "39 names of files and directories, 120 files, 151 methods, 40 parameters", "", fixed(places())),
		sc("layouts", "all sets of up to 3 of 10 ways to lay declarations out, and all at once", "all combinations", func(t *pk.T) []program { return layouts(t.Thorough) }),
	}, "each state is one method shape or program: the real generator was run on it, its output compiled against the real library, and every proxy method "+
		"called with several argument vectors against a recording slot that answers in every numeric representation and fails; calls are counted as transitions",
		[]string{"interfaces of package main's directory tree, no embedded interfaces, variadic parameters or named types"})
}
