// selftest: the outcomes the engine finds for small programs against those of the reference model.
package main

import (
	"bufio"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/muguangyi/ferry/litmus"
	"github.com/muguangyi/ferry/ref"
	"github.com/muguangyi/ferry/zzvs"
)

func main() {
	bound := flag.Int("bound", 6, "deviations")
	list := flag.String("list", "", "write the outcomes allowed here")
	flag.Parse()
	var out *bufio.Writer
	if *list != "" {
		f, _ := os.Create(*list)
		out = bufio.NewWriter(f)
		defer out.Flush()
	}
	in := bufio.NewScanner(os.Stdin)
	n, execs, states, outs, bad, less := 0, 0, 0, 0, 0, 0
	for in.Scan() {
		progs := strings.Split(in.Text(), ",")
		want, st := ref.Outcomes(progs)
		if want["panic fatal"] {
			continue // the process dies
		}
		sc := &zzvs.Scenario{Name: in.Text(), New: func() (func(), func(w *zzvs.World)) {
			var s *litmus.S
			return func() { s = litmus.New(progs) }, func(w *zzvs.World) { w.Outcome = s.Outcome() }
		}}
		got, ex := zzvs.Outcomes(sc, *bound)
		n++
		execs += ex
		states += st
		outs += len(want)
		var extra, miss []string
		for o := range got {
			if !want[o] {
				extra = append(extra, o)
			}
		}
		for o := range want {
			if got[o] == 0 {
				miss = append(miss, o)
			}
		}
		sort.Strings(extra)
		sort.Strings(miss)
		if extra != nil {
			bad++
			if bad < 40 {
				fmt.Printf("%s: not allowed: %q\n", in.Text(), extra)
			}
		}
		if miss != nil {
			less++
			if less < 40 {
				fmt.Printf("%s: not found: %q of %d\n", in.Text(), miss, len(want))
			}
		}
		if out != nil {
			fmt.Fprintf(out, "%s", in.Text())
			for o := range want {
				fmt.Fprintf(out, "\t%s", o)
			}
			fmt.Fprintln(out)
		}
	}
	fmt.Printf("%d programs, %d executions, %d states of the reference, %d outcomes; with outcomes not allowed: %d, with outcomes not found: %d\n", n, execs, states, outs, bad, less)
	if out != nil {
		out.Flush()
	}
	if bad+less > 0 {
		os.Exit(1)
	}
}
