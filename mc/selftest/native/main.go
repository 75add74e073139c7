// native: runs the programs on the Go runtime; what it does has to be among the outcomes allowed.
package main

import (
	"bufio"
	"flag"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/muguangyi/ferry/litmus"
)

func main() {
	runs := flag.Int("runs", 3, "times each program is run")
	flag.Parse()
	litmus.Unit = 20 * time.Millisecond
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<20)
	lines := make(chan string)
	var wg sync.WaitGroup
	var mu sync.Mutex
	n, saw, all, bad := 0, 0, 0, 0
	for k := 0; k < 400; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for l := range lines {
				f := strings.Split(l, "\t")
				want := map[string]bool{}
				for _, o := range f[1:] {
					want[o] = true
				}
				seen := map[string]bool{}
				for r := 0; r < *runs; r++ {
					s := litmus.New(strings.Split(f[0], ","))
					d := 60 * time.Millisecond
					if strings.ContainsAny(f[0], "zZTAQ") {
						d = 300 * time.Millisecond
					}
					time.Sleep(d)
					seen[s.Outcome()] = true
				}
				mu.Lock()
				n++
				all += len(want)
				for o := range seen {
					if want[o] {
						saw++
					} else if bad++; bad < 20 {
						fmt.Printf("%s: Go did %q, allowed %q\n", f[0], o, f[1:])
					}
				}
				mu.Unlock()
			}
		}()
	}
	for in.Scan() {
		if strings.Contains(in.Text(), "+") {
			continue // races
		}
		lines <- in.Text()
	}
	close(lines)
	wg.Wait()
	fmt.Printf("Go runtime: %d programs, %d of %d outcomes seen, not allowed: %d\n", n, saw, all, bad)
}
