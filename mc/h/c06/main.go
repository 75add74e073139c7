// C06: the hub never assigns one port twice on a host, nor a blacklisted one.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/muguangyi/ferry"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

// check judges the ports docks listened on; n docks were started on each host.
func check(w *zzvs.World, black []int, n map[string]int) {
	bad := map[int]bool{}
	for _, b := range black {
		bad[b] = true
	}
	seen := map[string]bool{}
	count := map[string]int{}
	var out []string
	for _, l := range w.Net.Listens {
		if l.Port == HubPort || l.Port == HubPort+1 {
			continue
		}
		at := fmt.Sprintf("%s:%d", l.Host, l.Port)
		out = append(out, at)
		if seen[at] {
			zzvs.Fail("twice", "%s was assigned to two docks", at)
		}
		seen[at] = true
		if l.Port <= 20000 || l.Port > 49000 {
			zzvs.Fail("range", "%s was assigned", at)
		}
		if bad[l.Port] {
			zzvs.Fail("blacklisted", "%s was assigned", at)
		}
		count[l.Host]++
	}
	var hosts []string
	for h := range n {
		hosts = append(hosts, h)
	}
	sort.Strings(hosts)
	for _, h := range hosts {
		if count[h] != n[h] {
			zzvs.Fail("unassigned", "%d of %d docks on %s listen", count[h], n[h], h)
		}
	}
	sort.Strings(out)
	w.Outcome = strings.Join(out, " ")
}

// history: docks start on these hosts ("ABA"), in turn ("A,B") or at the same time ("AB"); "!A": the
// host A goes down (its docks are gone); "0" behind a host: a dock without features; "***,A,B": every
// sequence of three steps out of those that follow
func history(script string, black ...int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		n := map[string]int{}
		k := 0
		finished := false
		body := func() {
			Hub(black...)
			steps := strings.Split(script, ",")
			if len(steps) > 1 && strings.HasPrefix(script, "*") {
				// any of the steps, as often as there are stars
				any := steps[1:]
				steps = steps[0:0:0]
				for range strings.Split(script, ",")[0] {
					steps = append(steps, any[zzvs.Choose(len(any))])
				}
			}
			for _, step := range steps {
				if step[0] == '!' {
					zzvs.Down(host(step[1]))
					zzvs.Settle()
					continue
				}
				for i := 0; i < len(step); i++ {
					if step[i] == '0' {
						continue
					}
					h := host(step[i])
					n[h]++
					var ss []ferry.ISlot
					if i+1 == len(step) || step[i+1] != '0' {
						ss = append(ss, ferry.Carry(fmt.Sprint("F", k), &Feat{Id: fmt.Sprint("F", k)}, true))
						if k%2 == 1 {
							ss = append(ss, ferry.Carry("same", &Feat{Id: fmt.Sprint("same", k)}, true))
						}
					}
					Dock(h, fmt.Sprint("d", k), ss...)
					k++
				}
				zzvs.Settle()
			}
			finished = true
		}
		return body, func(w *zzvs.World) {
			if !finished {
				zzvs.Fail("stuck", "the docks were not started")
			}
			check(w, black, n)
		}
	}
}

// hosts whose names begin alike
func host(c byte) string {
	return []string{"10.0.0.2", "10.0.0.20", "10.0.0.200", "10.0.1.2", "10.0.0.21"}[c-'A']
}

// two hubs with lists of their own; docks of the one on hosts A and B, of the other on C and D
func twoHubs(a, b string, blackA, blackB []int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		n, m := map[string]int{}, map[string]int{}
		body := func() {
			HubAt(HubHost, HubPort, blackA...)
			HubAt("10.9.9.9", HubPort+1, blackB...)
			for i, c := range []byte(a) {
				n[host(c)]++
				Dock(host(c), fmt.Sprint("a", i), ferry.Carry(fmt.Sprint("F", i), &Feat{Id: "F"}, true))
			}
			for i, c := range []byte(b) {
				m[host(c)]++
				DockTo(fmt.Sprintf("10.9.9.9:%d", HubPort+1), host(c), fmt.Sprint("b", i), ferry.Carry(fmt.Sprint("G", i), &Feat{Id: "G"}, true))
			}
		}
		return body, func(w *zzvs.World) {
			both := map[string]int{}
			for _, x := range []map[string]int{n, m} {
				for h, k := range x {
					both[h] += k
				}
			}
			check(w, nil, both)
			for _, l := range w.Net.Listens {
				list := blackA
				if m[l.Host] > 0 {
					list = blackB
				}
				for _, p := range list {
					if l.Port == p {
						zzvs.Fail("blacklisted", "%s:%d was assigned", l.Host, l.Port)
					}
				}
			}
		}
	}
}

// a dock on each of n hosts, one after another, so many times
func manyHosts(n, times int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		want := map[string]int{}
		body := func() {
			Hub(20002)
			for k := 0; k < times; k++ {
				for i := 0; i < n; i++ {
					want[Host(i)]++
					Dock(Host(i), fmt.Sprint("d", i), ferry.Carry(fmt.Sprint("F", i), &Feat{Id: "F"}, true))
					zzvs.Settle()
				}
			}
		}
		return body, func(w *zzvs.World) { check(w, []int{20002}, want) }
	}
}

func span(from, to int) []int {
	var l []int
	for p := from; p <= to; p++ {
		l = append(l, p)
	}
	return l
}

func main() {
	var scs []*zzvs.Scenario
	mk := func(name string, q, t int, m Maker, cfg ...func(w *zzvs.World)) {
		scs = append(scs, &zzvs.Scenario{Name: name, Quick: q, Thorough: t, New: m, Config: func(w *zzvs.World) {
			for _, c := range cfg {
				c(w)
			}
		}})
	}
	// concurrent registrations
	mk("two", 2, 3, history("AA"))
	mk("three", 2, 3, history("AAA"))
	mk("four", 1, 2, history("AAAA"))
	mk("three-on-two-hosts", 2, 2, history("ABA"))
	mk("four-on-two-hosts", 1, 2, history("ABAB"))
	mk("three-hosts", 1, 2, history("ABC"))
	mk("six", 1, 1, history("AAABAB"))
	mk("two-black", 2, 3, history("AA", 20001, 20002, 20004))
	mk("three-black", 2, 3, history("AAA", 20002, 20003, 20005))
	mk("one-joins-another", 2, 3, history("A,A"))
	mk("two-join-one", 2, 3, history("A,AA"))
	mk("two-join-two", 1, 2, history("AA,AA", 20003))
	mk("two-join-on-two-hosts", 1, 2, history("AB,AB", 20002))
	mk("no-features", 2, 3, history("A0A,A0"))
	// hosts going down and coming back
	mk("down", 1, 2, history("A,!A,A"))
	mk("down-one-of-two", 1, 2, history("AB,!A,AB"))
	mk("down-and-many", 0, 1, history("AA,!A,AAA,!A,A", 20002, 20004, 20006))
	// every sequence over three hosts up to renaming
	var seq func(s string, max byte, left int)
	seq = func(s string, max byte, left int) {
		if left == 0 {
			in := strings.Join(strings.Split(s, ""), ",")
			mk("in-turn-"+s, 0, 1, history(in, 20002, 20005))
			return
		}
		for c := byte('A'); c <= max && c < 'E'; c++ {
			m := max
			if c == max {
				m++
			}
			seq(s+string(c), m, left-1)
		}
	}
	seq("A", 'B', 4)
	// every black list around the first ports
	for set := 0; set < 64; set++ {
		var l []int
		for i := 0; i < 6; i++ {
			if set&(1<<i) != 0 {
				l = append(l, 20000+i)
			}
		}
		mk(fmt.Sprintf("black-%02x", set), 0, 1, history("A,AB,AA", l...))
	}
	mk("black-unordered", 0, 1, history("AA,A,AB,A", 20007, 20001, 20003, 20001, 20003, 20002))
	mk("black-useless", 0, 1, history("AA,A,B", -1, 0, 1, 19999, 20000, 49001, 65535, 1<<20))
	// every history
	quiet := func(w *zzvs.World) { w.Preempt = false }
	mk("any-two-hosts", 9, 9, history("******,A,B,!A"), quiet)
	mk("any-two-hosts-black", 9, 9, history("*****,A,AB,!A,AA", 20002, 20004, 20005, 20009), quiet)
	mk("any-four-hosts", 9, 9, history("****,A,B,C,D,!A,!B,AC0", 20001, 20003), quiet)
	mk("any-long", 0, 9, history("********,A,B,!A", 20003), quiet)
	// many hosts, each coming back after the others
	mk("hundred-hosts", 0, 0, manyHosts(100, 2), func(w *zzvs.World) { w.MaxSteps = 1 << 30 })
	mk("few-hosts-back", 0, 1, manyHosts(9, 3))
	// the last ports of the range
	long := func(w *zzvs.World) { w.SpinBudget = 60000; w.MaxSteps = 400000 }
	mk("last-one", 1, 2, history("A", span(20001, 48999)...), long)
	mk("last-two", 1, 2, history("AA", span(20001, 48998)...), long)
	mk("last-two-on-three-hosts", 0, 1, history("ABC,ABC", span(20001, 48998)...), long)
	mk("last-with-gaps", 1, 2, history("AA,BB", append(span(20001, 48996), 48998, 48999)...), long)
	mk("only-ends", 1, 2, history("AA,BB", span(20002, 48999)...), long)
	mk("middle-gap", 1, 2, history("AAA,BB", span(20002, 48998)...), long)
	// (every port passed over may be a scheduling point of its own in another implementation)
	for _, sc := range scs[len(scs)-6:] {
		sc.QuickExec, sc.ThoroughExec = 3000, 40000
	}
	// two hubs
	mk("two-hubs", 1, 2, twoHubs("AA", "CC", nil, nil))
	mk("two-hubs-black", 1, 2, twoHubs("AB", "CD", []int{20001}, []int{20002}))
	mk("two-hubs-black-2", 1, 1, twoHubs("AA", "CC", []int{20001, 20002}, []int{20003}))
	// many
	mk("forty", 0, 0, history(strings.Repeat("A,", 39)+"A", 20010, 20011, 20012))
	mk("forty-at-once", 0, 0, history(strings.Repeat("A", 40), 20010, 20011, 20012))
	mk("many-on-hosts", 0, 0, history(strings.Repeat("ABCDE,", 9)+"ABCDE", 20003))
	far := func(w *zzvs.World) { w.MaxSteps = 1 << 30; w.SpinBudget = 60000 }
	mk("three-hundred", 0, 0, history(strings.Repeat("A,", 299)+"A", 20010, 20011, 20012, 20299), far)
	mk("hundred-at-once", 0, 0, history(strings.Repeat("AB", 50), 20010), far)
	mk("many-hosts-back", 0, 0, history(strings.Repeat("AABC,!A,!B,", 12)+"ABC", 20004), far)
	zzvs.Main("C06", scs, []string{"a dock's address is the one its connection to the hub comes from (IPv4)", "docks of different hubs are on different hosts", "fewer docks on a host than free ports"})
}
