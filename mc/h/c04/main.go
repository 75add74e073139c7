// C04: objects cross a connection intact, in order, exactly once, however bytes split.
package main

import (
	"fmt"
	"strings"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/network"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

const server = "10.0.0.1"

func sendAll(s interface{ Send(obj interface{}) }, from string, sizes []int) {
	for i, n := range sizes {
		s.Send(&Msg{From: from, Seq: i, Size: n})
	}
}

func one(who string, s *Sink) *End {
	if len(s.Ends) != 1 {
		zzvs.Fail("ends", "%s knows %d connections instead of 1", who, len(s.Ends))
	}
	return s.Ends[0]
}

// one connection; up and down are the sizes sent by the client and the server, senders is how many
// goroutines of the client send them all
func simple(up, down []int, senders int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		ss, cs := &Sink{Who: "server"}, &Sink{Who: "client"}
		ss.OnUp = func(e *End) { sendAll(e.Peer, "S", down) }
		body := func() {
			Serve(server, "len", ss)
			On("10.0.0.2", "client", func() {
				c := Client(server, "len", cs)
				c.Dial()
				for i := 0; i < senders; i++ {
					i := i
					zzvs.Go("sender", func() { sendAll(c, fmt.Sprint("C", i), up) })
				}
			})
		}
		return body, func(w *zzvs.World) {
			want := map[string][]string{}
			for i := 0; i < senders && len(up) > 0; i++ {
				n := fmt.Sprint("C", i)
				want[n] = Names(n, up...)
			}
			CheckGot("server", one("server", ss), want)
			want = map[string][]string{}
			if len(down) > 0 {
				want["S"] = Names("S", down...)
			}
			CheckGot("client", one("client", cs), want)
		}
	}
}

// the same with the built-in text format
func text(lines ...string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		ss, cs := &Sink{Who: "server"}, &Sink{Who: "client"}
		body := func() {
			Serve(server, "txt", ss)
			On("10.0.0.2", "client", func() {
				c := Client(server, "txt", cs)
				c.Dial()
				for _, l := range lines {
					c.Send(l + "\000")
				}
			})
		}
		return body, func(w *zzvs.World) {
			got := one("server", ss).Got
			if len(got) != len(lines) {
				zzvs.Fail("delivery", "sent %q, received %q", lines, got)
			}
			for i := range got {
				if got[i] != lines[i]+"\000" {
					zzvs.Fail("delivery", "sent %q, received %q", lines[i], got[i])
				}
			}
		}
	}
}

// n clients, each sending and being answered; the server also sends to all of them
func clients(n int, sizes []int, broadcast bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		ss := &Sink{Who: "server"}
		var cs []*Sink
		for i := 0; i < n; i++ {
			cs = append(cs, &Sink{Who: fmt.Sprint("client", i)})
		}
		answered := map[string]int{}
		ss.OnMsg = func(e *End, what string) {
			// answer with an object naming the one it answers
			k := strings.Split(what, ".")[0]
			e.Peer.Send(&Msg{From: "R" + k, Seq: answered[k], Size: answered[k]})
			answered[k]++
		}
		body := func() {
			s := Serve(server, "len", ss)
			for i := 0; i < n; i++ {
				i := i
				On(fmt.Sprintf("10.0.0.%d", 2+i), "client", func() {
					c := Client(server, "len", cs[i])
					c.Dial()
					sendAll(c, fmt.Sprint("C", i), sizes)
				})
			}
			if broadcast {
				zzvs.Await("all connected", func() bool {
					if len(ss.Ends) < n {
						return false
					}
					for _, e := range ss.Ends {
						if e.Connected == 0 {
							return false
						}
					}
					return true
				})
				sendAll(s, "S", sizes)
			}
		}
		return body, func(w *zzvs.World) {
			if len(ss.Ends) != n {
				zzvs.Fail("ends", "the server knows %d connections of %d clients", len(ss.Ends), n)
			}
			for i, c := range cs {
				e := one(c.Who, c)
				var se *End
				for _, x := range ss.Ends {
					if x.Name == e.Local {
						se = x
					}
				}
				if se == nil {
					zzvs.Fail("ends", "the server does not know the connection of %s", c.Who)
				}
				n := fmt.Sprint("C", i)
				CheckGot("the server's end of "+c.Who, se, map[string][]string{n: Names(n, sizes...)})
				want := map[string][]string{}
				for k := range sizes {
					want["R"+n] = append(want["R"+n], fmt.Sprintf("R%s.%d.%d", n, k, k))
				}
				if broadcast {
					want["S"] = Names("S", sizes...)
				}
				CheckGot(c.Who, e, want)
			}
		}
	}
}

// one socket dialing twice, and two sockets on both ends: nothing goes to another connection
func twoDials() Maker {
	return func() (func(), func(w *zzvs.World)) {
		ss, cs := &Sink{Who: "server"}, &Sink{Who: "client"}
		body := func() {
			Serve(server, "len", ss)
			On("10.0.0.2", "client", func() {
				c := Client(server, "len", cs)
				c.Dial()
				c.Dial()
				sendAll(c, "C", []int{3, 0, 2})
				for i, e := range cs.Ends {
					e.Peer.Send(&Msg{From: fmt.Sprint("P", i), Seq: 0, Size: i})
				}
			})
		}
		return body, func(w *zzvs.World) {
			if len(cs.Ends) != 2 || len(ss.Ends) != 2 {
				zzvs.Fail("ends", "two connections, the client knows %d and the server %d", len(cs.Ends), len(ss.Ends))
			}
			for i, e := range cs.Ends {
				for _, x := range ss.Ends {
					if x.Name == e.Local {
						n := fmt.Sprint("P", i)
						CheckGot("server", x, map[string][]string{"C": Names("C", 3, 0, 2), n: {fmt.Sprintf("%s.0.%d", n, i)}})
					}
				}
			}
		}
	}
}

// ping-pong from inside the callbacks
func pingPong(n int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		ss, cs := &Sink{Who: "server"}, &Sink{Who: "client"}
		k, l := 0, 0
		ss.OnMsg = func(e *End, what string) { e.Peer.Send(&Msg{From: "S", Seq: k, Size: k}); k++ }
		cs.OnUp = func(e *End) { e.Peer.Send(&Msg{From: "C", Seq: 0, Size: 0}); l++ }
		cs.OnMsg = func(e *End, what string) {
			if l < n {
				e.Peer.Send(&Msg{From: "C", Seq: l, Size: l})
				l++
			}
		}
		body := func() {
			Serve(server, "len", ss)
			On("10.0.0.2", "client", func() { Client(server, "len", cs).Dial() })
		}
		return body, func(w *zzvs.World) {
			var sizes []int
			for i := 0; i < n; i++ {
				sizes = append(sizes, i)
			}
			CheckGot("server", one("server", ss), map[string][]string{"C": Names("C", sizes...)})
			CheckGot("client", one("client", cs), map[string][]string{"S": Names("S", sizes...)})
		}
	}
}

// objects sent after long silences, both ways
func silences(rounds int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		ss, cs := &Sink{Who: "server"}, &Sink{Who: "client"}
		var sizes []int
		for i := 0; i < rounds; i++ {
			sizes = append(sizes, 3*i)
		}
		body := func() {
			s := Serve(server, "len", ss)
			var c network.ISocket
			On("10.0.0.2", "client", func() {
				c = Client(server, "len", cs)
				c.Dial()
			})
			zzvs.Await("connected", func() bool { return len(ss.Ends) == 1 && len(cs.Ends) == 1 })
			for i, n := range sizes {
				Silence()
				c.Send(&Msg{From: "C", Seq: i, Size: n})
				if i%2 == 1 {
					Silence()
				}
				s.Send(&Msg{From: "S", Seq: i, Size: n})
			}
		}
		return body, func(w *zzvs.World) {
			CheckGot("server", one("server", ss), map[string][]string{"C": Names("C", sizes...)})
			CheckGot("client", one("client", cs), map[string][]string{"S": Names("S", sizes...)})
		}
	}
}

// many objects one after another, in waves that fit the backlog, both ways
func longRun(waves, each int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		ss, cs := &Sink{Who: "server"}, &Sink{Who: "client"}
		var sizes []int
		for i := 0; i < waves*each; i++ {
			sizes = append(sizes, (i*i)%97)
		}
		body := func() {
			s := Serve(server, "len", ss)
			c := Client(server, "len", cs)
			c.Dial()
			zzvs.Settle()
			for i := 0; i < waves; i++ {
				for k := i * each; k < (i+1)*each; k++ {
					c.Send(&Msg{From: "C", Seq: k, Size: sizes[k]})
					s.Send(&Msg{From: "S", Seq: k, Size: sizes[k]})
				}
				zzvs.Settle()
			}
		}
		return body, func(w *zzvs.World) {
			CheckGot("server", one("server", ss), map[string][]string{"C": Names("C", sizes...)})
			CheckGot("client", one("client", cs), map[string][]string{"S": Names("S", sizes...)})
		}
	}
}

// docks talk: calls with strings of given lengths, both ways, while the bytes are split
func docks(sizes ...int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b := &Feat{Id: "A"}, &Feat{Id: "B"}
		cs := &Calls{}
		body := func() {
			Hub()
			Dock(Host(2), "b", ferry.Carry("B", b, true))
			Up(Host(2))
			Dock(Host(1), "a", ferry.Carry("A", a, true))
			Up(Host(1))
			for i, n := range sizes {
				i, n := i, n
				zzvs.Go("call", func() {
					s := make([]byte, n)
					for k := range s {
						s[k] = byte(k*3 + i)
					}
					cs.Echo(a.Slot, "A", "B", i, string(s))
				})
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(len(sizes))
			cs.CheckOnce(map[string]*Feat{"B": b})
			NoRefused(w)
		}
	}
}

// crossing: n docks call each other, all at once: packets of the same kinds cross several connections
func crossing(n int, sizes ...int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		var all []*Feat
		feats := map[string]*Feat{}
		cs := &Calls{}
		body := func() {
			Hub()
			for i := 0; i < n; i++ {
				f := &Feat{Id: fmt.Sprint("F", i)}
				all = append(all, f)
				feats[f.Id] = f
				Dock(Host(i), f.Id, ferry.Carry(f.Id, f, true))
				Up(Host(i))
			}
			for i := 0; i < n; i++ {
				for k, size := range sizes {
					i, k, size := i, k, size
					zzvs.Go("call", func() {
						cs.Echo(all[i].Slot, all[i].Id, all[(i+1)%n].Id, 10*i+k, strings.Repeat(fmt.Sprint(i), size))
					})
				}
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(n * len(sizes))
			cs.CheckOnce(feats)
			NoRefused(w)
		}
	}
}

var _ network.ISocketSink = &Sink{}

func splitAll(avail int) []int {
	var out []int
	for i := 1; i < avail; i++ {
		out = append(out, i)
	}
	return out
}

func splitSome(avail int) []int {
	var out []int
	for _, i := range []int{1, 2, 3, 4, 5, avail / 2, avail - 4, avail - 1} {
		if i > 0 && i < avail && (len(out) == 0 || i > out[len(out)-1]) {
			out = append(out, i)
		}
	}
	return out
}

func main() {
	var scs []*zzvs.Scenario
	mk := func(name string, q, t int, m Maker, cfg ...func(w *zzvs.World)) {
		scs = append(scs, &zzvs.Scenario{Name: name, Quick: q, Thorough: t, New: m, Config: func(w *zzvs.World) {
			for _, c := range cfg {
				c(w)
			}
		}})
	}
	still := func(w *zzvs.World) { w.Preempt = false }
	all := func(w *zzvs.World) { w.ReadSplit = splitAll }
	some := func(w *zzvs.World) { w.ReadSplit = splitSome }
	capped := func(n int) func(w *zzvs.World) { return func(w *zzvs.World) { w.ConnCap = n } }
	burst := make([]int, 20)
	for i := range burst {
		burst[i] = i % 4
	}
	// every way to split the stream
	endless := func(w *zzvs.World) { w.MaxSteps = 1 << 30 }
	mk("every-split", 3, 4, simple([]int{2, 0, 5}, nil, 1), still, all)
	mk("every-split-both-ways", 2, 3, simple([]int{1, 0}, []int{0, 3}, 1), still, all)
	mk("every-split-text", 4, 6, text("ab", "", "c", "\n"), still, all)
	mk("every-split-docks", 1, 2, docks(0, 3), still, all)
	mk("splits-and-schedules", 2, 3, simple([]int{2, 0}, []int{1}, 1), some)
	mk("splits-and-schedules-docks", 1, 2, docks(3), some)
	// sizes around the receive buffer
	var big []int
	for _, b := range []int{1024, 10240, 20480, 30720, 65536} {
		big = append(big, b-17, b-12, b-11, b-10, b-1, b, b+1)
	}
	for i := 0; i < len(big); i += 7 {
		q := 2
		if big[i+5] > 20480 {
			q = 1
		}
		mk(fmt.Sprint("sizes-around-", big[i+5]), q, q+1, simple(big[i:i+7], []int{big[i+3], 0, big[i+4]}, 1), still, some)
		mk(fmt.Sprint("sizes-and-schedules-", big[i+5]), 1, 2, simple([]int{big[i], 0, big[i+3]}, []int{1}, 1), capped(10000))
	}
	exact := func(total int) []int { // messages that fill the buffer exactly together
		return []int{total - 2*4 - len("C0.0.10000:") - len("C0.1.0:"), 0, 1}
	}
	mk("coalesced-exact", 2, 3, simple(exact(10240), nil, 1), some)
	mk("coalesced-exact-2", 2, 3, simple(exact(10239), nil, 1), some)
	mk("coalesced-exact-3", 2, 3, simple(exact(20480), nil, 1), some)
	mk("docks-sizes", 1, 2, docks(0, 1, 255, 256), still, some)
	mk("docks-sizes-big", 1, 2, docks(10200, 10240, 65535, 65536), still, some)
	mk("docks-size-bigger", 0, 1, docks(70000, 200000), still, capped(4096))
	mk("docks-size-17m", 0, 0, docks(5, 1<<24+1<<20), still, endless)
	mk("crossing-2", 1, 2, crossing(2, 3))
	mk("crossing-2-twice", 1, 2, crossing(2, 3, 4))
	mk("crossing-3", 1, 2, crossing(3, 3))
	// senders and receivers at once
	mk("two-senders", 2, 3, simple([]int{0, 3}, nil, 2))
	mk("three-senders", 1, 2, simple([]int{0, 3}, []int{1, 2}, 3))
	mk("backlog-20", 1, 2, simple(burst, nil, 1))
	mk("backlog-20-two-senders", 1, 2, simple(burst[:10], burst, 2))
	mk("backlog-20-slow-network", 1, 2, simple(burst, burst, 1), capped(16))
	mk("slow-network", 2, 2, simple([]int{3, 40, 0}, []int{30, 2}, 1), capped(8))
	mk("two-clients", 1, 2, clients(2, []int{2, 0}, false))
	mk("two-clients-broadcast", 1, 2, clients(2, []int{2, 0}, true))
	mk("three-clients", 1, 1, clients(3, []int{1}, true))
	mk("two-dials", 1, 2, twoDials())
	mk("forty-clients", 0, 0, clients(40, []int{1, 3}, true), endless)
	mk("waves", 0, 0, longRun(300, 15), endless)
	mk("ping-pong-300", 0, 0, pingPong(300), endless)
	mk("ping-pong", 2, 3, pingPong(4))
	mk("silences", 1, 2, silences(2))
	zzvs.Main("C04", scs, []string{"at most 20 objects wait in the backlog of a connection", "the network delivers bytes reliably and in order"})
}
