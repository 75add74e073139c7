// C18: the mock transport behaves like a reliable in-process stream transport.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/network"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

const server = "10.0.0.1"

func sendAll(s interface{ Send(obj interface{}) }, from string, sizes []int) {
	for i, n := range sizes {
		s.Send(&Msg{From: from, Seq: i, Size: n})
	}
}

// who listens where, when (ms after the start; before the dials if 0), and who dials where (all begin
// at once); everyone sends, everything has to arrive at the right place
type system struct {
	listen []string // address of each listener
	after  []int
	dial   []string
	to     []int // the listener each dialer has to reach
	up     []int
	down   []int
	times  int // how often each socket dials
}

func (y system) new() Maker {
	return func() (func(), func(w *zzvs.World)) {
		var ss, cs []*Sink
		dialed := 0
		if y.times == 0 {
			y.times = 1
		}
		for i := range y.listen {
			i := i
			s := &Sink{Who: fmt.Sprint("server", i)}
			s.OnUp = func(e *End) { sendAll(e.Peer, fmt.Sprint("S", i), y.down) }
			ss = append(ss, s)
		}
		for i := range y.dial {
			i := i
			c := &Sink{Who: fmt.Sprint("client", i)}
			c.OnUp = func(e *End) { sendAll(e.Peer, fmt.Sprint("C", i), y.up) }
			cs = append(cs, c)
		}
		body := func() {
			network.Mock("tcp")
			network.ExtendSerializer("len", LenSer{})
			up := 0
			for i, a := range y.listen {
				i, a := i, a
				zzvs.Go("server", func() {
					if y.after[i] > 0 {
						zzvs.Sleep(time.Duration(y.after[i]) * time.Millisecond)
					}
					network.NewSocket(a, "len", ss[i]).Listen()
					up++
				})
			}
			before := 0
			for _, a := range y.after {
				if a == 0 {
					before++
				}
			}
			zzvs.Await("servers", func() bool { return up >= before })
			for i, a := range y.dial {
				s := network.NewSocket(a, "len", cs[i])
				for k := 0; k < y.times; k++ {
					zzvs.Go("client", func() {
						s.Dial()
						dialed++
					})
				}
			}
		}
		return body, func(w *zzvs.World) {
			if dialed != len(y.dial)*y.times {
				zzvs.Fail("dial", "%d of %d dials came back", dialed, len(y.dial)*y.times)
			}
			local := map[string]bool{}
			reached := make([]int, len(ss))
			for i, c := range cs {
				if len(c.Ends) != y.times {
					zzvs.Fail("connections", "%s has %d connections instead of %d", c.Who, len(c.Ends), y.times)
				}
				for _, e := range c.Ends {
					if e.Connected != 1 || e.Closed != 0 {
						zzvs.Fail("connections", "%s: %v", c.Who, e.At)
					}
					if local[e.Local] {
						zzvs.Fail("addresses", "two connections have the local address %s", e.Local)
					}
					local[e.Local] = true
					s := fmt.Sprint("S", y.to[i])
					reached[y.to[i]]++
					CheckGot(c.Who, e, map[string][]string{s: Names(s, y.down...)})
					// the other end
					var o *End
					for _, x := range ss[y.to[i]].Ends {
						if x.Name == e.Local {
							o = x
						}
					}
					if o == nil {
						zzvs.Fail("addresses", "server%d does not know the connection from %s", y.to[i], e.Local)
						continue
					}
					if o.Local != e.Name {
						zzvs.Fail("addresses", "%s is connected to %s, which calls itself %s", e.Local, e.Name, o.Local)
					}
					n := fmt.Sprint("C", i)
					CheckGot(ss[y.to[i]].Who, o, map[string][]string{n: Names(n, y.up...)})
				}
			}
			for i, s := range ss {
				if len(s.Ends) != reached[i] {
					zzvs.Fail("connections", "server%d has %d connections instead of %d", i, len(s.Ends), reached[i])
				}
			}
		}
	}
}

// closing: scripts as in C05 (s send, c close, w wait until at rest, d dial)
func closing(srv, cli string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		ss, cs := &Sink{Who: "server"}, &Sink{Who: "client"}
		done, scripts := 0, 0
		act := func(s network.ISocket, who, script string) {
			n := 0
			for _, x := range script {
				switch x {
				case 's':
					s.Send(&Msg{From: who, Seq: n, Size: 3 * n})
					n++
				case 'c':
					s.Close()
				case 'w':
					zzvs.Settle()
				case 'd':
					s.Dial()
				}
			}
			done++
		}
		body := func() {
			network.Mock("tcp")
			s := Serve(server, "len", ss)
			c := Client(server, "len", cs)
			up := false
			cs.OnUp = func(e *End) { up = true }
			for _, p := range strings.Split(cli, "|") {
				p := p
				scripts++
				zzvs.Go("client", func() { act(c, "C", p) })
			}
			zzvs.Await("connected", func() bool { return up && len(ss.Ends) > 0 })
			for _, p := range strings.Split(srv, "|") {
				p := p
				scripts++
				zzvs.Go("server", func() { act(s, "S", p) })
			}
		}
		return body, func(w *zzvs.World) {
			if done != scripts {
				zzvs.Fail("blocked", "%d of %d goroutines finished", done, scripts)
			}
			for _, s := range []*Sink{ss, cs} {
				if len(s.Ends) != 1 || s.Ends[0].Connected != 1 || s.Ends[0].Closed != 1 {
					zzvs.Fail("closing", "%s: %d connections, %v", s.Who, len(s.Ends), s.Ends[0].At)
				}
			}
			// what arrived is a beginning of what was sent
			for _, x := range []struct {
				e    *End
				from string
				n    int
			}{{ss.Ends[0], "C", strings.Count(cli, "s")}, {cs.Ends[0], "S", strings.Count(srv, "s")}} {
				var sizes []int
				for i := 0; i < x.n; i++ {
					sizes = append(sizes, 3*i)
				}
				want := Names(x.from, sizes...)
				if len(x.e.Got) > len(want) || strings.Join(x.e.Got, " ") != strings.Join(want[:len(x.e.Got)], " ") {
					zzvs.Fail("delivery", "sent %v, received %v", want, x.e.Got)
				}
			}
			w.Outcome = strings.Join(ss.Ends[0].At, " ") + "/" + strings.Join(cs.Ends[0].At, " ")
		}
	}
}

// listeners come and go on one address; a dial reaches the one that is there
func relisten(rounds int, dialFirst bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		var all []*Sink
		done := 0
		body := func() {
			network.Mock("tcp")
			network.ExtendSerializer("len", LenSer{})
			for r := 0; r < rounds; r++ {
				ss, cs := &Sink{Who: fmt.Sprint("server", r)}, &Sink{Who: fmt.Sprint("client", r)}
				all = append(all, ss, cs)
				s := network.NewSocket(":7000", "len", ss)
				c := network.NewSocket("10.0.0.1:7000", "len", cs)
				if dialFirst {
					zzvs.Go("client", func() { c.Dial(); c.Send(&Msg{From: "C"}) })
					zzvs.Settle()
					s.Listen()
				} else {
					s.Listen()
					c.Dial()
					c.Send(&Msg{From: "C"})
				}
				zzvs.Await("arrived", func() bool { return len(ss.Ends) == 1 && len(ss.Ends[0].Got) == 1 })
				s.Close()
				zzvs.Settle()
				done++
			}
		}
		return body, func(w *zzvs.World) {
			if done != rounds {
				zzvs.Fail("blocked", "round %d did not finish", done)
			}
			for _, s := range all {
				if len(s.Ends) != 1 || s.Ends[0].Closed != 1 {
					zzvs.Fail("connections", "%s has %d connections", s.Who, len(s.Ends))
				}
			}
		}
	}
}

// a listener is closed while another one begins to listen at its address: whoever dials afterwards
// is connected to the one that listens
func overlap(dials int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		old, now := &Sink{Who: "old"}, &Sink{Who: "new"}
		var clients []*Sink
		done := 0
		body := func() {
			network.Mock("tcp")
			network.ExtendSerializer("len", LenSer{})
			s := network.NewSocket(":7000", "len", old)
			s.Listen()
			left := 2
			zzvs.Go("close", func() { s.Close(); left-- })
			n := network.NewSocket(":7000", "len", now)
			zzvs.Go("listen", func() { n.Listen(); left-- })
			zzvs.Await("both", func() bool { return left == 0 })
			for i := 0; i < dials; i++ {
				cs := &Sink{Who: fmt.Sprint("client", i)}
				clients = append(clients, cs)
				c := network.NewSocket("10.0.0.1:7000", "len", cs)
				zzvs.Go("client", func() {
					if err := c.TryDial(); err != nil {
						zzvs.Fail("refused", "a dial failed though the address is listened on: %v", err)
					}
					c.Send(&Msg{From: "C"})
					done++
				})
			}
		}
		return body, func(w *zzvs.World) {
			if done != dials || len(old.Ends) != 0 || len(now.Ends) != dials {
				zzvs.Fail("connections", "of %d dials %d returned, %d reached the closed listener, %d the open one", dials, done, len(old.Ends), len(now.Ends))
			}
			for _, e := range now.Ends {
				if len(e.Got) != 1 {
					zzvs.Fail("stream", "%d messages of 1 arrived", len(e.Got))
				}
			}
		}
	}
}

// a connection nothing is sent on stays
func silences() Maker {
	return func() (func(), func(w *zzvs.World)) {
		ss, cs := &Sink{Who: "server"}, &Sink{Who: "client"}
		body := func() {
			network.Mock("tcp")
			s := Serve(server, "len", ss)
			Silence()
			c := Client(server, "len", cs)
			c.Dial()
			for i := 0; i < 2; i++ {
				Silence()
				c.Send(&Msg{From: "C", Seq: i, Size: i})
				s.Send(&Msg{From: "S", Seq: i, Size: i})
			}
		}
		return body, func(w *zzvs.World) {
			for _, k := range []*Sink{ss, cs} {
				if len(k.Ends) != 1 || k.Ends[0].Closed != 0 {
					zzvs.Fail("connections", "nobody closed, but %s has %d ends, %v", k.Who, len(k.Ends), k.Ends[0].At)
				}
			}
			CheckGot("server", ss.Ends[0], map[string][]string{"C": Names("C", 0, 1)})
			CheckGot("client", cs.Ends[0], map[string][]string{"S": Names("S", 0, 1)})
		}
	}
}

// nobody listens: the dial fails within a reasonable time (and does not hang)
func nobody(closed bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		back := false
		var err error
		cs := &Sink{Who: "client"}
		body := func() {
			network.Mock("tcp")
			if closed {
				s := Serve(server, "len", &Sink{Who: "server"})
				zzvs.Settle()
				s.Close()
				zzvs.Settle()
			}
			c := Client(server, "len", cs)
			err = c.TryDial()
			back = true
		}
		return body, func(w *zzvs.World) {
			if !back || err == nil || len(cs.Ends) > 0 {
				zzvs.Fail("dial", "nobody listens: returned %v, error %v, %d connections", back, err, len(cs.Ends))
			}
		}
	}
}

// hub and docks on the mock
func docks(n int, calls int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		f := &Feat{Id: "F"}
		cs := &Calls{}
		body := func() {
			network.Mock("tcp")
			zzvs.Go("hub", func() { ferry.Serve("127.0.0.1:9000") })
			zzvs.Settle()
			DockTo("127.0.0.1:9000", "127.0.0.1", "f", ferry.Carry("F", f, true))
			var us []ferry.ISlot
			for i := 0; i < n; i++ {
				u := ferry.Carry(fmt.Sprint("U", i), &Feat{Id: fmt.Sprint("U", i)}, true)
				us = append(us, u)
				DockTo("127.0.0.1:9000", "127.0.0.1", fmt.Sprint("u", i), u)
			}
			zzvs.Settle()
			for i := 0; i < n; i++ {
				i := i
				zzvs.Go("caller", func() {
					for k := 0; k < calls; k++ {
						cs.Echo(us[i], fmt.Sprint("U", i), "F", i*100+k, strings.Repeat("x", 3000*k))
					}
				})
			}
		}
		return body, func(w *zzvs.World) {
			cs.Made(n * calls)
			cs.CheckOnce(map[string]*Feat{"F": f})
		}
	}
}

func main() {
	var scs []*zzvs.Scenario
	mk := func(name string, q, t int, m Maker, cfg ...func(w *zzvs.World)) {
		scs = append(scs, &zzvs.Scenario{Name: name, Quick: q, Thorough: t, New: m, Config: func(w *zzvs.World) {
			for _, c := range cfg {
				c(w)
			}
		}})
	}
	still := func(w *zzvs.World) { w.Preempt = false }
	all := []string{"10.0.0.1:7000", "127.0.0.1:7000", "0.0.0.0:7000", ":7000", "localhost:7000"}
	for _, l := range all[:4] {
		for _, d := range all {
			mk("address-"+l+"-"+d, 1, 2, system{listen: []string{l}, after: []int{0}, dial: []string{d}, to: []int{0}, up: []int{1}, down: []int{2}}.new())
		}
	}
	mk("listen-then-dial", 3, 4, system{listen: all[:1], after: []int{0}, dial: all[:1], to: []int{0}, up: []int{1, 0}, down: []int{2}}.new())
	for _, ms := range []int{1, 2, 5, 20, 100} {
		q := 1
		if ms > 5 {
			q = 0
		}
		mk(fmt.Sprint("dial-then-listen-", ms), q+1, q+2, system{listen: all[:1], after: []int{ms}, dial: all[:1], to: []int{0}, up: []int{1}, down: []int{2}}.new())
		mk(fmt.Sprint("two-dial-then-listen-", ms), q, q+1, system{listen: all[:1], after: []int{ms}, dial: all[:2], to: []int{0, 0}, up: []int{1}, down: []int{2}}.new())
	}
	mk("two-dialers", 2, 3, system{listen: all[:1], after: []int{0}, dial: all[:2], to: []int{0, 0}, up: []int{1}}.new())
	mk("three-dialers", 2, 2, system{listen: all[:1], after: []int{0}, dial: all[:3], to: []int{0, 0, 0}, up: []int{1}, down: []int{1}}.new())
	mk("three-dialers-first", 1, 1, system{listen: all[:1], after: []int{2}, dial: all[:3], to: []int{0, 0, 0}, up: []int{1}}.new())
	mk("dials-twice", 2, 3, system{listen: all[:1], after: []int{0}, dial: all[:1], to: []int{0}, up: []int{1}, down: []int{1}, times: 2}.new())
	two := []string{"10.0.0.1:7000", "10.0.0.1:7001"}
	mk("two-listeners", 2, 3, system{listen: two, after: []int{0, 0}, dial: two, to: []int{0, 1}, up: []int{1}, down: []int{1}}.new())
	mk("two-listeners-later", 1, 2, system{listen: two, after: []int{1, 2}, dial: two, to: []int{0, 1}, up: []int{1}}.new())
	mk("one-listener-later", 1, 2, system{listen: two, after: []int{0, 3}, dial: []string{two[1], two[0], two[0]}, to: []int{1, 0, 0}, up: []int{1}}.new())
	var big []int
	for _, b := range []int{1024, 4096, 10240, 20480, 65536} {
		big = append(big, b-17, b-12, b-11, b-10, b-1, b, b+1)
	}
	for i := 0; i < len(big); i += 7 {
		mk(fmt.Sprint("sizes-around-", big[i+5]), 1, 2, system{listen: all[:1], after: []int{0}, dial: all[:1], to: []int{0}, up: big[i : i+7], down: []int{big[i+3], 0, big[i+4]}}.new(), still)
		mk(fmt.Sprint("sizes-and-schedules-", big[i+5]), 1, 2, system{listen: all[:1], after: []int{0}, dial: all[:1], to: []int{0}, up: []int{big[i], 0, big[i+3]}, down: []int{1}}.new())
	}
	mk("client-closes", 3, 4, closing("", "dc"))
	mk("client-sends-closes", 2, 3, closing("", "dsswc"))
	mk("client-closes-sending", 2, 3, closing("s", "dssc"))
	mk("server-closes", 3, 4, closing("c", "d"))
	mk("server-closes-receiving", 2, 3, closing("c", "dss"))
	mk("server-closes-sending", 2, 3, closing("sc", "d"))
	mk("both-close", 2, 3, closing("c", "dc"))
	mk("both-send-both-close", 2, 3, closing("sc", "dsc"))
	endless := func(w *zzvs.World) { w.MaxSteps = 1 << 30 }
	many := system{listen: all[:1], after: []int{0}, up: []int{1, 0}, down: []int{2}}
	for i := 0; i < 40; i++ {
		many.dial, many.to = append(many.dial, all[0]), append(many.to, 0)
	}
	mk("forty-dialers", 0, 0, many.new(), endless)
	many.times = 8
	mk("320-connections", 0, 0, many.new(), endless)
	var ms system
	for i := 0; i < 40; i++ {
		ms.listen, ms.after = append(ms.listen, fmt.Sprintf("10.0.0.1:%d", 7000+i)), append(ms.after, i%3)
		ms.dial, ms.to = append(ms.dial, fmt.Sprintf("10.0.0.1:%d", 7000+i)), append(ms.to, i)
	}
	ms.up, ms.down = []int{1, 0}, []int{2}
	mk("forty-listeners", 0, 0, ms.new(), endless)
	mk("relisten-40", 0, 0, relisten(40, false), endless)
	mk("silences", 1, 2, silences())
	mk("relisten-overlap", 3, 4, overlap(1))
	mk("relisten-overlap-2", 2, 3, overlap(2))
	mk("relisten", 1, 2, relisten(3, false))
	mk("relisten-dial-first", 1, 2, relisten(2, true))
	mk("nobody", 0, 1, nobody(false))
	mk("nobody-any-more", 0, 1, nobody(true))
	mk("docks-1", 1, 1, docks(1, 2))
	mk("docks-2", 0, 1, docks(2, 3))
	direct(mk)
	zzvs.Main("C18", scs, []string{"network.Mock is called before any socket is made"})
}
