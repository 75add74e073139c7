// C05: connection callbacks follow the lifecycle and closing at any moment is safe.
package main

import (
	"fmt"
	"strings"

	"github.com/muguangyi/ferry/network"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

const (
	server = "10.0.0.1"
	client = "10.0.0.2"
)

// lifecycle checks the callbacks of every endpoint; ended: the connections are over.
func lifecycle(ended bool, ss ...*Sink) {
	for _, s := range ss {
		for _, e := range s.Ends {
			at := strings.Join(e.At, " ")
			if e.Connected > 1 || e.Closed > 1 {
				zzvs.Fail("callbacks", "%s, connection with %s: %s", s.Who, e.Name, at)
			}
			if len(e.At) > 0 && e.At[0] != "connected" {
				zzvs.Fail("callbacks", "%s was told of something else before the connection with %s: %s", s.Who, e.Name, at)
			}
			if ended && e.Connected == 1 && e.Closed == 0 {
				zzvs.Fail("callbacks", "%s was never told that the connection with %s is over: %s", s.Who, e.Name, at)
			}
			if !ended && e.Closed > 0 {
				zzvs.Fail("callbacks", "%s was told that the open connection with %s is over: %s", s.Who, e.Name, at)
			}
		}
	}
}

func released(w *zzvs.World, hosts ...string) {
	for _, h := range hosts {
		if l := w.Net.OpenListeners(h); len(l) > 0 {
			zzvs.Fail("left open", "%s still listens on %v", h, l)
		}
		if c := w.Net.OpenConns(h); len(c) > 0 {
			zzvs.Fail("left open", "connections are still open: %v", c)
		}
	}
}

func outcome(ss ...*Sink) string {
	o := ""
	for _, s := range ss {
		o += s.Who + ":"
		for _, e := range s.Ends {
			o += " [" + strings.Join(e.At, " ") + "]"
		}
		o += "; "
	}
	return o
}

// act performs a script: s send a message, c close, w wait until at rest, d dial (client) , + sleep
func act(s network.ISocket, who string, script string, done *int) {
	n := 0
	for _, x := range script {
		switch x {
		case 's':
			s.Send(&Msg{From: who, Seq: n, Size: n})
			n++
		case 'c':
			s.Close()
		case 'w':
			zzvs.Settle()
		case 'd':
			s.Dial()
		}
	}
	*done++
}

// scripts of the server's socket and of the sockets of clients, several goroutines per socket ("|");
// all connections have to be over in the end
func play(srv string, ended bool, clients ...string) Maker {
	return playWith(nil, srv, ended, clients...)
}

func playWith(hook func(ss *Sink, s network.ISocket, cs []*Sink, c []network.ISocket), srv string, ended bool, clients ...string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		ss := &Sink{Who: "server"}
		var cs []*Sink
		for i := range clients {
			cs = append(cs, &Sink{Who: fmt.Sprint("client", i)})
		}
		done, scripts := 0, 0
		body := func() {
			s := Serve(server, "len", ss)
			var socks []network.ISocket
			for i := range clients {
				socks = append(socks, Client(server, "len", cs[i]))
			}
			if hook != nil {
				hook(ss, s, cs, socks)
			}
			for i, c := range clients {
				i := i
				for _, p := range strings.Split(c, "|") {
					p := p
					scripts++
					On(fmt.Sprintf("10.0.0.%d", 2+i), "client", func() { act(socks[i], fmt.Sprint("C", i), p, &done) })
				}
			}
			// the server acts when the clients have reached it
			dials := 0
			for _, c := range clients {
				dials += strings.Count(c, "d")
			}
			zzvs.Await("dialed", func() bool { return len(zzvs.W.Net.Conns) >= dials })
			for _, p := range strings.Split(srv, "|") {
				p := p
				scripts++
				On(server, "server", func() { act(s, "S", p, &done) })
			}
		}
		return body, func(w *zzvs.World) {
			if done != scripts {
				zzvs.Fail("blocked", "%d of %d goroutines finished", done, scripts)
			}
			lifecycle(ended, append(cs, ss)...)
			if strings.Contains(srv, "c") {
				released(w, server)
			}
			for i, c := range clients {
				if strings.Contains(c, "c") {
					released(w, fmt.Sprintf("10.0.0.%d", 2+i))
				}
			}
			if !ended || !strings.Contains(srv, "c") {
				for _, c := range cs {
					if len(c.Ends) > 0 && c.Ends[0].Connected == 0 && !strings.Contains(clients[0], "c") {
						zzvs.Fail("callbacks", "%s was not told of its connection", c.Who)
					}
				}
			}
			w.Outcome = outcome(append(cs, ss)...)
		}
	}
}

// every script of the server of up to k steps, against every one of a client that dials first and of m
// more steps
func anyScripts(k, m int, others ...string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		var body func()
		var check func(w *zzvs.World)
		return func() {
			pick := func(n int, steps ...string) string {
				t := ""
				for i := 0; i < n; i++ {
					t += steps[zzvs.Choose(len(steps))]
				}
				return t
			}
			srv := pick(k, "", "s", "c", "w", "|")
			cl := "d" + pick(m, "", "s", "c", "w", "d", "|")
			all := append([]string{cl}, others...)
			ended := strings.Contains(srv, "c") || len(others) == 0 && strings.Contains(cl, "c")
			if !ended && strings.Contains(strings.Join(all, ""), "c") {
				// Some connections stay and some do not.
				srv += "wc"
				ended = true
			}
			body, check = play(srv, ended, all...)()
			body()
		}, func(w *zzvs.World) { check(w) }
	}
}

// nobody closes: every endpoint is told of its connection, once, and of nothing else
func stays(n int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		ss := &Sink{Who: "server"}
		var cs []*Sink
		body := func() {
			Serve(server, "len", ss)
			for i := 0; i < n; i++ {
				c := &Sink{Who: fmt.Sprint("client", i)}
				cs = append(cs, c)
				On(fmt.Sprintf("10.0.0.%d", 2+i), "client", func() {
					s := Client(server, "len", c)
					s.Dial()
					s.Send("empty")
				})
			}
		}
		return body, func(w *zzvs.World) {
			lifecycle(false, append(cs, ss)...)
			if len(ss.Ends) != n {
				zzvs.Fail("callbacks", "the server was told of %d of %d connections", len(ss.Ends), n)
			}
			for _, s := range append(cs, ss) {
				for _, e := range s.Ends {
					if e.Connected != 1 {
						zzvs.Fail("callbacks", "%s: connection with %s: %v", s.Who, e.Name, e.At)
					}
				}
			}
		}
	}
}

// the address is free after Close, at once, for as long as one likes
func relisten(rounds int, clientCloses bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		var all []*Sink
		done := 0
		body := func() {
			zzvs.SetHost(server)
			for r := 0; r < rounds; r++ {
				ss, cs := &Sink{Who: fmt.Sprint("server", r)}, &Sink{Who: fmt.Sprint("client", r)}
				all = append(all, ss, cs)
				s := Serve(server, "len", ss)
				up := false
				On(client, "client", func() {
					c := Client(server, "len", cs)
					c.Dial()
					c.Send("empty")
					up = true
					if clientCloses {
						c.Close()
					}
				})
				zzvs.Await("client", func() bool { return up })
				s.Close()
				done++
			}
		}
		return body, func(w *zzvs.World) {
			if done != rounds {
				zzvs.Fail("blocked", "round %d did not finish", done)
			}
			lifecycle(true, all...)
			released(w, server)
			w.Outcome = outcome(all...)
		}
	}
}

// the other side's host goes away
func down(send bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		ss, cs := &Sink{Who: "server"}, &Sink{Who: "client"}
		body := func() {
			s := Serve(server, "len", ss)
			On(client, "client", func() {
				c := Client(server, "len", cs)
				c.Dial()
				c.Send("empty")
			})
			zzvs.Await("dialed", func() bool { return len(zzvs.W.Net.Conns) > 0 })
			zzvs.Go("down", func() { zzvs.Down(client) })
			if send {
				On(server, "sender", func() { s.Send("empty"); s.Send("empty") })
			}
		}
		return body, func(w *zzvs.World) {
			lifecycle(true, ss, cs)
			released(w, client)
			w.Outcome = outcome(ss, cs)
		}
	}
}

// a connection nothing is sent on stays
func idle(script string) Maker {
	return func() (func(), func(w *zzvs.World)) {
		ss, cs := &Sink{Who: "server"}, &Sink{Who: "client"}
		body := func() {
			s := Serve(server, "len", ss)
			var c network.ISocket
			On(client, "client", func() {
				c = Client(server, "len", cs)
				c.Dial()
			})
			zzvs.Await("connected", func() bool { return len(ss.Ends) == 1 && len(cs.Ends) == 1 })
			for _, x := range script {
				Silence()
				for _, k := range []*Sink{ss, cs} {
					if len(k.Ends) != 1 || k.Ends[0].Connected != 1 || k.Ends[0].Closed != 0 {
						zzvs.Fail("idle", "nobody closed, but %s was told %v", k.Who, k.Ends[0].At)
					}
				}
				switch x {
				case 's':
					c.Send("empty")
				case 'S':
					s.Send("empty")
				case 'c':
					c.Close()
				case 'C':
					s.Close()
				}
			}
		}
		return body, func(w *zzvs.World) {
			lifecycle(true, ss, cs)
			released(w, client)
			for k, from := range map[*Sink]string{ss: "s", cs: "S"} {
				if n := strings.Count(script, from); len(k.Ends[0].Got) != n {
					zzvs.Fail("idle", "%s received %d objects of %d", k.Who, len(k.Ends[0].Got), n)
				}
			}
		}
	}
}

// the other side does not read: Close comes back all the same
func stalled(n int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		ss, cs := &Sink{Who: "server"}, &Sink{Who: "client"}
		closed := false
		release := false
		body := func() {
			s := Serve(server, "len", ss)
			ss.OnMsg = func(e *End, what string) {
				if what == "C0.0.0" {
					zzvs.Await("release", func() bool { return release })
				}
			}
			_ = s
			On(client, "client", func() {
				c := Client(server, "len", cs)
				c.Dial()
				for i := 0; i < n; i++ {
					c.Send(&Msg{From: "C0", Seq: i, Size: 40 * i})
				}
				zzvs.Settle()
				c.Close()
				closed = true
				zzvs.Settle()
				release = true
			})
		}
		return body, func(w *zzvs.World) {
			if !closed {
				zzvs.Fail("blocked", "Close did not return while the other side was not reading")
			}
			lifecycle(true, ss, cs)
			released(w, client)
		}
	}
}

// sockets that are closed before or without having done anything
func unused() Maker {
	return func() (func(), func(w *zzvs.World)) {
		ok := false
		body := func() {
			zzvs.SetHost(server)
			s := Client(server, "len", &Sink{Who: "x"})
			s.Close()
			s.Close()
			s.Send("empty")
			ss := &Sink{Who: "server"}
			l := Serve(server, "len", ss)
			l.Send("empty")
			l.Close()
			l.Send("empty")
			l.Close()
			zzvs.Settle()
			l = Serve(server, "len", ss)
			l.Close()
			ok = true
		}
		return body, func(w *zzvs.World) {
			if !ok {
				zzvs.Fail("blocked", "closing an unused socket blocks")
			}
			released(w, server)
		}
	}
}

func main() {
	var scs []*zzvs.Scenario
	mk := func(name string, q, t int, m Maker, cfg ...func(w *zzvs.World)) {
		scs = append(scs, &zzvs.Scenario{Name: name, Quick: q, Thorough: t, New: m, Config: func(w *zzvs.World) {
			for _, c := range cfg {
				c(w)
			}
		}})
	}
	endless := func(w *zzvs.World) { w.MaxSteps = 1 << 30 }
	forty := strings.Split(strings.Repeat("ds ", 39)+"ds", " ")
	mk("forty-clients-server-closes", 0, 0, play("swc", true, forty...), endless)
	mk("forty-clients-close", 0, 0, play("s", true, strings.Split(strings.Repeat("dsc ", 39)+"dwsc", " ")...), endless)
	mk("forty-connections", 0, 0, play("s", true, strings.Repeat("d", 40)+"wsc"), endless)
	mk("forty-connections-server-closes", 0, 0, play("wsc", true, strings.Repeat("d", 40)+"s"), endless)
	mk("listen-again-40", 0, 0, relisten(40, true), endless)
	mk("stays-1", 3, 4, stays(1))
	mk("stays-3", 2, 2, stays(3))
	mk("client-closes", 3, 4, play("", true, "dc"))
	mk("client-sends-closes", 3, 4, play("ss", true, "dssc"))
	mk("server-closes", 3, 4, play("c", true, "d"))
	mk("server-closes-receiving", 3, 3, play("c", true, "dsss"))
	mk("server-closes-sending", 3, 3, play("ss|c", true, "d"))
	mk("server-closes-at-rest", 2, 3, play("wc", true, "ds"))
	mk("both-close", 3, 4, play("c", true, "dc"))
	mk("both-close-both-send", 2, 3, play("s|c", true, "ds|wc"))
	mk("closed-while-dialing", 3, 4, play("", true, "d|c"))
	mk("closed-while-dialing-sending", 2, 3, play("s", true, "ds|c|s"))
	mk("close-twice", 2, 3, play("c|c", true, "dc|c"))
	mk("two-clients-server-closes", 2, 3, play("s|c", true, "ds", "ds"))
	mk("two-clients-one-closes", 2, 2, play("", true, "dsc", "dc"))
	mk("three-clients-server-closes", 1, 2, play("c", true, "d", "ds", "dc"))
	mk("two-connections", 2, 3, play("s", true, "ddsc"))
	mk("two-connections-server-closes", 2, 3, play("c", true, "dds"))
	mk("use-after-close", 2, 3, play("scss", true, "dscs"))
	// every script
	quiet := func(w *zzvs.World) { w.Preempt = false }
	mk("any-scripts", 9, 9, anyScripts(3, 3), quiet)
	mk("any-scripts-two-clients", 9, 9, anyScripts(2, 3, "dsws"), quiet)
	mk("any-scripts-short", 3, 4, anyScripts(1, 2))
	mk("any-scripts-long", 9, 9, anyScripts(3, 4), quiet)
	// closing from inside the callbacks
	type hk = func(ss *Sink, s network.ISocket, cs []*Sink, c []network.ISocket)
	in := func(name string, h hk, srv string, cl ...string) {
		mk(name, 2, 3, playWith(h, srv, true, cl...))
	}
	in("server-closes-on-connect", func(ss *Sink, s network.ISocket, cs []*Sink, c []network.ISocket) {
		ss.OnUp = func(*End) { s.Close() }
	}, "c", "d")
	in("client-closes-on-connect", func(ss *Sink, s network.ISocket, cs []*Sink, c []network.ISocket) {
		cs[0].OnUp = func(*End) { c[0].Close() }
	}, "s", "dc")
	in("server-closes-on-packet", func(ss *Sink, s network.ISocket, cs []*Sink, c []network.ISocket) {
		ss.OnMsg = func(*End, string) { s.Close() }
	}, "c", "dss")
	in("client-closes-on-packet", func(ss *Sink, s network.ISocket, cs []*Sink, c []network.ISocket) {
		cs[0].OnMsg = func(*End, string) { c[0].Close() }
	}, "wss", "dwc")
	in("both-close-on-close", func(ss *Sink, s network.ISocket, cs []*Sink, c []network.ISocket) {
		ss.OnDown = func(*End) { s.Close() }
		cs[0].OnDown = func(*End) { c[0].Close() }
	}, "c", "dc")
	in("send-on-close", func(ss *Sink, s network.ISocket, cs []*Sink, c []network.ISocket) {
		ss.OnDown = func(e *End) { s.Send("empty"); e.Peer.Send("empty") }
		cs[0].OnDown = func(e *End) { c[0].Send("empty"); e.Peer.Send("empty") }
	}, "c", "dsc")
	mk("listen-again", 2, 3, relisten(2, false))
	mk("listen-again-client-closes", 2, 2, relisten(2, true))
	mk("listen-again-3", 1, 2, relisten(3, true))
	mk("host-down", 3, 4, down(false))
	mk("host-down-sending", 2, 3, down(true))
	small := func(w *zzvs.World) { w.ConnCap = 16 }
	mk("not-read", 2, 3, stalled(4), small)
	mk("not-read-full-backlog", 1, 2, stalled(25), small)
	mk("idle-client-closes", 2, 3, idle("sSc"))
	mk("idle-server-closes", 2, 3, idle("SsC"))
	mk("unused", 3, 3, unused())
	zzvs.Main("C05", scs, []string{"a connection that is set up while its socket is being closed may never be told of (then neither of its end)"})
}
