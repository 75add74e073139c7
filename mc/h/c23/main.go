// C23: bytes that are no packet harm neither the hub or dock they reach nor anyone's calls.
package main

import (
	"bytes"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/codec"
	. "github.com/muguangyi/ferry/zzharness/hk"
	"github.com/muguangyi/ferry/zzvs"
)

const (
	provider = "provider-B"
	caller   = "caller-A"
	other    = "other-C"
	stranger = "10.0.0.91"
)

// sys is a hub with a dock p carrying B and C and a dock a that calls B, connected to each other.
type sys struct {
	a, b, c *Feat
	n       int
	// what was sent between them, to be sent by a stranger with some bytes changed
	streams []stream
}

type stream struct {
	name string
	data []byte
}

func carry(f *Feat) ferry.ISlot { return ferry.Carry(f.Id, f, true) }

func setup() *sys {
	y := &sys{a: &Feat{Id: caller}, b: &Feat{Id: provider}, c: &Feat{Id: other}}
	zzvs.W.Net.KeepWrites = true
	Hub()
	Dock(Host(1), "p", carry(y.b), carry(y.c))
	Up(Host(1))
	Dock(Host(2), "a", carry(y.a))
	Up(Host(2))
	y.good()
	zzvs.Settle()
	zzvs.W.Net.KeepWrites = false
	for _, c := range zzvs.W.Net.Conns {
		for _, e := range []*zzvs.Conn{c, c.Peer()} {
			if len(e.Wrote) > 0 {
				y.streams = append(y.streams, stream{fmt.Sprintf("what %s sent to %s", e.Host, e.RemoteHost), e.Wrote})
			}
		}
	}
	return y
}

func place(host string) string {
	for _, l := range zzvs.W.Net.Listens {
		if l.Host == host && l.L.Open() {
			return fmt.Sprintf("%s:%d", host, l.Port)
		}
	}
	zzvs.Fail("gone", "nothing listens on %s any more", host)
	return host + ":1"
}

func places() []string { return []string{HubAddr, place(Host(1)), place(Host(2))} }

// good makes a call between the docks, which has to work.
func (y *sys) good() bool {
	y.n++
	return fine(y.a.Slot, provider, y.n)
}

func fine(s ferry.ISlot, name string, n int) bool {
	arg := fmt.Sprint("arg", n)
	res, err := s.CallWithResult(name, "Echo", n, arg)
	if err == nil && len(res) == 2 && res[1] == name+"/"+arg {
		if k, ok := Int(res[0]); ok && k == int64(n+1000) {
			return true
		}
	}
	zzvs.Fail("afterwards", "after %s a good call of %s returned %v, %v", zzvs.W.Doing, name, res, err)
	return false
}

// newcomer: a new dock registers, is started and its lookup answered.
func (y *sys) newcomer() bool {
	y.n++
	host := fmt.Sprintf("10.1.%d.%d", y.n/250, y.n%250+1)
	f := &Feat{Id: fmt.Sprintf("newcomer-%d", y.n)}
	Dock(host, f.Id, carry(f))
	zzvs.Settle()
	if f.Started != 1 {
		zzvs.Fail("afterwards", "after %s a new dock's feature was started %d times", zzvs.W.Doing, f.Started)
		return false
	}
	ok := fine(f.Slot, other, y.n)
	zzvs.Down(host)
	zzvs.Settle()
	return ok
}

func (y *sys) send(to string, data []byte) net.Conn {
	c, err := zzvs.NetDial("tcp", to)
	if err != nil {
		zzvs.Fail("gone", "after %s: %v", zzvs.W.Doing, err)
		return nil
	}
	if len(data) > 0 {
		c.Write(data)
	}
	zzvs.Settle()
	return c
}

// gen calls f with every case of a kind of bad bytes.
type gen func(y *sys, f func(desc string, data []byte) bool)

// every byte of every stream replaced by every one of the values (and some neighbours)
func replaced(all bool) gen {
	return func(y *sys, f func(string, []byte) bool) {
		for _, s := range y.streams {
			for i, was := range s.data {
				seen := map[byte]bool{was: true}
				vals := []byte{0, 1, 2, 7, 8, 9, 0x10, 0x3f, 0x7f, 0x80, 0xc0, 0xff, was + 1, was - 1, was ^ 0x80, was ^ 1}
				if all {
					vals = nil
					for v := 0; v < 256; v++ {
						vals = append(vals, byte(v))
					}
				}
				for _, v := range vals {
					if seen[v] {
						continue
					}
					seen[v] = true
					d := append([]byte{}, s.data...)
					d[i] = v
					if !f(fmt.Sprintf("%s with byte %d = %#x instead of %#x", s.name, i, v, was), d) {
						return
					}
				}
			}
		}
	}
}

// every stream cut off everywhere, every byte left out, or sent twice, everything from there sent again
func cut(y *sys, f func(string, []byte) bool) {
	for _, s := range y.streams {
		for i := range s.data {
			if !f(fmt.Sprintf("the first %d bytes of %s", i, s.name), s.data[:i:i]) ||
				!f(fmt.Sprintf("%s without byte %d", s.name, i), append(s.data[:i:i], s.data[i+1:]...)) ||
				!f(fmt.Sprintf("%s with byte %d doubled", s.name, i), append(s.data[:i+1:i+1], s.data[i:]...)) ||
				!f(fmt.Sprintf("%s from byte %d", s.name, i), s.data[i:]) ||
				!f(fmt.Sprintf("%s twice from byte %d", s.name, i), append(append([]byte{}, s.data...), s.data[i:]...)) {
				return
			}
		}
		if !f(s.name, s.data) {
			return
		}
	}
}

func frame(body ...byte) []byte {
	n := len(body)
	return append([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, body...)
}

// every packet whose content is up to n bytes
func short(n int) gen {
	return func(y *sys, f func(string, []byte) bool) {
		var rec func(body []byte, left int) bool
		rec = func(body []byte, left int) bool {
			if !f(fmt.Sprintf("a packet of the bytes %x", body), frame(body...)) {
				return false
			}
			if left == 0 {
				return true
			}
			for v := 0; v < 256; v++ {
				if left == 1 && n > 1 && len(body) == n-1 && v%16 > 0 && v%16 < 15 && v < 0xb0 {
					continue
				}
				if !rec(append(body[:len(body):len(body)], byte(v)), left-1) {
					return false
				}
			}
			return true
		}
		rec(nil, n)
	}
}

// packets of every kind made of up to n values of every type
func typed(n int) gen {
	vals := []interface{}{nil, true, "", "x", -1, 1, 1 << 40, uint64(1) << 63, 2.5, []interface{}{}, []interface{}{1}, []interface{}{nil, "x"},
		[]interface{}{[]interface{}{"x"}}, map[interface{}]interface{}{}, map[interface{}]interface{}{"x": 1}}
	return func(y *sys, f func(string, []byte) bool) {
		var rec func(desc string, body []byte, left int) bool
		rec = func(desc string, body []byte, left int) bool {
			if !f("a packet of "+desc, frame(body...)) {
				return false
			}
			if left == 0 {
				return true
			}
			for _, v := range vals {
				var b bytes.Buffer
				codec.NewAny(v).Encode(&b)
				if !rec(fmt.Sprintf("%s, %T(%v)", desc, v, v), append(body[:len(body):len(body)], b.Bytes()...), left-1) {
					return false
				}
			}
			return true
		}
		for id := 0; id < 256; id++ {
			if id > 12 && id < 250 && id%50 > 0 {
				continue
			}
			var b bytes.Buffer
			codec.NewAny(uint8(id)).Encode(&b)
			k := n
			if id > 9 {
				k = 1
			}
			if !rec(fmt.Sprint(id), b.Bytes(), k) {
				return
			}
		}
	}
}

// what other programs send
func garbage(y *sys, f func(string, []byte) bool) {
	for _, s := range []string{"GET / HTTP/1.1\r\nHost: ferry\r\n\r\n", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "SSH-2.0-OpenSSH_9.6\r\n", "EHLO\r\n", "\n", "{}", "\x00"} {
		for _, n := range []int{1, 2, 7, 1000, 20000} {
			if !f(fmt.Sprintf("%d times %q", n, s), []byte(strings.Repeat(s, n))) {
				return
			}
		}
	}
	for v := 0; v < 256; v++ {
		for n := 1; n < 9; n++ {
			if !f(fmt.Sprintf("%d times %#x", n, v), bytes.Repeat([]byte{byte(v)}, n)) {
				return
			}
		}
		if !f(fmt.Sprintf("30000 times %#x", v), bytes.Repeat([]byte{byte(v)}, 30000)) {
			return
		}
	}
	// sizes that promise more, or less, than what follows
	for k := 0; k < 32; k++ {
		for d := -1; d <= 1; d++ {
			n := uint32(int64(1)<<k + int64(d))
			h := []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
			for _, m := range []int{0, 1, 5, 300} {
				if !f(fmt.Sprintf("a packet promising %d bytes and having %d", n, m), append(h[:4:4], bytes.Repeat([]byte{0xcc}, m)...)) {
					return
				}
			}
		}
	}
	// containers promising any number of elements, and deep ones
	for _, code := range []byte{0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xc4, 0xc5, 0xc6, 0xd9, 0xda} {
		for k := 0; k < 32; k++ {
			n := uint32(1)<<k - 1
			if !f(fmt.Sprintf("code %#x promising %d", code, n), frame(0xcc, 3, code, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))) ||
				!f(fmt.Sprintf("code %#x promising %d (other byte order)", code, n), frame(0xcc, 3, code, byte(n), byte(n>>8), byte(n>>16), byte(n>>24))) {
				return
			}
		}
	}
	for _, n := range []int{10, 9000, 11000, 40000} {
		if !f(fmt.Sprintf("%d nested arrays", n), frame(append([]byte{0xcc, 3}, bytes.Repeat([]byte{0xdd, 0, 0, 0, 1}, n)...)...)) {
			return
		}
	}
}

// each sends its share of the cases to the hub and the docks, one after another, each on a connection of
// its own (or all on one, or with connections left open), and after each makes a call.
func each(g gen, parts int, oneConn, stay bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		seen, cases := -1, 0
		done := false
		body := func() {
			zzvs.SetHost(stranger)
			y := setup()
			conns := map[string]net.Conn{}
			ok := true
			g(y, func(desc string, data []byte) bool {
				seen++
				if seen%parts != zzvs.W.Part {
					return true
				}
				for _, to := range places() {
					cases++
					zzvs.W.Doing = fmt.Sprintf("%s, sent to %s", desc, to)
					if oneConn && conns[to] != nil {
						conns[to].Write(data)
						zzvs.Settle()
					} else if conns[to] = y.send(to, data); conns[to] == nil {
						ok = false
						return false
					}
					if !oneConn && !stay {
						conns[to].Close()
						zzvs.Settle()
					}
					if ok = ok && y.good(); !ok {
						return false
					}
				}
				if cases%75 == 0 {
					zzvs.Sleep(2 * time.Second)
					ok = ok && y.newcomer()
				}
				return ok
			})
			if ok {
				y.newcomer()
			}
			done = true
		}
		return body, func(w *zzvs.World) {
			if !done {
				zzvs.Fail("blocked", "after %s a call did not return", w.Doing)
			}
			w.Outcome = fmt.Sprint(cases, " cases")
		}
	}
}

// fakeProvider answers a's lookup, and then sends bad bytes over the
// connection a has made.
func fakeProvider(g gen, parts int) Maker {
	return func() (func(), func(w *zzvs.World)) {
		seen, cases := -1, 0
		done, res := false, ""
		body := func() {
			zzvs.SetHost(stranger)
			y := setup()
			l, err := zzvs.NetListen("tcp", "0.0.0.0:20001")
			if err != nil {
				zzvs.Fail("harness", "%v", err)
				return
			}
			dialed := 0
			var to net.Conn // what a dock dialed
			var data []byte
			zzvs.Go("fake", func() {
				zzvs.SetHost(stranger)
				for {
					c, err := l.Accept()
					if err != nil {
						return
					}
					to = c
					c.Write(data)
				}
			})
			// the hub's answer to a, with the fake's address
			var answer []byte
			from, fake := []byte(place(Host(1))), []byte(place(stranger))
			for _, s := range y.streams {
				if len(from) == len(fake) && bytes.Contains(s.data, from) && s.name == fmt.Sprintf("what %s sent to %s", HubHost, Host(2)) {
					answer = bytes.ReplaceAll(s.data, from, fake)
				}
			}
			if answer == nil {
				done = true
				zzvs.Event("addresses are not sent as text")
				return
			}
			ok := true
			g(y, func(desc string, d []byte) bool {
				seen++
				if seen%parts != zzvs.W.Part {
					return true
				}
				cases++
				zzvs.W.Doing = desc + ", sent by a dock that was dialed"
				data = d
				c := y.send(place(Host(2)), answer)
				if c == nil {
					ok = false
					return false
				}
				zzvs.Settle()
				if to != nil {
					dialed++
					to.Close()
				}
				to = nil
				c.Close()
				zzvs.Settle()
				ok = y.good()
				if cases%75 == 0 {
					zzvs.Sleep(2 * time.Second)
					ok = ok && y.newcomer()
				}
				return ok
			})
			if ok {
				y.newcomer()
			}
			done = true
			zzvs.Eventf("dialed %d times", dialed)
			res = fmt.Sprintf("%d cases, %d sent", cases, dialed)
		}
		return body, func(w *zzvs.World) {
			if !done {
				zzvs.Fail("blocked", "after %s a call did not return", w.Doing)
			}
			w.Outcome = res
		}
	}
}

// some bad bytes at any moment of the life of the others
func meanwhile(which int, early bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		a, b := &Feat{Id: caller}, &Feat{Id: provider}
		cs := &Calls{}
		bad := [][]byte{frame(), frame(0x01), frame(0xcc, 200), frame(0xcc, 3, 0xdd, 0, 0, 0, 1, 0xcc, 1), {5, 0, 0, 0, 0xcc}, frame(0xcc, 7), []byte("GET / HTTP/1.1\r\n\r\n")}
		body := func() {
			Hub()
			throw := func(to string) {
				zzvs.Go("stranger", func() {
					zzvs.SetHost(stranger)
					c, err := zzvs.NetDial("tcp", to)
					if err != nil {
						zzvs.Fail("gone", "%v", err)
						return
					}
					c.Write(bad[which])
					c.Close()
				})
			}
			if early {
				throw(HubAddr)
			}
			b.OnUp = func(ferry.ISlot) { throw(place(Host(1))) }
			a.OnUp = func(s ferry.ISlot) {
				if !early {
					throw(HubAddr)
				}
				zzvs.Go("call", func() { cs.Echo(s, caller, provider, 1, "x") })
			}
			Dock(Host(2), "a", carry(a))
			Dock(Host(1), "p", carry(b))
		}
		return body, func(w *zzvs.World) {
			cs.Made(1)
			cs.CheckOnce(map[string]*Feat{provider: b})
			w.Outcome = cs.Outcome(b)
		}
	}
}

// middle takes the connections of a host to an address, passes on what is sent both ways, and repeats
// some of it.
type middle struct {
	host, to string
	port     int
	mode     string // doubled, history, late, or garbled: byte at is changed, left out or doubled
	at       int
	change   func(b byte) []byte
	up, down bool // what is repeated: what the host sends, or what it gets
	passed   int
	conns    []net.Conn
	over     bool
	hit      bool
}

func (m *middle) start() {
	zzvs.W.Net.Via[m.host+">"+m.to] = fmt.Sprintf("%s:%d", stranger, m.port)
	zzvs.Go("middle", func() {
		zzvs.SetHost(stranger)
		l, err := zzvs.NetListen("tcp", fmt.Sprintf("0.0.0.0:%d", m.port))
		if err != nil {
			zzvs.Fail("harness", "%v", err)
			return
		}
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			delete(zzvs.W.Net.Via, m.host+">"+m.to)
			zzvs.Go("pass", func() {
				zzvs.SetHost(m.host)
				d, err := zzvs.NetDial("tcp", m.to)
				if err != nil {
					c.Close()
					return
				}
				m.conns = append(m.conns, c, d)
				zzvs.Go("pass", func() { m.pump(c, d, m.up) })
				m.pump(d, c, m.down)
			})
		}
	})
	zzvs.Await("middle", func() bool { return Listening(stranger, m.port) })
}

func (m *middle) pump(from, to net.Conn, repeats bool) {
	var past []byte
	buf := make([]byte, 4096)
	for {
		n, err := from.Read(buf)
		if err != nil {
			to.Close()
			return
		}
		m.passed++
		d := append([]byte{}, buf[:n]...)
		if repeats && m.mode == "garbled" {
			if m.at >= 0 && m.at < n {
				d = append(append(d[:m.at:m.at], m.change(d[m.at])...), d[m.at+1:]...)
				m.hit = true
			}
			m.at -= n
		}
		to.Write(d)
		if !repeats {
			continue
		}
		// not for ever, as it makes for more to be sent and repeated
		if past = append(past, d...); len(past) > 2000 || m.passed > 40 {
			continue
		}
		switch m.mode {
		case "doubled":
			to.Write(d)
		case "history":
			to.Write(past)
		case "late":
			zzvs.Go("late", func() {
				zzvs.Sleep(300 * time.Millisecond)
				if !m.over {
					to.Write(d)
				}
			})
		}
	}
}

func (m *middle) stop() {
	m.over = true
	for _, c := range m.conns {
		c.Close()
	}
}

// repeats: what a hub and a dock, or two docks, say to each other reaches them more than once; the others
// do not notice, and neither do they once they are connected to each other without that.
func repeats(link, mode string, up, down bool) Maker {
	return func() (func(), func(w *zzvs.World)) {
		m := &middle{port: 20001, mode: mode, up: up, down: down}
		a, b, c := &Feat{Id: caller}, &Feat{Id: provider}, &Feat{Id: other}
		mine, theirs, later := &Calls{}, &Calls{}, &Calls{}
		body := func() {
			zzvs.W.Net.Via = map[string]string{}
			Hub()
			m.host, m.to = Host(2), HubAddr
			switch link {
			case "provider-hub":
				m.host = Host(1)
			case "docks":
				m.to = Host(1) + ":20001"
			}
			m.start()
			b.EchoWork = func(int) { zzvs.Sleep(200 * time.Millisecond) }
			Dock(Host(1), "p", carry(b))
			Up(Host(1))
			Dock(Host(3), "c", carry(c))
			Dock(Host(2), "a", carry(a))
			Up(Host(2))
			zzvs.Await("up", func() bool { return c.Slot != nil && a.Slot != nil })
			zzvs.Go("call", func() { mine.Echo(a.Slot, caller, provider, 1, "mine") })
			zzvs.Go("call", func() { mine.Echo(a.Slot, caller, provider, 2, "mine") })
			zzvs.Go("call", func() { theirs.Echo(c.Slot, other, provider, 3, "theirs") })
			zzvs.Settle()
			zzvs.Sleep(2 * time.Second)
			zzvs.Settle()
			theirs.Echo(c.Slot, other, provider, 4, "theirs")
			if link == "docks" {
				m.stop()
				zzvs.Settle()
				later.Echo(a.Slot, caller, provider, 5, "later")
			}
			Dock(Host(4), "new", carry(&Feat{Id: "new", OnUp: func(s ferry.ISlot) {
				zzvs.Go("call", func() { later.Echo(s, "new", provider, 6, "later") })
				zzvs.Go("call", func() { later.Echo(s, "new", caller, 7, "later") })
			}}))
		}
		return body, func(w *zzvs.World) {
			if m.passed == 0 {
				zzvs.Fail("harness", "nothing passed the middle")
			}
			for _, f := range []*Feat{a, b, c} {
				if f.Started != 1 {
					zzvs.Fail("started", "%s was started %d times", f.Id, f.Started)
				}
			}
			mine.Made(2)
			theirs.Made(2)
			for _, x := range append(append([]*Call{}, theirs.L...), later.L...) {
				f := map[string]*Feat{provider: b, caller: a}[x.Name]
				if g := x.Good(f.Id); g != "" {
					zzvs.Fail("outcome", "%s: %s", x.Desc(), g)
				}
				if n := f.Count(x.Exec()); n != 1 {
					zzvs.Fail("executions", "%s was executed %d times", x.Desc(), n)
				}
			}
			if link == "docks" {
				later.Made(3)
			} else {
				later.Made(2)
			}
			for _, x := range mine.L {
				if g := x.Good(b.Id); g != "" {
					zzvs.Fail("outcome", "%s: %s", x.Desc(), g)
				}
			}
			w.Outcome = mine.Outcome(b)
		}
	}
}

// garbled: one byte of what two docks say to each other, or a dock to the hub, arrives changed. Their calls
// may go wrong, but they and all others go on.
func garbled(link string, up bool, changes []func(byte) []byte) Maker {
	return func() (func(), func(w *zzvs.World)) {
		m := &middle{port: 20001, mode: "garbled", up: up, down: !up}
		a, b, c, d := &Feat{Id: caller}, &Feat{Id: provider}, &Feat{Id: other}, &Feat{Id: "provider-D"}
		mine, theirs, later := &Calls{}, &Calls{}, &Calls{}
		body := func() {
			m.at, m.change = zzvs.W.Part/len(changes), changes[zzvs.W.Part%len(changes)]
			zzvs.W.Doing = fmt.Sprintf("changing byte %d", m.at)
			zzvs.W.Net.Via = map[string]string{}
			Hub()
			Dock(Host(5), "d", carry(d))
			Up(Host(5))
			Dock(Host(3), "c", carry(c))
			Up(Host(3))
			m.host, m.to = Host(2), HubAddr
			if link == "docks" {
				m.to = Host(1) + ":20001"
			}
			m.start()
			Dock(Host(1), "p", carry(b))
			Up(Host(1))
			Dock(Host(2), "a", carry(a))
			zzvs.Settle()
			if a.Slot != nil {
				zzvs.Go("call", func() { mine.Echo(a.Slot, caller, provider, 1, "mine") })
				zzvs.Go("call", func() { mine.Note(a.Slot, caller, provider, 2) })
			}
			theirs.Echo(c.Slot, other, "provider-D", 3, "theirs")
			theirs.Echo(c.Slot, other, provider, 4, "theirs")
			zzvs.Settle()
			zzvs.Sleep(2 * time.Second)
			m.stop()
			zzvs.Settle()
			zzvs.Sleep(2 * time.Second)
			zzvs.Settle()
			if link == "docks" {
				for _, x := range mine.L {
					if !x.Returned {
						zzvs.Fail("outcome", "%s did not return when the connection was lost", x.Desc())
					}
				}
				later.Echo(a.Slot, caller, provider, 5, "later")
			}
			Dock(Host(4), "new", carry(&Feat{Id: "new", OnUp: func(s ferry.ISlot) {
				zzvs.Go("call", func() { later.Echo(s, "new", provider, 6, "later") })
			}}))
		}
		return body, func(w *zzvs.World) {
			for _, f := range []*Feat{a, b, c, d} {
				if f.Started != 1 && (f != a || link == "docks") || f.Started > 1 {
					zzvs.Fail("started", "%s was started %d times", f.Id, f.Started)
				}
			}
			theirs.Made(2)
			if link == "docks" {
				later.Made(2)
			} else {
				later.Made(1)
			}
			for _, x := range append(append([]*Call{}, theirs.L...), later.L...) {
				f := map[string]*Feat{provider: b, d.Id: d}[x.Name]
				if g := x.Good(f.Id); g != "" {
					zzvs.Fail("outcome", "%s: %s", x.Desc(), g)
				}
				if n := f.Count(x.Exec()); n != 1 {
					zzvs.Fail("executions", "%s was executed %d times", x.Desc(), n)
				}
			}
			w.Outcome = fmt.Sprint(m.hit, mine.Outcome(b))
		}
	}
}

func main() {
	var scs []*zzvs.Scenario
	far := func(w *zzvs.World) { w.MaxSteps = 1 << 30 }
	add := func(name string, parts int, thorough bool, mk Maker) {
		q := 0
		if thorough {
			q = -1
		}
		scs = append(scs, &zzvs.Scenario{Name: name, Quick: q, Thorough: 0, Parts: parts, New: mk, Config: far})
	}
	add("replaced", 48, false, each(replaced(false), 48, false, false))
	add("cut", 24, false, each(cut, 24, false, false))
	add("garbage", 24, false, each(garbage, 24, false, false))
	add("garbage-stays", 24, false, each(garbage, 24, false, true))
	add("dialed-cut", 16, false, fakeProvider(cut, 16))
	add("dialed-garbage", 16, false, fakeProvider(garbage, 16))
	for i := 0; i < 7; i++ {
		scs = append(scs, &zzvs.Scenario{Name: fmt.Sprint("meanwhile-", i), Quick: 2, Thorough: 3, New: meanwhile(i, false)},
			&zzvs.Scenario{Name: fmt.Sprint("meanwhile-early-", i), Quick: 2, Thorough: 3, New: meanwhile(i, true)})
	}
	for _, link := range []string{"docks", "caller-hub", "provider-hub"} {
		for _, mode := range []string{"doubled", "history", "late"} {
			for k, way := range []string{"down", "up", "both"} {
				scs = append(scs, &zzvs.Scenario{Name: fmt.Sprint(link, "-", mode, "-", way), Quick: 1, Thorough: 2, New: repeats(link, mode, k > 0, k != 1)})
				if link == "docks" && mode == "history" && k == 2 {
					scs[len(scs)-1].Thorough = 1
				}
			}
		}
	}
	changes := []func(byte) []byte{func(byte) []byte { return nil }, func(b byte) []byte { return []byte{b, b} }}
	for _, v := range []byte{0, 1, 2, 8, 0x7f, 0x80, 0xff} {
		v := v
		changes = append(changes, func(byte) []byte { return []byte{v} })
	}
	for _, v := range []byte{1, 2, 0x80, 0x10} {
		v := v
		changes = append(changes, func(b byte) []byte { return []byte{b ^ v} })
	}
	for v := -2; v < 3; v++ {
		v := byte(v)
		changes = append(changes, func(b byte) []byte { return []byte{b + v} })
	}
	add("garbled-docks-down", 300*len(changes), false, garbled("docks", false, changes))
	add("garbled-docks-up", 300*len(changes), false, garbled("docks", true, changes))
	add("garbled-hub-up", 150*len(changes), false, garbled("hub", true, changes))
	add("typed-2", 200, false, each(typed(2), 200, false, false))
	add("short-2", 200, false, each(short(2), 200, false, false))
	add("short-2-one-connection", 200, false, each(short(2), 200, true, false))
	add("dialed-typed-2", 100, false, fakeProvider(typed(2), 100))
	add("dialed-short-2", 100, false, fakeProvider(short(2), 100))
	add("typed-3", 2000, true, each(typed(3), 2000, false, false))
	add("replaced-all", 400, true, each(replaced(true), 400, false, false))
	zzvs.Main("C23", scs, []string{"a stranger that announces a feature well-formedly is a dock like any other, until it's gone"})
}
