package hk

import (
	"fmt"
	"sort"
	"strings"

	"github.com/muguangyi/ferry/network"
	"github.com/muguangyi/ferry/zzvs"
)

// Msg is what the socket harnesses send.
type Msg struct {
	From string
	Seq  int
	Size int
	Bad  string
}

// Bytes is the message on the wire: a length, who sent it and which one it is, and a body made from
// these.
func (m *Msg) Bytes() []byte {
	head := fmt.Sprintf("%s.%d.%d:", m.From, m.Seq, m.Size)
	b := make([]byte, 4+len(head)+m.Size)
	n := len(b) - 4
	b[0], b[1], b[2], b[3] = byte(n>>24), byte(n>>16), byte(n>>8), byte(n)
	copy(b[4:], head)
	for i := 0; i < m.Size; i++ {
		b[4+len(head)+i] = m.body(i)
	}
	return b
}

func (m *Msg) body(i int) byte { return byte(i*7 + m.Seq*31 + m.Size + i/251) }

// LenSer frames messages by length. An empty frame is the empty message.
type LenSer struct{}

func (LenSer) Marshal(obj interface{}) []byte {
	if m, ok := obj.(*Msg); ok {
		return m.Bytes()
	}
	return []byte{0, 0, 0, 0}
}

func (LenSer) Slice(b []byte) int {
	if len(b) < 4 {
		return 0
	}
	n := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
	if len(b) < 4+n {
		return 0
	}
	return 4 + n
}

func (LenSer) Unmarshal(b []byte) interface{} {
	if len(b) < 4 || (LenSer{}).Slice(b) != len(b) {
		return &Msg{Bad: fmt.Sprintf("a packet of %d bytes that is no whole frame", len(b))}
	}
	if len(b) == 4 {
		return "empty"
	}
	m := &Msg{}
	s := string(b[4:])
	i := strings.IndexByte(s, ':')
	if i < 0 {
		return &Msg{Bad: fmt.Sprintf("%q", short(s))}
	}
	p := strings.Split(s[:i], ".")
	if len(p) != 3 {
		return &Msg{Bad: fmt.Sprintf("%q", short(s))}
	}
	m.From = p[0]
	fmt.Sscan(p[1], &m.Seq)
	fmt.Sscan(p[2], &m.Size)
	body := s[i+1:]
	if len(body) != m.Size {
		m.Bad = fmt.Sprintf("%s: body of %d bytes", s[:i], len(body))
		return m
	}
	for i := 0; i < len(body); i++ {
		if body[i] != m.body(i) {
			m.Bad = fmt.Sprintf("%s.%d of %d bytes: byte %d differs", m.From, m.Seq, m.Size, i)
			break
		}
	}
	return m
}

func short(s string) string {
	if len(s) > 40 {
		return s[:40] + "..."
	}
	return s
}

// End is one endpoint of a connection as its sink sees it.
type End struct {
	Peer      network.IPeer
	Name      string // address of the other side
	Local     string
	Connected int
	Closed    int
	Got       []string // messages, "from.seq.size"
	GotTxt    []string
	At        []string // every callback in order
}

// Sink records callbacks by endpoint.
type Sink struct {
	Who      string
	Ends     []*End
	OnUp     func(e *End)
	OnDown   func(e *End)
	OnMsg    func(e *End, what string)
	LateMsgs int // packets after the disconnection
}

// End finds an endpoint.
func (s *Sink) End(p network.IPeer) *End {
	for _, e := range s.Ends {
		if e.Peer == p {
			return e
		}
	}
	e := &End{Peer: p, Name: p.RemoteAddr().String(), Local: p.LocalAddr().String()}
	s.Ends = append(s.Ends, e)
	return e
}

func (s *Sink) OnConnected(p network.IPeer) {
	e := s.End(p)
	e.Connected++
	e.At = append(e.At, "connected")
	zzvs.Eventf("%s connected %s", s.Who, e.Name)
	if s.OnUp != nil {
		s.OnUp(e)
	}
}

func (s *Sink) OnClosed(p network.IPeer) {
	e := s.End(p)
	e.Closed++
	e.At = append(e.At, "closed")
	zzvs.Eventf("%s closed %s", s.Who, e.Name)
	if s.OnDown != nil {
		s.OnDown(e)
	}
}

func (s *Sink) OnPacket(p network.IPeer, obj interface{}) {
	e := s.End(p)
	what := ""
	switch m := obj.(type) {
	case *Msg:
		if m.Bad != "" {
			zzvs.Fail("not intact", "%s received %s", s.Who, m.Bad)
		}
		what = fmt.Sprintf("%s.%d.%d", m.From, m.Seq, m.Size)
	case string:
		what = m
	default:
		what = fmt.Sprintf("%v", obj)
	}
	if e.Connected == 0 {
		zzvs.Fail("packet before connected", "%s received %s before it was told of the connection", s.Who, short(what))
	}
	e.Got = append(e.Got, what)
	e.At = append(e.At, "packet")
	zzvs.Eventf("%s got %s", s.Who, short(what))
	if s.OnMsg != nil {
		s.OnMsg(e, what)
	}
}

// Names is what was sent as Got has it.
func Names(from string, sizes ...int) []string {
	var out []string
	for i, n := range sizes {
		out = append(out, fmt.Sprintf("%s.%d.%d", from, i, n))
	}
	return out
}

// CheckGot compares what an endpoint received from each sender with what was sent to it.
func CheckGot(who string, e *End, sent map[string][]string) {
	by := map[string][]string{}
	for _, g := range e.Got {
		by[strings.Split(g, ".")[0]] = append(by[strings.Split(g, ".")[0]], g)
	}
	for f, want := range sent {
		if got := by[f]; strings.Join(got, " ") != strings.Join(want, " ") {
			zzvs.Fail("delivery", "%s sent %v, %s received %v of it", f, shorts(want), who, shorts(got))
		}
	}
	var others []string
	for f := range by {
		if _, ok := sent[f]; !ok {
			others = append(others, f)
		}
	}
	sort.Strings(others)
	if len(others) > 0 {
		zzvs.Fail("delivery", "%s received %v, which was not sent to it", who, shorts(by[others[0]]))
	}
}

func shorts(l []string) []string {
	var out []string
	for _, s := range l {
		out = append(out, short(s))
	}
	return out
}

// Serve makes a listening socket on a host (in its own goroutine) and waits until it listens.
func Serve(host, ser string, sink network.ISocketSink) network.ISocket {
	var s network.ISocket
	up := false
	zzvs.Go("server", func() {
		zzvs.SetHost(host)
		network.ExtendSerializer("len", LenSer{})
		s = network.NewSocket("0.0.0.0:7000", ser, sink)
		s.Listen()
		up = true
	})
	zzvs.Await("server", func() bool { return up })
	return s
}

// Client makes a socket for the server on a host.
func Client(host, ser string, sink network.ISocketSink) network.ISocket {
	network.ExtendSerializer("len", LenSer{})
	return network.NewSocket(host+":7000", ser, sink)
}

// On runs f on a host, in its own goroutine.
func On(host, name string, f func()) {
	zzvs.Go(name, func() {
		zzvs.SetHost(host)
		f()
	})
}
