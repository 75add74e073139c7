// Package netlit interprets sequences of operations on the two ends of a connection.
package netlit

import (
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"time"
)

// Wait is how long a read waits.
var Wait = time.Millisecond

func class(err error) string {
	switch {
	case err == nil:
		return ""
	case err == io.EOF:
		return "EOF"
	case errors.Is(err, net.ErrClosed):
		return "closed"
	}
	if e, ok := err.(net.Error); ok && e.Timeout() {
		return "timeout"
	}
	for _, s := range []string{"broken pipe", "connection reset", "refused", "in use"} {
		if strings.Contains(err.Error(), s) {
			return s
		}
	}
	return err.Error()
}

// Run runs a sequence: d dials, c accepts; w r x write, read, close at the dialing end, W R X at the other;
// l closes the listener, L listens on the port again.
func Run(addr string, ops string) string {
	out := ""
	l, err := net.Listen("tcp", addr)
	if err != nil {
		return "listen: " + err.Error()
	}
	addr = l.Addr().String()
	var a, b net.Conn
	n := byte(0)
	for i := 0; i < len(ops); i++ {
		c := b
		if ops[i] > 'Z' {
			c = a
		}
		r := string(ops[i]) + ":"
		switch ops[i] {
		case 'd':
			c, err := net.Dial("tcp", addr)
			r += class(err)
			if err == nil {
				a = c
				defer c.Close()
			}
		case 'c':
			ch := make(chan net.Conn, 1)
			go func() {
				c, err := l.Accept()
				if err != nil {
					r += class(err)
				}
				ch <- c
			}()
			b = <-ch
			if b != nil {
				defer b.Close()
			}
		case 'l':
			r += class(l.Close())
		case 'L':
			x, err := net.Listen("tcp", addr)
			r += class(err)
			if err == nil {
				l = x
			}
		case 'w', 'W':
			if c == nil {
				break
			}
			n++
			k, err := c.Write([]byte{'0' + n})
			r += fmt.Sprint(k, class(err))
		case 'r', 'R':
			if c == nil {
				break
			}
			c.SetReadDeadline(time.Now().Add(Wait))
			buf := make([]byte, 8)
			k, err := c.Read(buf)
			r += string(buf[:k]) + class(err)
		case 'x', 'X':
			if c == nil {
				break
			}
			r += class(c.Close())
		}
		out += r + " "
	}
	l.Close()
	return out
}
