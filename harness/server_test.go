package zzverif

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/gin-gonic/gin"

	"github.com/fakeyanss/jt808-server-go/internal/api"
	"github.com/fakeyanss/jt808-server-go/internal/config"
	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/server"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/pkg/routines"
)

const patience = 40 * time.Second // nothing waits this long unless it never happens

// ---- a server on the loopback interface ----

func freePort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return ""
	}
	defer l.Close()
	_, p, _ := net.SplitHostPort(l.Addr().String())
	return p
}

func startServer(t *testing.T) (*server.TCPServer, string) {
	for k := 0; k < 20; k++ {
		a := "127.0.0.1:" + freePort()
		s := server.NewTCPServer()
		if s.Listen(a) == nil {
			go s.Start()
			return s, a
		}
	}
	t.Skip("no port to listen on")
	return nil, ""
}

// client is a terminal.
type client struct {
	c     *net.TCPConn
	id    string // the session's id
	h     hd
	plate string
	buf   []byte
}

func dial(t *testing.T, a string, r *rand.Rand) *client {
	c, err := net.DialTimeout("tcp", a, patience)
	if err != nil {
		t.Skip("cannot connect: ", err)
	}
	k := &client{c: c.(*net.TCPConn), id: c.LocalAddr().String(), h: rhd(r, 0), plate: "P" + rdigits(r, 9)}
	return k
}

func (k *client) hd(id uint16) hd {
	h := k.h
	k.h.serial++
	h.id = id
	return h
}

func (k *client) send(b []byte) { k.c.Write(b) }

// frame reads the next frame the server sends; nil when the connection ends or nothing comes.
func (k *client) frame(d time.Duration) []byte {
	k.c.SetReadDeadline(time.Now().Add(d))
	b := make([]byte, 4096)
	for {
		if i := bytes.IndexByte(k.buf, 0x7e); i >= 0 {
			if j := bytes.IndexByte(k.buf[i+1:], 0x7e); j >= 0 {
				f := k.buf[i : i+j+2]
				k.buf = k.buf[i+j+2:]
				return f
			}
		}
		n, err := k.c.Read(b)
		k.buf = append(k.buf, b[:n]...)
		if err != nil {
			return nil
		}
	}
}

// closed reports whether the server closes the connection in time.
func (k *client) closed(d time.Duration) bool {
	k.c.SetReadDeadline(time.Now().Add(d))
	b := make([]byte, 4096)
	for {
		_, err := k.c.Read(b)
		if err != nil {
			var ne net.Error
			return !(errors.As(err, &ne) && ne.Timeout())
		}
	}
}

// served: a registration (of an unknown or a known device) and a location report are answered.
func (k *client) served(r *rand.Rand, d time.Duration) (string, bool) {
	h := k.hd(0x0100)
	k.send(frameOf(h.msg(regBody(r, h, rascii(r, 6), k.plate))))
	f := k.frame(d)
	if f == nil {
		return "a registration is not answered", false
	}
	if in := inner(f); len(in) < 2 || in[0] != 0x81 || in[1] != 0 {
		return fmt.Sprintf("a registration is answered with %x", f), false
	}
	h = k.hd(0x0200)
	k.send(frameOf(h.msg(geoBody(r, 2))))
	f = k.frame(d)
	if f == nil {
		return "a location report is not answered", false
	}
	if in := inner(f); len(in) < 2 || in[0] != 0x80 || in[1] != 1 {
		return fmt.Sprintf("a location report is answered with %x", f), false
	}
	return "", true
}

func (k *client) cleanup() {
	k.c.Close()
	cancelJobs(k.h.phone)
	devs.DelDeviceByPhone(k.h.phone)
}

func found(id string) *model.Session {
	s, err := storage.GetSession(id)
	if err != nil {
		return nil
	}
	return s
}

func eventually(d time.Duration, f func() bool) bool {
	for t0 := time.Now(); time.Since(t0) < d; time.Sleep(3 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

// ended: the session is forgotten and its connection closed.
func ended(t *testing.T, what string, k *client, s *model.Session) {
	t.Helper()
	if !eventually(patience, func() bool { return found(k.id) != s }) {
		fail(t, "%s: the session is still found", what)
	}
	if x := found(k.id); x != nil {
		return // the port was used again
	}
	if !eventually(patience, func() bool { return errors.Is(s.Conn.SetDeadline(time.Time{}), net.ErrClosed) }) {
		fail(t, "%s: the connection is not closed", what)
	}
}

// ---- C20 ----

type boom struct{ x int }

// inChild runs f in a process of its own; the parent reports how it ended.
func inChild(t *testing.T, name string, f func()) {
	if os.Getenv("VERIF_CHILD") == name {
		f()
		fmt.Println("CHILD DONE")
		os.Exit(0)
	}
	if os.Getenv("VERIF_CHILD") != "" {
		return
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^"+t.Name()+"$")
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+name)
	out, err := cmd.CombinedOutput()
	s := string(out)
	cases++
	if strings.Contains(s, "FAILING INPUT") {
		fail(t, "%s: %s", name, tail(s))
	}
	if err != nil && strings.Contains(s, "panic: ") && !strings.Contains(s, "test timed out") {
		fail(t, "%s: the panic ends the process\n%s", name, tail(s))
	}
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

func panics() map[string]func() {
	var m map[string]int
	var p *boom
	return map[string]func(){
		"panic with a string":       func() { panic("boom") },
		"panic with an error":       func() { panic(errors.New("boom")) },
		"panic with a struct":       func() { panic(boom{1}) },
		"panic with a nil pointer":  func() { panic(p) },
		"nil map write":             func() { m["a"] = 1 },
		"nil dereference":           func() { p.x = 1 },
		"index out of range":        func() { b := make([]byte, len(m)); b[len(os.Args)] = 1 },
		"panic in a deferred call":  func() { defer func() { panic("second") }(); panic("first") },
		"panic with io.EOF":         func() { panic(io.EOF) },
		"panic with net.ErrClosed":  func() { panic(net.ErrClosed) },
		"panic with a fatal error":  func() { panic(errors.New("fatal")) },
		"panic with fatal":          func() { panic("fatal") },
		"panic with cancelled":      func() { panic(context.Canceled) },
		"panic with a wrapped one":  func() { panic(fmt.Errorf("x: %w", io.ErrUnexpectedEOF)) },
		"panic with a number":       func() { panic(0) },
		"panic with an empty error": func() { panic(errors.New("")) },
		"panic with nothing":        func() { panic("") },
		"panic with a timeout":      func() { panic(os.ErrDeadlineExceeded) },
		"panic with a function":     func() { panic(func() {}) },
		"panic with an abort":       func() { panic(http.ErrAbortHandler) },
		"type assertion":            func() { var a interface{} = 1; _ = a.(string) },
		"division by zero":          func() { _ = 1 / len(m) },
		"closed channel":            func() { c := make(chan int); close(c); close(c) },
		"deep panic": func() {
			var f func(int)
			f = func(n int) {
				if n == 0 {
					panic("deep")
				}
				f(n - 1)
			}
			f(5000)
		},
	}
}

func TestVerifC20(t *testing.T) {
	for name, f := range panics() {
		f := f
		inChild(t, "GoSafe: "+name, func() {
			done := make(chan bool, 1)
			routines.GoSafe(func() {
				defer func() { done <- true }()
				f()
			})
			<-done
			time.Sleep(30 * time.Millisecond)
		})
		cases++
		ran := false
		if p, bad := try(func() { routines.RunSafe(func() { ran = true; f() }) }); bad {
			fail(t, "RunSafe with %s panics: %v", name, p)
		}
		if !ran {
			fail(t, "RunSafe does not run its function")
		}
		for n := 0; n < 4; n++ {
			var got []int
			var cl []func()
			for i := 0; i < n; i++ {
				i := i
				cl = append(cl, func() { got = append(got, i) })
			}
			if p, bad := try(func() {
				defer routines.Recover(cl...)
				f()
			}); bad {
				fail(t, "Recover with %d cleanups and %s: the panic goes on: %v", n, name, p)
			}
			if len(got) != n {
				fail(t, "Recover with %d cleanups and %s runs cleanups %v", n, name, got)
			}
			got = nil
			try(func() { defer routines.Recover(cl...) })
			if len(got) != n {
				fail(t, "Recover with %d cleanups and no panic runs cleanups %v", n, got)
			}
		}
	}
	inChild(t, "malformed messages", func() {
		r := newRand()
		_, a := startServer(t)
		good := dial(t, a, r)
		if why, ok := good.served(r, patience); !ok {
			fail(t, "before anything went wrong, %s", why)
		}
		type bad struct {
			k    *client
			what string
			f    []byte
			s    *model.Session
		}
		var bads []bad
		for _, id := range []uint16{0x0001, 0x0002, 0x0003, 0x0100, 0x0102, 0x0104, 0x0200, 0x1205, 0x8001, 0x8100, 0x8103, 0x8104, 0x9205} {
			for _, n := range []int{0, 1, 3, 9} {
				k := dial(t, a, r)
				h := k.hd(id)
				body := rbytes(r, n)
				bads = append(bads, bad{k: k, what: fmt.Sprintf("message %#04x with body %x", id, body), f: frameOf(h.msg(body))})
			}
		}
		for _, raw := range [][]byte{{0x7e, 0x7e}, {0x7e, 1, 0x7e}, {0x7e, 0, 0, 0x7e}, {0x7e, 0x7d, 0x7e}, frameOf([]byte{0}), frameOf([]byte{1, 2, 3})} {
			bads = append(bads, bad{k: dial(t, a, r), what: fmt.Sprintf("frame %x", raw), f: raw})
		}
		for i := range bads {
			b := &bads[i]
			if !eventually(patience, func() bool { b.s = found(b.k.id); return b.s != nil }) {
				fail(t, "a connection is accepted but no session is stored")
			}
			b.k.send(b.f)
		}
		if why, ok := good.served(r, patience); !ok {
			fail(t, "after %d malformed messages on other connections, %s on a healthy one", len(bads), why)
		}
		// what is left of each: either it is served, or it is closed and forgotten
		var wg sync.WaitGroup
		var mu sync.Mutex
		var fails []string
		for i := range bads {
			b := bads[i]
			rr := rand.New(rand.NewSource(int64(i)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				if b.k.closed(3 * time.Second) {
					if !eventually(patience, func() bool { return found(b.k.id) != b.s }) {
						mu.Lock()
						fails = append(fails, b.what+": the connection is closed but its session is still found")
						mu.Unlock()
					}
					return
				}
				if why, ok := b.k.served(rr, patience); !ok {
					mu.Lock()
					fails = append(fails, b.what+": the connection stays open, but "+why)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if len(fails) > 0 {
			fail(t, "%s", strings.Join(fails, "; "))
		}
		fresh := dial(t, a, r)
		if why, ok := fresh.served(r, patience); !ok {
			fail(t, "after malformed messages on other connections, %s on a new one", why)
		}
	})
	report(t)
}

// ---- C21 ----

func TestVerifC21(t *testing.T) {
	r := newRand()
	serv, a := startServer(t)
	defer serv.Stop()
	type live struct {
		k *client
		s *model.Session
	}
	start := func(serve bool) live {
		t.Helper()
		k := dial(t, a, r)
		var s *model.Session
		if serve {
			if why, ok := k.served(r, patience); !ok {
				fail(t, "%s on a new connection", why)
			}
			if s = found(k.id); s == nil {
				fail(t, "a connection is served but no session is found under its address")
			}
		} else if !eventually(patience, func() bool { s = found(k.id); return s != nil }) {
			fail(t, "a connection is accepted but no session is stored")
		}
		if s.ID != k.id || s.Conn == nil || s.Conn.RemoteAddr().String() != k.id {
			fail(t, "the session of %s has id %q and another connection", k.id, s.ID)
		}
		cases++
		return live{k, s}
	}
	bystander := start(true)
	okay := func(l live, what string) {
		t.Helper()
		if found(l.k.id) != l.s {
			fail(t, "%s: the session of another connection is gone", what)
		}
	}
	ends := []struct {
		what  string
		serve bool
		f     func(l live)
	}{
		{"the terminal closes an idle connection", false, func(l live) { l.k.c.Close() }},
		{"the terminal closes after a few messages", true, func(l live) { l.k.c.Close() }},
		{"the terminal closes in the middle of a frame", true, func(l live) { l.k.send([]byte{0x7e, 1, 2}); l.k.c.Close() }},
		{"the terminal closes its sending side", true, func(l live) { l.k.c.CloseWrite() }},
		{"the terminal resets the connection", true, func(l live) { l.k.c.SetLinger(0); l.k.c.Close() }},
		{"the connection is closed from the server's side", true, func(l live) { l.s.Conn.Close() }},
		{"a heartbeat of an unregistered device", false, func(l live) { h := l.k.hd(0x0002); l.k.send(frameOf(h.msg(nil))) }},
		{"a location of an unregistered device", false, func(l live) { h := l.k.hd(0x0200); l.k.send(frameOf(h.msg(geoBody(r, 2)))) }},
		{"an authentication of an unregistered device", false, func(l live) {
			h := l.k.hd(0x0102)
			l.k.send(frameOf(h.msg(authBody(h, "123", rdigits(r, 15), "v1"))))
		}},
		{"a logout of an unregistered device", false, func(l live) { h := l.k.hd(0x0003); l.k.send(frameOf(h.msg(nil))) }},
	}
	for _, e := range ends {
		l := start(e.serve)
		e.f(l)
		ended(t, e.what, l.k, l.s)
		if e.what[:5] != "the t" {
			if !l.k.closed(patience) {
				fail(t, "%s: the terminal's connection stays open", e.what)
			}
		}
		okay(bystander, e.what)
		l.k.cleanup()
	}
	// an address that was used before
	for k := 0; k < 3; k++ {
		probe, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			break
		}
		old := probe.Addr().(*net.TCPAddr)
		probe.Close()
		stale := &model.Session{ID: old.String(), Conn: &conn{addr: old.String()}}
		storage.StoreSession(stale)
		c, err := (&net.Dialer{LocalAddr: old}).Dial("tcp", a)
		if err != nil {
			storage.ClearSession(stale.ID)
			continue
		}
		cases++
		if !eventually(patience, func() bool { s := found(stale.ID); return s != nil && s != stale }) {
			fail(t, "a connection from an address with an old session: the session found there is still the old one")
		}
		s := found(stale.ID)
		if s == nil || s.Conn.RemoteAddr().String() != stale.ID {
			fail(t, "a connection from an address with an old session: the session is %+v", s)
		}
		c.Close()
		if !eventually(patience, func() bool { return found(stale.ID) == nil }) {
			fail(t, "a connection from an address with an old session is closed: a session is still found there")
		}
	}
	// serving goes on after other errors
	slow := start(true)
	for k := 0; k < 2; k++ {
		slow.s.Conn.SetReadDeadline(time.Now())
		time.Sleep(50 * time.Millisecond)
		slow.s.Conn.SetReadDeadline(time.Time{})
		if why, ok := slow.k.served(r, patience); !ok {
			fail(t, "after a read that timed out %s", why)
		}
		okay(slow, "a read times out")
	}
	slow.k.cleanup()
	goes := map[string]func(k *client) []byte{
		"a bad checksum":          func(k *client) []byte { h := k.hd(2); f := frameOf(h.msg(nil)); f[1] ^= 1; return f },
		"an empty frame":          func(k *client) []byte { return []byte{0x7e, 0x7e} },
		"an unknown message":      func(k *client) []byte { h := k.hd(0x0f0f); return frameOf(h.msg([]byte{1})) },
		"another unknown message": func(k *client) []byte { h := k.hd(0x8300); return frameOf(h.msg([]byte("hi"))) },
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var fails []string
	i := int64(0)
	for what, f := range goes {
		for n := 1; n <= 2; n++ {
			l, f, what, n := start(false), f, what, n
			i++
			rr := rand.New(rand.NewSource(i))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < n; j++ {
					l.k.send(f(l.k))
				}
				if why, ok := l.k.served(rr, patience); !ok {
					mu.Lock()
					fails = append(fails, fmt.Sprintf("after %s (%d times) %s", what, n, why))
					mu.Unlock()
				} else if found(l.k.id) != l.s {
					mu.Lock()
					fails = append(fails, fmt.Sprintf("after %s the session is gone although the connection is served", what))
					mu.Unlock()
				}
				l.k.cleanup()
			}()
		}
	}
	wg.Wait()
	if len(fails) > 0 {
		fail(t, "%s", strings.Join(fails, "; "))
	}
	okay(bystander, "at the end")
	if why, ok := bystander.k.served(r, patience); !ok {
		fail(t, "%s on the first connection", why)
	}
	bystander.k.cleanup()
	// sending to a session that is gone does nothing
	within(t, patience, "Send to no session", func() { serv.Send("nobody", &raw{b: []byte{1}}) })
	// a connection found closed while sending is given up
	for _, e := range []error{net.ErrClosed, io.ErrClosedPipe, fmt.Errorf("wrapped: %w", net.ErrClosed)} {
		c := &conn{addr: "c21", werr: e}
		s := &model.Session{ID: "c21", Conn: c}
		storage.StoreSession(s)
		within(t, patience, "Send on a closed connection", func() { serv.Send("c21", &raw{b: []byte{1}}) })
		if found("c21") != nil || c.closed == 0 {
			fail(t, "sending fails with %v: session found %v, connection closed %d times", e, found("c21") != nil, c.closed)
		}
		cases++
	}
	report(t)
}

// ---- C22 ----

var errOdd = errors.New("odd")

// oddErr: an error a connection may report, none of which says it is closed
func oddErr(r *rand.Rand) error {
	return []error{errOdd, os.ErrDeadlineExceeded, &net.OpError{Op: "op", Net: "tcp", Err: os.ErrDeadlineExceeded}, io.ErrShortWrite, io.ErrUnexpectedEOF, io.ErrNoProgress,
		syscall.ECONNRESET, syscall.EPIPE, syscall.EAGAIN, context.Canceled, context.DeadlineExceeded, errors.New(""), fmt.Errorf("wrapped: %w", io.ErrShortWrite)}[r.Intn(13)]
}

func TestVerifC22(t *testing.T) {
	history(t, 40, 30, func(w *world, r *rand.Rand) {
		s := w.sess[r.Intn(len(w.sess))]
		h := w.hd(r, []uint16{0x0001, 0x0002, 0x0100, 0x0200, 0x8104, 0x0102, 0x0f00, 0x9205, 0x8100, 0x0003, 0x8103}[r.Intn(11)])
		var body []byte
		answers := uint16(0x8001)
		known := dev(h.phone) != nil
		switch h.id {
		case 0x0001:
			body, answers = rbytes(r, 5), 0
		case 0x0100:
			body, answers = regBody(r, h, rascii(r, 6), w.plates[r.Intn(len(w.plates))]), 0x8100
		case 0x0102:
			body = authBody(h, "x", rdigits(r, 15), "v")
		case 0x0200:
			body = geoBody(r, 2)
		case 0x8100:
			body, answers = cat(rbytes(r, 2), []byte{0}, []byte("12")), 0x0102
		case 0x8103:
			body, answers = []byte{0}, 0x0001
		case 0x8104:
			answers = 0x0104
		case 0x9205:
			body, answers = cat([]byte{1}, []byte{0x23, 1, 2, 3, 4, 5}, []byte{0x23, 1, 2, 3, 4, 6}, make([]byte, 11)), 0x1205
		}
		f := frameOf(h.msg(body))
		next := frameOf(hd{id: 0x0f01, phone: "123456789012"}.msg([]byte{1, 2}))
		c := &conn{chunks: [][]byte{cat(f, next)}, addr: s.ID}
		kind := r.Intn(5)
		errOdd := oddErr(r)
		switch kind {
		case 1:
			f[len(f)-2] ^= 0x10
			for f[len(f)-2] == 0x7e || f[len(f)-2] == 0x7d {
				f[len(f)-2] ^= 0x20
			}
			c.chunks = [][]byte{cat(f, next)}
		case 2:
			c.werr = errOdd
		case 3:
			c.chunks, c.rerr = [][]byte{f[:r.Intn(len(f))]}, errOdd
		}
		p := protocol.NewPipeline(c)
		before := w.snap()
		var err error
		cases++
		what := fmt.Sprintf("kind %d, message %#04x of phone %s (known %v), frame %x", kind, h.id, h.phone, known, f)
		ctx := sessCtx(s)
		if p, bad := try(func() { err = p.ProcessConnRead(ctx) }); bad {
			fail(t, "%s: panics: %v", what, p)
		}
		refused := !known && (h.id == 2 || h.id == 3 || h.id == 0x0102 || h.id == 0x0200)
		switch {
		case kind == 1 || kind == 3:
			if err == nil || len(c.out) > 0 || c.nw > 0 {
				fail(t, "%s: error %v, %x written", what, err, c.out)
			}
			if kind == 3 && !errors.Is(err, errOdd) {
				fail(t, "%s: the read error comes back as %v", what, err)
			}
			w.same(t, what, before, "", "")
		case h.id == 0x0f00:
			if !errors.Is(err, protocol.ErrMsgIDNotSupportted) || c.nw > 0 {
				fail(t, "%s: error %v, %x written", what, err, c.out)
			}
			w.same(t, what, before, "", "")
		case !known && h.id == 0x8100:
			if !errors.Is(err, protocol.ErrActiveClose) || c.nw > 0 {
				fail(t, "%s: error %v, %x written", what, err, c.out)
			}
		case refused:
			if !errors.Is(err, storage.ErrDeviceNotFound) || c.nw > 0 {
				fail(t, "%s: error %v, %x written", what, err, c.out)
			}
		case answers == 0:
			if err != nil || c.nw > 0 {
				fail(t, "%s: error %v, %x written", what, err, c.out)
			}
		case kind == 2:
			if !errors.Is(err, errOdd) || len(c.out) > 0 || c.nw != 1 {
				fail(t, "%s: the write error comes back as %v, %x written, %d writes", what, err, c.out, c.nw)
			}
		default:
			if err != nil {
				fail(t, "%s: error %v", what, err)
			}
			fr := cutter(c.out)
			if len(fr) != 1 || !bytes.Equal(fr[0], c.out) || len(fr[0]) < 6 {
				fail(t, "%s: %x written, not one frame", what, c.out)
			}
			if in := inner(fr[0]); in[0] != byte(answers>>8) || in[1] != byte(answers) || xorOf(in) != 0 {
				fail(t, "%s: answered with %x", what, c.out)
			}
		}
		if kind != 3 { // only this one frame was taken
			n := c.nw
			if p, bad := try(func() { err = p.ProcessConnRead(ctx) }); bad {
				fail(t, "%s: the next frame panics: %v", what, p)
			}
			if !errors.Is(err, protocol.ErrMsgIDNotSupportted) || c.nw != n {
				fail(t, "%s: the next frame (an unknown message) gives %v", what, err)
			}
		}
	})
	// sending on its own
	r := newRand()
	for i := 0; i < reps(2000); i++ {
		cases++
		b := rbytes(r, rlen(r, 60))
		c := &conn{}
		var pd *model.ProcessData
		m := &raw{b: b}
		kind := r.Intn(5)
		errOdd := oddErr(r)
		switch kind {
		case 0:
			m.err = errOdd
			pd = &model.ProcessData{Outgoing: m}
		case 1:
			pd = nil
		case 2:
			pd = &model.ProcessData{Incoming: m}
		case 3:
			c.werr = errOdd
			pd = &model.ProcessData{Outgoing: m}
		default:
			pd = &model.ProcessData{Outgoing: m}
		}
		var err error
		what := fmt.Sprintf("sending a message that serialises to %x (kind %d)", b, kind)
		p := protocol.NewPipeline(c)
		if p, bad := try(func() {
			err = p.ProcessConnWrite(context.WithValue(context.Background(), model.ProcessDataCtxKey{}, pd))
		}); bad {
			fail(t, "%s: panics: %v", what, p)
		}
		if m.n > 1 {
			fail(t, "%s: the message is serialised %d times", what, m.n)
		}
		switch kind {
		case 0:
			if !errors.Is(err, errOdd) || c.nw > 0 {
				fail(t, "%s fails to serialise: error %v, %x written", what, err, c.out)
			}
		case 1, 2:
			if err != nil || c.nw > 0 {
				fail(t, "%s has nothing to send: error %v, %x written", what, err, c.out)
			}
		case 3:
			if !errors.Is(err, errOdd) || c.nw != 1 {
				fail(t, "%s: the write error comes back as %v after %d writes", what, err, c.nw)
			}
		default:
			if err != nil || !bytes.Equal(c.out, frameOf(b)) {
				fail(t, "%s: error %v, %x written", what, err, c.out)
			}
		}
	}
	report(t)
}

// ---- C23 ----

func TestVerifC23(t *testing.T) {
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
	r := newRand()
	cfg := config.Load(config.DefaultServConfKey)
	port := freePort()
	cfg.Server.Port.HTTPPort = port
	serv := server.NewTCPServer()
	go api.Run(serv, cfg)
	base := "http://127.0.0.1:" + port
	cl := &http.Client{Timeout: patience}
	if !eventually(patience, func() bool {
		x, err := cl.Get(base + "/device")
		if err == nil {
			x.Body.Close()
		}
		return err == nil
	}) {
		t.Skip("the API does not come up")
	}
	type dv struct {
		d    *model.Device
		s    *model.Session
		c    *conn
		open bool
	}
	var all []*dv
	for i := 0; i < 8; i++ {
		v19 := i%2 == 0
		c := &conn{addr: fmt.Sprintf("10.1.0.%d:9", i)}
		d := &model.Device{ID: rascii(r, 5), Plate: "Q" + rdigits(r, 8), SessionID: c.addr, Phone: rdigits(r, 12), VersionDesc: model.Version2013}
		if v19 {
			d.Phone, d.VersionDesc, d.ProtocolVersion = rdigits(r, 20), model.Version2019, uint8(1+r.Intn(9))
		}
		v := &dv{d: d, c: c, s: &model.Session{ID: c.addr, Conn: c}, open: i%4 < 2}
		devs.CacheDevice(d)
		if v.open {
			storage.StoreSession(v.s)
		}
		all = append(all, v)
	}
	do := func(method, path, ct string, body []byte) (int, string) {
		q, _ := http.NewRequest(method, base+path, bytes.NewReader(body))
		if ct != "" {
			q.Header.Set("Content-Type", ct)
		}
		x, err := cl.Do(q)
		if err != nil {
			fail(t, "%s %s: %v", method, path, err)
		}
		defer x.Body.Close()
		b, _ := io.ReadAll(x.Body)
		return x.StatusCode, string(b)
	}
	sent := func() (n int) {
		for _, v := range all {
			n += v.c.nw
		}
		return
	}
	for i := 0; i < reps(240); i++ {
		cases++
		v := all[r.Intn(len(all))]
		phone, registered := v.d.Phone, true
		if r.Intn(4) == 0 {
			phone, registered = rdigits(r, 13), false
			switch r.Intn(4) {
			case 0:
				phone = v.d.Plate
			case 1:
				phone = v.d.Phone + "0"
			case 2:
				phone = v.d.Phone[1:]
			}
		}
		v.d.Status = model.DeviceStatus(r.Intn(3))
		v.d.LastestComTime = time.Now().Add(-time.Duration(r.Intn(100)) * time.Hour)
		serial := v.s.GetNextSerialNum() + 1 // the next one
		kind := r.Intn(4)
		method, path, ct := "GET", "/device/"+phone+"/params", ""
		var body []byte
		badbody := false
		var want []byte
		var items []map[string]any
		switch kind {
		case 0:
			path = "/device/" + phone + "/geo"
		case 1:
		default:
			method, ct = "PUT", "application/json"
			n := r.Intn(5)
			for j := 0; j < n; j++ {
				id := []uint32{0x0010, 0x0011, 0x0013, 0x0017}[j]
				val := rascii(r, 1+r.Intn(8))
				items = append(items, map[string]any{"ID": id, "ParamID": id, "ParamLen": len(val), "ParamValue": val})
				want = append(want, cat(be(uint64(id), 4), []byte{byte(len(val))}, []byte(val))...)
			}
			want = append([]byte{byte(n)}, want...)
			body = paramsJSON(items)
			if r.Intn(4) == 0 {
				badbody = true
				body = [][]byte{nil, []byte("{"), []byte("[]"), []byte("nonsense"), body[:len(body)-1-r.Intn(3)],
					append(body[:len(body)-2:len(body)-2], `,{"paramId":"1"}]}`...), append(body[:len(body)-2:len(body)-2], `,{"paramId":-1}]}`...),
					append(body[:len(body)-1:len(body)-1], `,"paramCnt":300}`...), append(body[:len(body)-1:len(body)-1], `,"params":{}}`...)}[r.Intn(9)]
			}
		}
		n := sent()
		broken := kind != 0 && r.Intn(6) == 0
		if broken {
			v.c.werr = oddErr(r) // the message is lost
			if r.Intn(3) == 0 {
				v.c.counts = []int{r.Intn(9)}
			}
		}
		code, answer := do(method, path, ct, body)
		v.c.werr, v.c.counts = nil, nil
		got := sent() - n
		what := fmt.Sprintf("%s %s %s (registered %v, session open %v)", method, path, body, registered, v.open)
		refused := !registered || kind != 0 && !v.open || badbody
		if refused {
			if code < 400 || code > 499 || got != 0 || answer == "" {
				fail(t, "%s: answered %d %s, %d messages sent", what, code, answer, got)
			}
			if strings.Count(answer, "\"err\"") != 1 {
				fail(t, "%s: answered %d %s", what, code, answer)
			}
			continue
		}
		if broken {
			if got != 1 || v.c.nw != 1 {
				fail(t, "%s: the connection refuses the message: it is written %d times", what, got)
			}
			v.c.nw, v.c.out = 0, nil
			continue
		}
		if kind == 0 {
			if code != 200 || got != 0 {
				fail(t, "%s: answered %d %s, %d messages sent", what, code, answer, got)
			}
			continue
		}
		if code != 200 || got != 1 || v.c.nw != 1 {
			fail(t, "%s: answered %d %s, %d messages sent, %d to its session", what, code, answer, got, v.c.nw)
		}
		h := hd{id: 0x8104, phone: v.d.Phone, v2019: v.d.VersionDesc == model.Version2019, pv: v.d.ProtocolVersion}
		if kind != 1 {
			h.id = 0x8103
		}
		in := inner(v.c.out)
		ser := 4 + len(bcd(h.phone))
		if h.v2019 {
			ser++
		}
		if len(in) > ser+2 {
			h.serial = uint16(in[ser])<<8 | uint16(in[ser+1])
		}
		if f := frameOf(h.msg(want)); !bytes.Equal(f, v.c.out) {
			fail(t, "%s: sends %x, wanted %x", what, v.c.out, f)
		}
		if h.serial != serial {
			fail(t, "%s: sent with serial number %d, the next one was %d", what, h.serial, serial)
		}
		if nx := v.s.GetNextSerialNum(); nx != h.serial+1 {
			fail(t, "%s: sent with serial number %d, but the next one is %d", what, h.serial, nx)
		}
		v.c.nw, v.c.out = 0, nil
	}
	for _, v := range all {
		devs.DelDeviceByPhone(v.d.Phone)
		storage.ClearSession(v.s.ID)
	}
	report(t)
}

// paramsJSON writes a parameter list the way the server itself would.
func paramsJSON(items []map[string]any) []byte {
	dp := model.DeviceParams{}
	for _, x := range items {
		dp.Params = append(dp.Params, &model.ParamData{ParamID: x["ParamID"].(uint32), ParamLen: uint8(x["ParamLen"].(int)), ParamValue: x["ParamValue"]})
	}
	dp.ParamCnt = uint8(len(items))
	b, _ := json.Marshal(dp)
	return b
}
