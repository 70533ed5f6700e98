package zzverif

// Shared parts of the harnesses: a seeded source of inputs, the oracles (what
// JT/T 808 says, written without looking at the code under test) and helpers
// that report a failing input.

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
)

func init() {
	log.Logger = zerolog.Nop()
	go watch()
}

// watch ends a search that makes no progress: the code under test hangs.
//
//go:norace
func watch() {
	last, still := -1, 0
	for {
		time.Sleep(5 * time.Second)
		if cases != last {
			last, still = cases, 0
			continue
		}
		if still++; still == 20 {
			buf := make([]byte, 1<<16)
			fmt.Printf("FAILING INPUT: no progress for 100 s after case %d of this run; stacks:\n%s\n", last, buf[:runtime.Stack(buf, true)])
			os.Exit(3)
		}
	}
}

// debugLog switches the code paths that only run at debug level on or off.
func debugLog(on bool) {
	if on {
		log.Logger = zerolog.New(io.Discard).Level(zerolog.DebugLevel)
	} else {
		log.Logger = zerolog.Nop()
	}
}

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		n = 1
	}
	return n
}

func newRand() *rand.Rand { return rand.New(rand.NewSource(seed())) }

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// reps scales a number of cases with the tier.
func reps(n int) int {
	if thorough() {
		return n * 40
	}
	return n * 5
}

var cases int

// report prints how many cases a test ran.
func report(t *testing.T) {
	fmt.Printf("CASES %s %d\n", t.Name(), cases)
	cases = 0
}

func fail(t *testing.T, format string, a ...any) {
	t.Helper()
	t.Fatalf("FAILING INPUT: "+format, a...)
}

// try runs f and reports whether it panicked.
func try(f func()) (p any, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			p, panicked = r, true
		}
	}()
	f()
	return nil, false
}

// within fails when f does not return in time.
func within(t *testing.T, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	var p any
	go func() {
		defer close(done)
		p, _ = try(f)
	}()
	select {
	case <-done:
		if p != nil {
			fail(t, "%s: panics: %v", what, p)
		}
	case <-time.After(d):
		fail(t, "%s: does not return within %v", what, d)
	}
}

// ---- inputs ----

var specials = []byte{0x7e, 0x7d, 0x01, 0x02, 0x00, 0xff, 0x7f, 0x80}

func rbytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	k := r.Intn(4)
	for i := range b {
		switch {
		case k == 0 || k == 1 && r.Intn(3) == 0:
			b[i] = specials[r.Intn(len(specials))]
		case k == 2:
			b[i] = specials[r.Intn(4)]
		default:
			b[i] = byte(r.Intn(256))
		}
	}
	return b
}

func rlen(r *rand.Rand, max int) int {
	switch r.Intn(6) {
	case 0:
		return r.Intn(4)
	case 1:
		return max - r.Intn(2)
	case 2, 3:
		return r.Intn(min(max, 40) + 1)
	}
	return r.Intn(max + 1)
}

func ru16(r *rand.Rand) uint16 {
	switch r.Intn(4) {
	case 0:
		return [...]uint16{0, 1, 2, 255, 256, 0x7e7e, 0x7d02, 0x7fff, 0x8000, 0xfffe, 0xffff}[r.Intn(11)]
	case 1:
		return 1 << r.Intn(16)
	}
	return uint16(r.Intn(65536))
}

func ru32(r *rand.Rand) uint32 {
	switch r.Intn(4) {
	case 0:
		return [...]uint32{0, 1, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}[r.Intn(10)]
	case 1:
		return 1 << r.Intn(32)
	}
	return r.Uint32()
}

func rdigits(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte(r.Intn(10))
		if r.Intn(5) == 0 {
			b[i] = '0'
		}
	}
	if r.Intn(4) == 0 && n > 8 { // leading zeros
		for k := r.Intn(n - 7); k > 0; k-- {
			b[k-1] = '0'
		}
	}
	return string(b)
}

func rascii(r *rand.Rand, n int) string {
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_ ./abc"
	b := make([]byte, n)
	for i := range b {
		b[i] = abc[r.Intn(len(abc))]
	}
	return string(b)
}

// ---- oracles ----

func xorOf(b []byte) (x byte) {
	for _, v := range b {
		x ^= v
	}
	return
}

func escOf(b []byte) (o []byte) {
	for _, v := range b {
		switch v {
		case 0x7e:
			o = append(o, 0x7d, 2)
		case 0x7d:
			o = append(o, 0x7d, 1)
		default:
			o = append(o, v)
		}
	}
	return
}

// frameOf: what a serialised message looks like on the wire.
func frameOf(b []byte) []byte {
	o := []byte{0x7e}
	o = append(o, escOf(append(append([]byte{}, b...), xorOf(b)))...)
	return append(o, 0x7e)
}

// inner undoes the escapes of what is between the delimiters.
func inner(f []byte) (o []byte) {
	f = f[1 : len(f)-1]
	for i := 0; i < len(f); i++ {
		if f[i] == 0x7d && i+1 < len(f) && (f[i+1] == 1 || f[i+1] == 2) {
			o = append(o, 0x7c+f[i+1])
			i++
		} else {
			o = append(o, f[i])
		}
	}
	return
}

func be(n uint64, k int) []byte {
	o := make([]byte, k)
	for i := k - 1; i >= 0; i-- {
		o[i] = byte(n)
		n >>= 8
	}
	return o
}

func bcd(s string) []byte {
	if len(s) < 8 {
		s = strings.Repeat("f", 8-len(s)) + s
	}
	o := []byte{}
	for i := 0; i+1 < len(s); i += 2 {
		n, err := strconv.ParseUint(s[i:i+2], 16, 8)
		if err != nil {
			break
		}
		o = append(o, byte(n))
	}
	return o
}

// hd is a header as the standard lays it out.
type hd struct {
	id     uint16
	v2019  bool
	enc    uint8
	extra  uint8
	pv     uint8
	phone  string // 12 or 20 digits
	serial uint16
	frag   bool
	total  uint16
	index  uint16
}

func rhd(r *rand.Rand, id uint16) hd {
	h := hd{id: id, v2019: r.Intn(2) == 0, serial: ru16(r)}
	if h.v2019 {
		h.pv = uint8(r.Intn(256))
		h.phone = rdigits(r, 20)
	} else {
		h.phone = rdigits(r, 12)
	}
	return h
}

func (h hd) attr(n int) uint16 {
	a := uint16(n) | uint16(h.enc)<<10 | uint16(h.extra)<<15
	if h.frag {
		a |= 1 << 13
	}
	if h.v2019 {
		a |= 1 << 14
	}
	return a
}

// bytes of the header of a message with a body of n bytes
func (h hd) bytes(n int) []byte {
	o := append(be(uint64(h.id), 2), be(uint64(h.attr(n)), 2)...)
	if h.v2019 {
		o = append(o, h.pv)
	}
	o = append(o, bcd(h.phone)...)
	o = append(o, be(uint64(h.serial), 2)...)
	if h.frag {
		o = append(o, be(uint64(h.total), 2)...)
		o = append(o, be(uint64(h.index), 2)...)
	}
	return o
}

func (h hd) msg(body []byte) []byte { return append(h.bytes(len(body)), body...) }

// header makes the header value the server would have.
func (h hd) header() *model.MsgHeader {
	m := &model.MsgHeader{MsgID: h.id, ProtocolVersion: h.pv, PhoneNumber: h.phone, SerialNumber: h.serial,
		Attr: &model.MsgBodyAttr{Encryption: h.enc, Extra: h.extra, VersionDesc: model.Version2013}}
	if h.v2019 {
		m.Attr.VersionSign, m.Attr.VersionDesc = 1, model.Version2019
	}
	if h.frag {
		m.Attr.PacketFragmented, m.Attr.PacketFragmentedDesc = 1, true
		m.Frag = &model.MsgFragmentation{Total: h.total, Index: h.index}
	}
	return m
}

// ---- connections ----

// conn plays back a script of reads and records writes.
type conn struct {
	mu     sync.Mutex
	chunks [][]byte // what successive reads return
	rerr   error    // after the chunks
	out    []byte
	counts []int // how much successive writes accept; then everything
	werr   error // after the counts
	wgiven bool
	wfull  bool // the error may come with a complete write
	nw     int
	closed int
	addr   string
	onWr   func([]byte)
}

func (c *conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.chunks) > 0 && len(c.chunks[0]) == 0 {
		c.chunks = c.chunks[1:]
	}
	if len(c.chunks) == 0 {
		if c.rerr == nil {
			return 0, io.EOF
		}
		return 0, c.rerr
	}
	n := copy(p, c.chunks[0])
	c.chunks[0] = c.chunks[0][n:]
	return n, nil
}

func (c *conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.onWr != nil {
		c.onWr(p)
	}
	k := c.nw
	c.nw++
	if k < len(c.counts) {
		n := min(c.counts[k], len(p))
		c.out = append(c.out, p[:n]...)
		if (n < len(p) || c.wfull) && c.werr != nil && k == len(c.counts)-1 {
			c.wgiven = true
			return n, c.werr
		}
		return n, nil
	}
	if c.werr != nil {
		c.wgiven = true
		return 0, c.werr
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

func (c *conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closed++
	return nil
}
func (c *conn) LocalAddr() net.Addr                { return addr("local") }
func (c *conn) RemoteAddr() net.Addr               { return addr(c.addr) }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func sessCtx(s *model.Session) context.Context {
	return context.WithValue(context.Background(), model.SessionCtxKey{}, s)
}

// raw is a message with a given serialisation.
type raw struct {
	b   []byte
	err error
	h   *model.MsgHeader
	n   int // how often it was serialised
}

func (m *raw) Decode(*model.PacketData) error     { return nil }
func (m *raw) Encode() ([]byte, error)            { m.n++; return m.b, m.err }
func (m *raw) GetHeader() *model.MsgHeader        { return m.h }
func (m *raw) GenOutgoing(_ model.JT808Msg) error { return nil }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
