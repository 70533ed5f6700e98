package zzverif

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"testing"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
)

// all strings over a small alphabet, up to a length
func words(alpha []byte, n int, f func([]byte)) {
	var rec func(w []byte)
	rec = func(w []byte) {
		f(append([]byte{}, w...))
		if len(w) < n {
			for _, a := range alpha {
				rec(append(w, a))
			}
		}
	}
	rec(nil)
}

func encodeOK(t *testing.T, b []byte) {
	t.Helper()
	cases++
	keep := append([]byte{}, b...)
	// room behind the serialisation must not matter
	m := &raw{b: append(make([]byte, 0, len(b)+cases%9), b...)}
	if cases%16 == 0 && len(b) == 0 {
		m.b = nil
	}
	var f []byte
	var err error
	if p, bad := try(func() { f, err = protocol.NewJT808PacketCodec().Encode(m) }); bad {
		fail(t, "encoding a message serialised as %x panics: %v", keep, p)
	}
	if err != nil || !bytes.Equal(f, frameOf(keep)) {
		fail(t, "a message serialised as %x is framed as %x, %v; want %x", keep, f, err, frameOf(keep))
	}
}

func decodeOK(t *testing.T, h hd, body []byte) {
	t.Helper()
	cases++
	f := frameOf(h.msg(body))
	keep := append([]byte{}, f...)
	var pd *model.PacketData
	var err error
	if p, bad := try(func() { pd, err = protocol.NewJT808PacketCodec().Decode(f) }); bad {
		fail(t, "decoding the frame %x panics: %v", keep, p)
	}
	if err != nil || pd == nil || !bytes.Equal(pd.Body, body) || pd.Header.MsgID != h.id || pd.Header.SerialNumber != h.serial {
		fail(t, "the frame %x of a message with body %x is decoded as %+v, %v", keep, body, pd, err)
	}
}

func TestVerifC01(t *testing.T) {
	defer report(t)
	words([]byte{0x7e, 0x7d, 0x01, 0x02, 0x41}, 5, func(w []byte) { encodeOK(t, w) })
	r := newRand()
	for i := 0; i < 256; i++ {
		for j := 0; j < 256; j++ {
			encodeOK(t, []byte{byte(i), byte(j)})
		}
		encodeOK(t, bytes.Repeat([]byte{byte(i)}, 1023))
	}
	h := rhd(r, 0x0900)
	words([]byte{0x7e, 0x7d, 0x01, 0x02}, 4, func(w []byte) { decodeOK(t, h, w) })
	for n := 0; n < 1300; n++ {
		encodeOK(t, rbytes(r, n))
		encodeOK(t, bytes.Repeat([]byte{0x7e}, n))
		encodeOK(t, bytes.Repeat([]byte{0x7d}, n))
	}
	for i := 0; i < reps(3000); i++ {
		encodeOK(t, rbytes(r, rlen(r, 5000)))
		decodeOK(t, rhd(r, ru16(r)), rbytes(r, rlen(r, 1023)))
	}
	codec := protocol.NewJT808PacketCodec()
	boom := errors.New("boom")
	for _, b := range [][]byte{nil, {}, {1}, {0x7e, 0x7e}, bytes.Repeat([]byte{7}, 100)} {
		f, err := codec.Encode(&raw{b: b, err: boom})
		if err == nil || !errors.Is(err, boom) || len(f) != 0 {
			fail(t, "a message that fails to serialise (after %x) is encoded as %x, %v", b, f, err)
		}
	}
	for _, v := range []any{nil, 1, "x", []byte{1}, struct{}{}, model.Msg0002{}, &model.PacketData{}} {
		f, err := codec.Encode(v)
		if err == nil || len(f) != 0 {
			fail(t, "the value %#v, not a message, is encoded as %x, %v", v, f, err)
		}
	}
}

func rejects(t *testing.T, f []byte) {
	t.Helper()
	cases++
	keep := append([]byte{}, f...)
	var pd *model.PacketData
	var err error
	if p, bad := try(func() { pd, err = protocol.NewJT808PacketCodec().Decode(f) }); bad {
		fail(t, "refusing the frame %x panics: %v", keep, p)
	}
	if err == nil || pd != nil {
		fail(t, "the frame %x (checksum does not match) is accepted as %+v, %v", keep, pd, err)
	}
}

func TestVerifC02(t *testing.T) {
	defer report(t)
	r := newRand()
	rejects(t, []byte{0x7e, 0x7e})
	words([]byte{0x7e, 0x7d, 0x01, 0x02, 0x41}, 5, func(w []byte) {
		f := append(append([]byte{0x7e}, w...), 0x7e)
		b := inner(f)
		if len(b) == 0 || xorOf(b[:len(b)-1]) != b[len(b)-1] {
			rejects(t, f)
		}
	})
	for i := 0; i < reps(4000); i++ {
		h := rhd(r, ru16(r))
		body := rbytes(r, rlen(r, 600))
		if i%3 == 0 {
			h.frag, h.total, h.index = true, 3, 1
			h.phone = "99" + h.phone[2:]
		}
		m := h.msg(body)
		// every single wrong checksum byte, or some wrong bytes
		bad := append(append([]byte{}, m...), xorOf(m)^byte(1+r.Intn(255)))
		rejects(t, append(append([]byte{0x7e}, escOf(bad)...), 0x7e))
		bad = append(append([]byte{}, m...), xorOf(m))
		bad[r.Intn(len(bad))] ^= byte(1 + r.Intn(255))
		rejects(t, append(append([]byte{0x7e}, escOf(bad)...), 0x7e))
		if i%3 == 0 { // nothing of it may have been kept
			h.index = 1
			var got []byte
			for k := uint16(1); k <= 3; k++ {
				h.index = k
				pd, err := protocol.NewJT808PacketCodec().Decode(frameOf(h.msg([]byte{byte(k)})))
				if err != nil || pd == nil {
					fail(t, "fragment %d of 3 with body %x refused: %v", k, []byte{byte(k)}, err)
				}
				if pd.SegCompleted != (k == 3) {
					fail(t, "after refused frames of message %#x, fragment %d of 3 gives completed=%v", h.id, k, pd.SegCompleted)
				}
				got = pd.Body
			}
			if !bytes.Equal(got, []byte{1, 2, 3}) {
				fail(t, "a refused fragment of phone %s, message %#x was kept: joined body is %x, want 010203", h.phone, h.id, got)
			}
			h.frag = false
		} else {
			decodeOK(t, h, body)
		}
	}
	for n := 0; n < 3000; n += 1 + n/40 {
		h := rhd(r, ru16(r))
		m := h.msg(rbytes(r, n))
		for _, c := range []byte{0, 0xff, 0x7e, 0x7d, 1, 2, xorOf(m) ^ 1, xorOf(m) ^ 0x80, m[0], m[len(m)-1]} {
			if c != xorOf(m) {
				rejects(t, append(append([]byte{0x7e}, escOf(append(append([]byte{}, m...), c))...), 0x7e))
			}
		}
	}
	for k := 1; k < 256; k++ {
		m := rhd(r, 0x0002).msg(nil)
		bad := append(append([]byte{}, m...), xorOf(m)^byte(k))
		rejects(t, append(append([]byte{0x7e}, escOf(bad)...), 0x7e))
	}
	// accepted packets: exactly the checked bytes
	for i := 0; i < reps(3000); i++ {
		h, body := rhd(r, ru16(r)), rbytes(r, rlen(r, 1500))
		decodeOK(t, h, body)
	}
	for _, tail := range words2() {
		decodeOK(t, rhd(r, 0x0200), tail)
	}
}

func words2() (out [][]byte) {
	words([]byte{0x7e, 0x7d, 0x02, 0x00}, 4, func(w []byte) { out = append(out, w) })
	return
}

// cutter: what successive receives return
func cutter(s []byte) (frames [][]byte) {
	for {
		i := bytes.IndexByte(s, 0x7e)
		if i < 0 {
			return
		}
		j := bytes.IndexByte(s[i+1:], 0x7e)
		if j < 0 {
			return
		}
		frames = append(frames, s[i:i+j+2])
		s = s[i+j+2:]
	}
}

func recvOK(t *testing.T, s []byte, chunks [][]byte, rerr error) {
	t.Helper()
	cases++
	desc := fmt.Sprintf("stream %x read as %x", s, chunks)
	c := &conn{chunks: append([][]byte{}, chunks...), rerr: rerr, addr: "c03"}
	fh := protocol.NewJT808FrameHandler(c)
	ctx := sessCtx(&model.Session{ID: "c03", Conn: c})
	want := cutter(s)
	var got [][]byte
	for k := 0; k <= len(want); k++ {
		var f protocol.FramePayload
		var err error
		if p, bad := try(func() { f, err = fh.Recv(ctx) }); bad {
			fail(t, "%s: receive %d panics: %v", desc, k, p)
		}
		if k == len(want) {
			if err == nil || len(f) != 0 || !errors.Is(err, rerr) {
				fail(t, "%s: receive %d at the end of the stream (%v) gives %x, %v", desc, k, rerr, f, err)
			}
			break
		}
		if err != nil || !bytes.Equal(f, want[k]) {
			fail(t, "%s: receive %d gives %x, %v; want %x", desc, k, f, err, want[k])
		}
		got = append(got, f)
	}
	for k := range got { // later receives must not have changed them
		if !bytes.Equal(got[k], want[k]) {
			fail(t, "%s: frame %d became %x; want %x", desc, k, got[k], want[k])
		}
	}
}

func TestVerifC03(t *testing.T) {
	defer report(t)
	r := newRand()
	errs := []error{io.EOF, io.ErrUnexpectedEOF, net.ErrClosed, io.ErrClosedPipe, errors.New("reset")}
	for _, dbg := range []bool{false, true} {
		debugLog(dbg)
		words([]byte{0x7e, 0x7d, 0x41}, 7, func(w []byte) { recvOK(t, w, [][]byte{w}, errs[len(w)%len(errs)]) })
		for i := 0; i < reps(2500); i++ {
			var s []byte
			for k := r.Intn(6); k >= 0; k-- {
				switch r.Intn(5) {
				case 0:
					s = append(s, rbytes(r, rlen(r, 60))...)
				case 1:
					s = append(s, bytes.ReplaceAll(rbytes(r, rlen(r, 6000)), []byte{0x7e}, []byte{0x7f})...)
				case 2:
					s = append(s, frameOf(rbytes(r, rlen(r, 3000)))...)
				default:
					s = append(s, frameOf(rbytes(r, rlen(r, 60)))...)
				}
			}
			var chunks [][]byte
			rest := s
			for len(rest) > 0 {
				n := 1 + r.Intn(min(len(rest), []int{1, 3, 5000}[r.Intn(3)]))
				chunks = append(chunks, rest[:n])
				rest = rest[n:]
			}
			recvOK(t, s, chunks, errs[r.Intn(len(errs))])
		}
		// long frames
		for _, n := range []int{2000, 2070, 2071, 2072, 2073, 2074, 4093, 4094, 4095, 4096, 4097, 8200} {
			s := append(append([]byte{0x7e}, bytes.Repeat([]byte{1}, n)...), 0x7e, 0x7e, 2, 0x7e)
			recvOK(t, s, [][]byte{s}, io.EOF)
		}
	}
	debugLog(false)
}

func TestVerifC04(t *testing.T) {
	defer report(t)
	r := newRand()
	errs := []error{io.ErrClosedPipe, net.ErrClosed, io.ErrShortWrite, errors.New("reset"), io.EOF}
	one := func(f, before []byte, counts []int, werr error) {
		t.Helper()
		cases++
		c := &conn{counts: append([]int{}, counts...), werr: werr, wfull: cases%2 == 0, addr: "c04", out: append([]byte{}, before...)}
		fh := protocol.NewJT808FrameHandler(c)
		keep := append([]byte{}, f...)
		desc := fmt.Sprintf("sending %x when writes accept %v (then error %v)", keep, counts, werr)
		var err error
		if p, bad := try(func() { err = fh.Send(f) }); bad {
			fail(t, "%s: panics: %v", desc, p)
		}
		if !bytes.Equal(f, keep) {
			fail(t, "%s: changes the frame", desc)
		}
		want := append(append([]byte{}, before...), keep...)
		if err == nil && !bytes.Equal(c.out, want) {
			fail(t, "%s: reports success, wrote %x", desc, c.out[len(before):])
		}
		if c.wgiven && (err == nil || !errors.Is(err, werr)) {
			fail(t, "%s: reports %v", desc, err)
		}
		if !c.wgiven && err != nil {
			fail(t, "%s: no write failed, reports %v", desc, err)
		}
		if !bytes.HasPrefix(want, c.out) {
			fail(t, "%s: wrote %x", desc, c.out)
		}
	}
	// all ways of accepting a short frame in up to five writes, all error points
	for n := 0; n <= 5; n++ {
		f := []byte{0x7e, 1, 2, 3, 0x7e}[:n]
		var rec func(cs []int, sum int)
		rec = func(cs []int, sum int) {
			one(f, nil, cs, nil)
			one(f, nil, cs, errs[(len(cs)+sum)%len(errs)])
			if len(cs) < 5 && sum < n {
				for k := 0; k <= n-sum; k++ {
					rec(append(append([]int{}, cs...), k), sum+k)
				}
			}
		}
		rec(nil, 0)
	}
	for i := 0; i < reps(4000); i++ {
		debugLog(i%2 == 0)
		f := frameOf(rbytes(r, rlen(r, 3000)))
		var cs []int
		for k := r.Intn(12); k > 0; k-- {
			cs = append(cs, r.Intn(1+r.Intn(len(f)+1)))
		}
		var e error
		if r.Intn(2) == 0 {
			e = errs[r.Intn(len(errs))]
		}
		one(f, rbytes(r, r.Intn(9)), cs, e)
	}
	debugLog(false)
	// several frames after one another
	c := &conn{addr: "c04"}
	fh := protocol.NewJT808FrameHandler(c)
	var want []byte
	for i := 0; i < 300; i++ {
		f := frameOf(rbytes(r, rlen(r, 300)))
		want = append(want, f...)
		c.counts = append(make([]int, c.nw), r.Intn(4), r.Intn(3))
		if err := fh.Send(f); err != nil {
			fail(t, "frame %d of a sequence: %v", i, err)
		}
	}
	if !bytes.Equal(c.out, want) {
		fail(t, "a sequence of 300 frames was not written as given")
	}
	_ = strings.Repeat
}
