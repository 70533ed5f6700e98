package zzverif

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"testing"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
)

// value type of each parameter id, as JT/T 808 and JT/T 1078 list them:
// b byte, w word, d double word, n digits (bytes), s string, g GBK string
func ptype(id uint32) byte {
	in := func(rs ...uint32) bool {
		for i := 0; i < len(rs); i += 2 {
			if rs[i] <= id && id <= rs[i+1] {
				return true
			}
		}
		return false
	}
	switch {
	case in(0x84, 0x84, 0x90, 0x92, 0x94, 0x94):
		return 'b'
	case in(0x31, 0x31, 0x5b, 0x5e, 0x81, 0x82, 0x101, 0x101, 0x103, 0x103):
		return 'w'
	case in(1, 7, 0x18, 0x19, 0x1b, 0x1c, 0x20, 0x22, 0x27, 0x29, 0x2c, 0x30, 0x45, 0x47, 0x50, 0x5a, 0x64, 0x65, 0x70, 0x74, 0x80, 0x80, 0x93, 0x93, 0x95, 0x95, 0x100, 0x100, 0x102, 0x102):
		return 'd'
	case in(0x32, 0x32, 0x75, 0x77, 0x79, 0x7c):
		return 'n'
	case in(0x110, 0x110):
		return 's'
	case in(0x10, 0x17, 0x1a, 0x1a, 0x1d, 0x1d, 0x23, 0x26, 0x40, 0x44, 0x48, 0x49, 0x83, 0x83):
		return 'g'
	}
	return 0
}

var idsOf = map[byte][]uint32{}

func init() {
	for id := uint32(0); id < 0x200; id++ {
		idsOf[ptype(id)] = append(idsOf[ptype(id)], id)
	}
	idsOf[0] = append(idsOf[0], 0x1000, 0xffff, 0x10001, 0x01000001, 0x80000001, 0xf000, 0xffffffff)
}

type item struct {
	id  uint32
	b   []byte // value bytes
	val any    // decoded
	ln  byte   // length byte
}

func ritem(r *rand.Rand, known bool) item {
	k := "bwdnsg"[r.Intn(6)]
	if !known && r.Intn(4) == 0 {
		k = 0
	}
	it := item{id: idsOf[k][r.Intn(len(idsOf[k]))]}
	switch k {
	case 'b':
		it.b = rbytes(r, 1)
		it.val = it.b[0]
	case 'w':
		v := ru16(r)
		it.b, it.val = be(uint64(v), 2), v
	case 'd':
		v := ru32(r)
		it.b, it.val = be(uint64(v), 4), v
	case 'n':
		s := rdigits(r, 8+2*rlen(r, 40))
		it.b, it.val = bcd(s), s
	case 's':
		it.b = rbytes(r, rlen(r, 255))
		it.val = string(it.b)
	case 'g':
		s := plates[r.Intn(len(plates))] + rascii(r, rlen(r, 150))
		it.b, it.val = gbkEnc(s), s
	default:
		it.b = rbytes(r, rlen(r, 255))
	}
	it.ln = byte(len(it.b))
	return it
}

func (it item) bytes() []byte { return cat(be(uint64(it.id), 4), []byte{it.ln}, it.b) }

func showParams(ps []*model.ParamData) string {
	s := ""
	for _, p := range ps {
		if p == nil {
			s += "nil "
			continue
		}
		s += fmt.Sprintf("{%#x %d %#v} ", p.ParamID, p.ParamLen, p.ParamValue)
	}
	return s
}

func checkList(t *testing.T, what string, dp *model.DeviceParams, items []item) {
	t.Helper()
	if len(dp.Params) != len(items) {
		fail(t, "%s: %d items decoded, %d given: %s", what, len(dp.Params), len(items), showParams(dp.Params))
	}
	for i, it := range items {
		p := dp.Params[i]
		if p == nil || p.ParamID != it.id || p.ParamLen != it.ln || !reflect.DeepEqual(p.ParamValue, it.val) {
			fail(t, "%s: item %d is decoded as %s, want {%#x %d %#v}", what, i, showParams(dp.Params[i:i+1]), it.id, it.ln, it.val)
		}
	}
}

func TestVerifC10(t *testing.T) {
	defer report(t)
	r := newRand()
	for id := uint32(0); id < 0x200; id++ { // every id decodes and encodes with its type
		for k := 0; k < 6; k++ {
			it := item{}
			for it.id = ^id; it.id != id; {
				it = ritem(r, false)
				if ptype(it.id) == ptype(id) {
					it.id = id
				}
			}
			listOK(t, r, []item{it, ritem(r, true)})
		}
	}
	for i := 0; i < reps(1200); i++ {
		n := rlen(r, 12)
		if i%100 == 0 {
			n = 255
		}
		var items []item
		for k := 0; k < n; k++ {
			items = append(items, ritem(r, i%2 == 0))
		}
		listOK(t, r, items)
	}
	// encoding: values that cannot be encoded are left out and not counted
	for i := 0; i < reps(300); i++ {
		dp := &model.DeviceParams{DevicePhone: "1", ParamCnt: byte(r.Intn(256))}
		var want []byte
		cnt := 0
		n := r.Intn(8)
		if i%50 == 0 {
			n = 250 + r.Intn(12)
		}
		for k := 0; k < n; k++ {
			cases++
			it := ritem(r, false)
			switch v := it.val.(type) { // values set over the API are float64
			case uint8:
				if r.Intn(2) == 0 {
					it.val = float64(v)
				}
			case uint16:
				if r.Intn(2) == 0 {
					it.val = float64(v)
				}
			case uint32:
				if r.Intn(2) == 0 {
					it.val = float64(v)
				}
			}
			if k := ptype(it.id); r.Intn(6) == 0 && (k == 's' || k == 'g') { // too long for its length byte
				it.val = rascii(r, 256+r.Intn(300))
				it.b = nil
			} else if k != 0 {
				want = append(want, it.bytes()...)
				cnt++
			}
			dp.Params = append(dp.Params, &model.ParamData{ParamID: it.id, ParamLen: byte(r.Intn(256)), ParamValue: it.val})
		}
		got, err := dp.Encode()
		if cnt > 255 {
			if err == nil {
				fail(t, "a list of %d items is encoded (count %d)", cnt, got[0])
			}
			continue
		}
		if err != nil || !bytes.Equal(got, cat([]byte{byte(cnt)}, want)) {
			fail(t, "the list %s is encoded as %x, %v; want count %d and %x", showParams(dp.Params), got, err, cnt, want)
		}
	}
}

func listOK(t *testing.T, r *rand.Rand, items []item) {
	t.Helper()
	cases++
	var b []byte
	for _, it := range items {
		b = append(b, it.bytes()...)
	}
	keep := append([]byte{}, b...)
	n := byte(len(items))
	tail := rbytes(r, r.Intn(4))
	what := fmt.Sprintf("parameter list of %d items %x", n, keep)
	dp := &model.DeviceParams{}
	var err error
	if p, bad := try(func() { err = dp.Decode("123", n, cat(b, tail)) }); bad {
		fail(t, "%s: decoding panics: %v", what, p)
	}
	if err != nil || dp.DevicePhone != "123" || dp.ParamCnt != n {
		fail(t, "%s: decoded as %+v, %v", what, dp, err)
	}
	checkList(t, what, dp, items)
	if len(b) > 0 { // too short: refused
		_, bad := try(func() { err = (&model.DeviceParams{}).Decode("123", n, b[:r.Intn(len(b))]) })
		if !bad && err == nil {
			fail(t, "%s: a shorter packet is accepted", what)
		}
	}
	// in the messages
	h := rhd(r, 0x0104)
	a := ru16(r)
	m4 := &model.Msg0104{}
	pd := &model.PacketData{Header: h.header(), Body: cat(be(uint64(a), 2), []byte{n}, b, tail)}
	if p, bad := try(func() { err = m4.Decode(pd) }); bad || err != nil {
		fail(t, "%s in an answer: refused: %v %v", what, p, err)
	}
	if m4.AnswerSerialNumber != a || m4.AnswerParamCnt != n || m4.Parameters.DevicePhone != h.phone {
		fail(t, "%s in an answer: decoded as %+v", what, m4)
	}
	checkList(t, what+" in an answer", m4.Parameters, items)
	h3 := rhd(r, 0x8103)
	m3 := &model.Msg8103{}
	pd = &model.PacketData{Header: h3.header(), Body: cat([]byte{n}, b, tail)}
	if p, bad := try(func() { err = m3.Decode(pd) }); bad || err != nil {
		fail(t, "%s in a setting: refused: %v %v", what, p, err)
	}
	if m3.ParamCnt != n || m3.Parameters.DevicePhone != h3.phone {
		fail(t, "%s in a setting: decoded as %+v", what, m3)
	}
	checkList(t, what+" in a setting", m3.Parameters, items)
	// encoded again: the known ones
	var kb []byte
	var cnt byte
	for _, it := range items {
		if k := ptype(it.id); k != 0 {
			kb = append(kb, it.bytes()...)
			cnt++
		}
	}
	got, err := dp.Encode()
	if err != nil || !bytes.Equal(got, cat([]byte{cnt}, kb)) {
		fail(t, "%s: encoded again as %x, %v; want count %d and %x", what, got, err, cnt, kb)
	}
	encMsg(t, m4, h, cat(be(uint64(a), 2), []byte{cnt}, kb))
	encMsg(t, m3, h3, cat([]byte{cnt}, kb))
	checkList(t, what+" after encoding", dp, items)
}

func updateOK(t *testing.T, old, upd []*model.ParamData) {
	t.Helper()
	cases++
	want := map[uint32]*model.ParamData{}
	for _, p := range old {
		want[p.ParamID] = p
	}
	for _, p := range upd {
		if want[p.ParamID] != nil {
			want[p.ParamID] = p
		}
	}
	var ids []int
	for id := range want {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	dp := &model.DeviceParams{DevicePhone: "p", ParamCnt: uint8(len(old)), Params: append([]*model.ParamData{}, old...)}
	np := &model.DeviceParams{DevicePhone: "q", ParamCnt: uint8(len(upd)), Params: append([]*model.ParamData{}, upd...)}
	what := fmt.Sprintf("updating %s with %s", showParams(old), showParams(upd))
	if p, bad := try(func() { dp.Update(np) }); bad {
		fail(t, "%s panics: %v", what, p)
	}
	ok := len(dp.Params) == len(ids) && int(dp.ParamCnt) == len(ids) && dp.DevicePhone == "p"
	for i := 0; ok && i < len(ids); i++ {
		w := want[uint32(ids[i])]
		g := dp.Params[i]
		ok = g != nil && g.ParamID == w.ParamID && g.ParamLen == w.ParamLen && reflect.DeepEqual(g.ParamValue, w.ParamValue)
	}
	if !ok || np.DevicePhone != "q" || !reflect.DeepEqual(np.Params, append([]*model.ParamData{}, upd...)) {
		fail(t, "%s gives %s (count %d)", what, showParams(dp.Params), dp.ParamCnt)
	}
}

// Every pair of lists of up to 4 stored and 3 new parameters over 4 ids (two of
// them far apart): bounded stand-in for the order and content of a merged list.
func TestVerifC10_bounded(t *testing.T) {
	defer report(t)
	ids := []uint32{0x10, 1, 0xf0000001, 0x29}
	var lists func(n int, f func([]uint32))
	lists = func(n int, f func([]uint32)) {
		var rec func(l []uint32)
		rec = func(l []uint32) {
			f(l)
			if len(l) < n {
				for _, id := range ids {
					rec(append(append([]uint32{}, l...), id))
				}
			}
		}
		rec(nil)
	}
	mk := func(l []uint32, base int) (o []*model.ParamData) {
		for i, id := range l {
			o = append(o, &model.ParamData{ParamID: id, ParamLen: byte(base + i), ParamValue: base + i})
		}
		return
	}
	lists(4, func(a []uint32) {
		lists(3, func(b []uint32) { updateOK(t, mk(a, 10), mk(b, 100)) })
	})
	r := newRand()
	for i := 0; i < reps(400); i++ {
		var a, b []uint32
		for k := r.Intn(60); k > 0; k-- {
			a = append(a, uint32(r.Intn(80)))
		}
		for k := r.Intn(60); k > 0; k-- {
			b = append(b, uint32(r.Intn(80)))
		}
		updateOK(t, mk(a, 1), mk(b, 1000))
	}
}
