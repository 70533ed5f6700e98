package zzverif

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"time"

	"golang.org/x/text/encoding/simplifiedchinese"

	"github.com/fakeyanss/jt808-server-go/internal/codec/hex"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
)

// digits of a BCD field: everything behind the last F nibble
func unbcd(b []byte) string {
	s := strings.ToUpper(fmt.Sprintf("%x", b))
	p := strings.LastIndex(s, "F")
	if p == 8 {
		return "0"
	}
	return s[p+1:]
}

// ---- C05 ----

func TestVerifC05(t *testing.T) {
	defer report(t)
	r := newRand()
	dec := func(pkt []byte) {
		t.Helper()
		cases++
		keep := append([]byte{}, pkt...)
		pkt = append(make([]byte, 0, len(pkt)+cases%7), pkt...)
		h := &model.MsgHeader{}
		var err error
		_, bad := try(func() { err = h.Decode(pkt) })
		need := 4
		var v19, frag bool
		if len(keep) >= 4 {
			v19, frag = keep[2]&0x40 != 0, keep[2]&0x20 != 0
			need = 12
			if v19 {
				need = 17
			}
			if frag {
				need += 4
			}
		}
		if len(keep) < need {
			if !bad && err == nil {
				fail(t, "header of the short packet %x is decoded as %+v", keep, h)
			}
			return
		}
		if bad || err != nil {
			fail(t, "header of the packet %x is refused: %v", keep, err)
		}
		if !bytes.Equal(pkt, keep) {
			fail(t, "decoding the header changes the packet %x to %x", keep, pkt)
		}
		w := func(i int) uint16 { return uint16(keep[i])<<8 | uint16(keep[i+1]) }
		a := w(2)
		o := 4
		var pv uint8
		n := 6
		if v19 {
			pv, n, o = keep[4], 10, 5
		}
		b2 := func(x bool) uint8 {
			if x {
				return 1
			}
			return 0
		}
		vd := model.Version2013
		if v19 {
			vd = model.Version2019
		}
		ed := model.EncryptionUnknown
		switch a >> 10 & 7 {
		case 0:
			ed = model.EncryptionNone
		case 1:
			ed = model.EncryptionRSA
		}
		at := model.MsgBodyAttr{BodyLength: a & 0x3ff, Encryption: uint8(a >> 10 & 7), PacketFragmented: b2(frag), VersionSign: b2(v19), Extra: uint8(a >> 15),
			EncryptionDesc: ed, PacketFragmentedDesc: model.PacketFragmentedType(frag), VersionDesc: vd}
		if h.Attr == nil || *h.Attr != at {
			fail(t, "attributes of the header %x are decoded as %+v, want %+v", keep, h.Attr, at)
		}
		if h.MsgID != w(0) || h.ProtocolVersion != pv || h.PhoneNumber != unbcd(keep[o:o+n]) || h.SerialNumber != w(o+n) || h.Idx != need {
			fail(t, "header %x is decoded as %+v (want phone %s, serial %d, first body byte %d)", keep, h, unbcd(keep[o:o+n]), w(o+n), need)
		}
		if frag && (h.Frag == nil || h.Frag.Total != w(o+n+2) || h.Frag.Index != w(o+n+4)) || !frag && h.Frag != nil {
			fail(t, "fragment item of the header %x is decoded as %+v", keep, h.Frag)
		}
		if frag != h.IsFragmented() {
			fail(t, "header %x: IsFragmented is %v", keep, h.IsFragmented())
		}
	}
	for a := 0; a < 65536; a++ {
		dec(append([]byte{1, 2, byte(a >> 8), byte(a)}, rbytes(r, 17+r.Intn(3))...))
	}
	for i := 0; i < reps(3000); i++ {
		h := rhd(r, ru16(r))
		h.enc, h.extra = uint8(r.Intn(8)), uint8(r.Intn(2))
		h.frag, h.total, h.index = r.Intn(2) == 0, ru16(r), ru16(r)
		n := rlen(r, 1023)
		b := h.bytes(n)
		dec(append(b, rbytes(r, r.Intn(5))...))
		dec(b[:r.Intn(len(b)+1)])
		dec(rbytes(r, r.Intn(30)))
		// encoding
		m := h.header()
		m.Attr.BodyLength = uint16(n)
		var got []byte
		var err error
		if p, bad := try(func() { got, err = m.Encode() }); bad {
			fail(t, "encoding the header %+v panics: %v", m, p)
		}
		if err != nil || !bytes.Equal(got, b) {
			fail(t, "the header %+v %+v %+v is encoded as %x, %v; want %x", m, m.Attr, m.Frag, got, err, b)
		}
		if m.Attr.Encode() != h.attr(n) {
			fail(t, "the attributes %+v are encoded as %04x; want %04x", m.Attr, m.Attr.Encode(), h.attr(n))
		}
	}
	// every attribute field on its own
	for n := 0; n < 1024; n++ {
		for e := uint8(0); e < 8; e++ {
			a := model.MsgBodyAttr{BodyLength: uint16(n), Encryption: e, PacketFragmented: uint8(n & 1), VersionSign: uint8(n >> 1 & 1), Extra: uint8(n >> 2 & 1)}
			w := uint16(n) | uint16(e)<<10 | uint16(n&1)<<13 | uint16(n>>1&1)<<14 | uint16(n>>2&1)<<15
			if a.Encode() != w {
				fail(t, "the attributes %+v are encoded as %04x; want %04x", a, a.Encode(), w)
			}
		}
	}
}

// ---- messages ----

type fieldSpec struct {
	name string
	v    any
}

// decMsg decodes a body and compares fields; short: the body must be refused.
func decMsg(t *testing.T, m model.JT808Msg, h hd, bodyLen int, body []byte, short bool, want []fieldSpec) {
	t.Helper()
	cases++
	hdr := h.header()
	hdr.Attr.BodyLength = uint16(bodyLen)
	p := &model.PacketData{Header: hdr, Body: append(make([]byte, 0, len(body)+cases%40), body...)}
	var err error
	pv, bad := try(func() { err = m.Decode(p) })
	desc := fmt.Sprintf("%T, 2019=%v, body length %d, body %x", m, h.v2019, bodyLen, body)
	if short {
		if !bad && err == nil {
			fail(t, "%s: the short body is decoded as %+v", desc, m)
		}
		return
	}
	if bad || err != nil {
		fail(t, "%s: refused: %v %v", desc, pv, err)
	}
	if m.GetHeader() != hdr {
		fail(t, "%s: the header is not the packet's", desc)
	}
	if !bytes.Equal(p.Body, body) {
		fail(t, "%s: decoding changes the body", desc)
	}
	v := reflect.ValueOf(m).Elem()
	for _, w := range want {
		f := v.FieldByName(w.name)
		if !f.IsValid() {
			t.Skipf("no field %s", w.name)
		}
		g := f.Interface()
		if tp, ok := g.(*time.Time); ok {
			g = "nil"
			if tp != nil {
				g = tp.Format("060102150405")
			}
			if w.v == "any" {
				continue
			}
		} else if f.Kind() >= reflect.Uint && f.Kind() <= reflect.Uint64 {
			g = f.Uint()
			w.v = reflect.ValueOf(w.v).Convert(reflect.TypeOf(uint64(0))).Interface()
		}
		if !reflect.DeepEqual(g, w.v) {
			fail(t, "%s: %s is decoded as %#v, want %#v", desc, w.name, g, w.v)
		}
	}
}

// encMsg encodes a message and compares with header and body.
func encMsg(t *testing.T, m model.JT808Msg, h hd, body []byte) {
	t.Helper()
	cases++
	if len(body) > 1023 {
		return
	}
	desc := fmt.Sprintf("%T %+v header %+v", m, m, *m.GetHeader())
	var got []byte
	var err error
	if p, bad := try(func() { got, err = m.Encode() }); bad {
		fail(t, "%s: encoding panics: %v", desc, p)
	}
	if want := h.msg(body); err != nil || !bytes.Equal(got, want) {
		fail(t, "%s: encoded as %x, %v; want %x", desc, got, err, want)
	}
	if int(m.GetHeader().Attr.BodyLength) != len(body) {
		fail(t, "%s: body length field is %d, body has %d bytes", desc, m.GetHeader().Attr.BodyLength, len(body))
	}
}

func gbkEnc(s string) []byte {
	b, err := simplifiedchinese.GBK.NewEncoder().Bytes([]byte(s))
	if err != nil {
		return nil
	}
	return b
}

func gbkDec(b []byte) string {
	o, err := simplifiedchinese.GBK.NewDecoder().Bytes(b)
	if err != nil {
		return ""
	}
	return string(o)
}

var plates = []string{"", "京A12345", "粤B7D7E1", "A", "浙", "测试车牌号码很长很长0123456789", "XYZ", "\x7e\x7d", "无", "沪A·00000"}

func cat(bs ...[]byte) (o []byte) {
	for _, b := range bs {
		o = append(o, b...)
	}
	return
}

func pad(s string, n int) []byte {
	b := make([]byte, n)
	copy(b, s)
	return b
}

func trimz(b []byte) string { return strings.TrimRight(string(b), "\x00") }

// field content of up to n bytes without trailing zeros, sometimes with zeros inside
func rfield(r *rand.Rand, n int) string {
	s := []byte(rascii(r, rlen(r, n)))
	if len(s) > 2 && r.Intn(4) == 0 {
		s[r.Intn(len(s)-1)] = 0
	}
	return string(s)
}

func TestVerifC06(t *testing.T) {
	defer report(t)
	r := newRand()
	for i := 0; i < reps(2500); i++ {
		h := rhd(r, 0x0100)
		kind := r.Intn(3) // 0: 2011, 1: 2013, 2: 2019
		h.v2019 = kind == 2
		if h.v2019 {
			h.phone = rdigits(r, 20)
		} else {
			h.phone, h.pv = rdigits(r, 12), 0
		}
		ml, dl, il := 5, 20, 7
		if kind == 0 {
			dl = 8
		}
		if kind == 2 {
			ml, dl, il = 11, 30, 30
		}
		prov, city := ru16(r), ru16(r)
		manu, mode, id := rfield(r, ml), rfield(r, dl), rfield(r, il)
		color := byte(r.Intn(256))
		plate := plates[r.Intn(len(plates))]
		if r.Intn(3) == 0 {
			plate = rascii(r, r.Intn(60))
		}
		pg := gbkEnc(plate)
		if kind == 0 && len(pg) > 12 { // 21 bytes of fields and more than 12 of plate cannot be told from 2013
			pg = pg[:12]
			for gbkDec(pg) == "" || strings.ContainsRune(gbkDec(pg), '\uFFFD') {
				pg = pg[:len(pg)-1]
				if len(pg) == 0 {
					break
				}
			}
			plate = gbkDec(pg)
		}
		body := cat(be(uint64(prov), 2), be(uint64(city), 2), pad(manu, ml), pad(mode, dl), pad(id, il), []byte{color}, pg)
		if kind == 1 && len(pg) == 0 {
			plate = "A"
			pg = []byte("A")
			body = append(body, pg...)
		}
		decMsg(t, &model.Msg0100{}, h, len(body), body, false, []fieldSpec{{"ProvinceID", prov}, {"CityID", city}, {"ManufacturerID", trimz([]byte(manu))},
			{"DeviceMode", trimz([]byte(mode))}, {"DeviceID", trimz([]byte(id))}, {"PlateColor", color}, {"PlateNumber", plate}})
		// the plate ends with the body, whatever bytes follow
		decMsg(t, &model.Msg0100{}, h, len(body), append(append([]byte{}, body...), rbytes(r, r.Intn(6))...), false, []fieldSpec{{"PlateNumber", plate}, {"DeviceID", trimz([]byte(id))}})
		if !h.v2019 || true {
			cut := r.Intn(len(body))
			decMsg(t, &model.Msg0100{}, h, len(body), body[:cut], true, nil)
			fixed := 4 + ml + dl + il + 1
			if kind == 2 || kind == 0 {
				cut = r.Intn(fixed)
				decMsg(t, &model.Msg0100{}, h, cut, body[:cut], true, nil)
			}
		}
		// encoding
		m := &model.Msg0100{Header: h.header(), ProvinceID: prov, CityID: city, ManufacturerID: manu, DeviceMode: mode, DeviceID: id, PlateColor: color, PlateNumber: plate}
		if kind == 0 {
			m.Header.Attr.VersionDesc = model.Version2011
		}
		over := r.Intn(4) == 0
		if over { // too long for the field: cut to its width
			m.ManufacturerID += rascii(r, 1+r.Intn(9))
			m.DeviceMode += rascii(r, 1+r.Intn(40))
			m.DeviceID += rascii(r, 1+r.Intn(40))
		}
		encMsg(t, m, h, cat(be(uint64(prov), 2), be(uint64(city), 2), pad(m.ManufacturerID, ml), pad(m.DeviceMode, dl), pad(m.DeviceID, il), []byte{color}, pg))
		if m.ManufacturerID[:len(manu)] != manu || m.PlateNumber != plate {
			fail(t, "encoding a registration changes it: %+v", m)
		}

		// registration reply
		h.id = 0x8100
		ans, res, code := ru16(r), byte(r.Intn(256)), string(rbytes(r, rlen(r, 200)))
		body = cat(be(uint64(ans), 2), []byte{res}, []byte(code))
		decMsg(t, &model.Msg8100{}, h, len(body), append(append([]byte{}, body...), rbytes(r, r.Intn(3))...), false, []fieldSpec{{"AnswerSerialNumber", ans}, {"Result", res}, {"AuthCode", code}})
		decMsg(t, &model.Msg8100{}, h, len(body), body[:r.Intn(len(body))], true, nil)
		k := r.Intn(3)
		decMsg(t, &model.Msg8100{}, h, k, body[:k], true, nil)
		encMsg(t, &model.Msg8100{Header: h.header(), AnswerSerialNumber: ans, Result: model.ResultCodeType(res), AuthCode: code}, h, body)

		// authentication
		h.id = 0x0102
		imei, sv := rfield(r, 15), rfield(r, 20)
		if h.v2019 {
			code = code[:min(len(code), 255)]
			body = cat([]byte{byte(len(code))}, []byte(code), pad(imei, 15), pad(sv, 20))
			full := string(pad(imei, 15))
			decMsg(t, &model.Msg0102{}, h, len(body), append(append([]byte{}, body...), rbytes(r, r.Intn(3))...), false, []fieldSpec{{"AuthCodeLen", byte(len(code))}, {"AuthCode", code}, {"IMEI", full}, {"SoftwareVersion", trimz([]byte(sv))}})
			decMsg(t, &model.Msg0102{}, h, len(body), body[:r.Intn(len(body))], true, nil)
			m := &model.Msg0102{Header: h.header(), AuthCode: code, AuthCodeLen: byte(r.Intn(256)), IMEI: imei, SoftwareVersion: sv}
			encMsg(t, m, h, body)
			if int(m.AuthCodeLen) != len(code) {
				fail(t, "the length of the auth code %q is %d after encoding", code, m.AuthCodeLen)
			}
		} else {
			body = []byte(code)
			decMsg(t, &model.Msg0102{}, h, len(body), append(append([]byte{}, body...), rbytes(r, r.Intn(3))...), false, []fieldSpec{{"AuthCode", code}})
			if len(body) > 0 {
				decMsg(t, &model.Msg0102{}, h, len(body), body[:r.Intn(len(body))], true, nil)
			}
			m := &model.Msg0102{Header: h.header(), AuthCode: code, IMEI: imei, SoftwareVersion: sv}
			if kind == 0 {
				m.Header.Attr.VersionDesc = model.Version2011
			}
			encMsg(t, m, h, body)
		}
	}
	// unknown versions are refused
	for _, v := range []model.VersionType{-1, 3, 4, 127, -128} {
		hd := rhd(r, 0x0100).header()
		hd.Attr.VersionDesc = v
		if b, err := (&model.Msg0100{Header: hd}).Encode(); err == nil {
			fail(t, "a registration of version %d is encoded as %x", v, b)
		}
	}
}

func bcdTime(r *rand.Rand) ([]byte, string) {
	tm := time.Date(1969+r.Intn(100), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
	s := tm.Format("060102150405")
	return bcd(s), s
}

var geoFields = []struct {
	name string
	bit  uint
	n    uint32
}{{"ACCStatus", 0, 1}, {"LocationStatus", 1, 1}, {"LatitudeType", 2, 1}, {"LongitudeType", 3, 1}, {"OperatingStatus", 4, 1}, {"GeoEncryptionStatus", 5, 1}, {"LoadStatus", 8, 3},
	{"FuelSystemStatus", 10, 1}, {"AlternatorSystemStatus", 11, 1}, {"DoorLockedStatus", 12, 1}, {"FrontDoorStatus", 13, 1}, {"MidDoorStatus", 14, 1}, {"BackDoorStatus", 15, 1},
	{"DriverDoorStatus", 16, 1}, {"CustomDoorStatus", 17, 1}, {"GPSLocationStatus", 18, 1}, {"BeidouLocationStatus", 19, 1}, {"GLONASSLocationStatus", 20, 1}, {"GalileoLocationStatus", 21, 1}, {"DrivingStatus", 22, 1}}

func checkGeo(t *testing.T, g *model.GeoMeta, status uint32) {
	t.Helper()
	v := reflect.ValueOf(g).Elem()
	for _, f := range geoFields {
		if got := v.FieldByName(f.name).Uint(); got != uint64(status>>f.bit&f.n) {
			fail(t, "status word %08x: %s is %d, want %d", status, f.name, got, status>>f.bit&f.n)
		}
	}
}

func TestVerifC07(t *testing.T) {
	defer report(t)
	r := newRand()
	for i := 0; i < reps(4000); i++ {
		h := rhd(r, 0x0200)
		al, st, lat, lon := ru32(r), ru32(r), ru32(r), ru32(r)
		if r.Intn(2) == 0 {
			st = r.Uint32()
		}
		alt, sp, dir := ru16(r), ru16(r), ru16(r)
		tb, ts := bcdTime(r)
		body := cat(be(uint64(al), 4), be(uint64(st), 4), be(uint64(lat), 4), be(uint64(lon), 4), be(uint64(alt), 2), be(uint64(sp), 2), be(uint64(dir), 2), tb)
		m := &model.Msg0200{}
		full := append(append([]byte{}, body...), rbytes(r, r.Intn(5))...)
		decMsg(t, m, h, len(full), full, false, []fieldSpec{{"AlarmSign", al}, {"StatusSign", st}, {"Latitude", lat}, {"Longitude", lon}, {"Altitude", alt}, {"Speed", sp}, {"Direction", dir}, {"Time", ts}})
		decMsg(t, &model.Msg0200{}, h, len(body), body[:r.Intn(len(body))], true, nil)
		encMsg(t, &model.Msg0200{Header: h.header(), AlarmSign: al, StatusSign: st, Latitude: lat, Longitude: lon, Altitude: alt, Speed: sp, Direction: dir, Time: ts}, h, body)
		dg := &model.DeviceGeo{}
		if err := dg.Decode("p", m); err != nil {
			fail(t, "report %+v is not turned into a position: %v", m, err)
		}
		if dg.Phone != "p" || dg.Location.Latitude != float64(lat)/1e6 || dg.Location.Longitude != float64(lon)/1e6 || dg.Location.Altitude != alt ||
			dg.Drive.Speed != float64(sp)/10 || dg.Drive.Direction != dir || dg.Time.Format("060102150405") != ts {
			fail(t, "report %+v becomes the position %+v %+v %+v", m, dg, dg.Location, dg.Drive)
		}
		checkGeo(t, dg.Geo, st)
		g := &model.GeoMeta{}
		g.Decode(st)
		checkGeo(t, g, st)
		if e := g.Encode(); e != st&0x007fff3f {
			fail(t, "the flags of status word %08x are encoded as %08x", st, e)
		}
	}
	for b := uint(0); b < 32; b++ {
		for c := uint(0); c < 32; c++ {
			g := &model.GeoMeta{}
			st := uint32(1)<<b | uint32(1)<<c
			g.Decode(st)
			checkGeo(t, g, st)
			g.Decode(^st)
			checkGeo(t, g, ^st)
			cases++
		}
	}
}

func TestVerifC08(t *testing.T) {
	defer report(t)
	r := newRand()
	tm := func(s string) *time.Time {
		x, _ := time.Parse("060102150405", s)
		return &x
	}
	for n := 0; n <= 1020; n++ { // every length a packet can carry
		h := rhd(r, 0x8100)
		a, s := ru16(r), rascii(r, n)
		encMsg(t, &model.Msg8100{Header: h.header(), AnswerSerialNumber: a, AuthCode: s}, h, cat(be(uint64(a), 2), []byte{0}, []byte(s)))
	}
	for i := 0; i < reps(2500); i++ {
		h := rhd(r, 1)
		a, id, res := ru16(r), ru16(r), byte(r.Intn(256))
		body := cat(be(uint64(a), 2), be(uint64(id), 2), []byte{res})
		fs := []fieldSpec{{"AnswerSerialNumber", a}, {"AnswerMessageID", id}, {"Result", res}}
		k := r.Intn(len(body))
		h.id = 1
		decMsg(t, &model.Msg0001{}, h, 5, body, false, fs)
		decMsg(t, &model.Msg0001{}, h, k, body[:k], true, nil)
		encMsg(t, &model.Msg0001{Header: h.header(), AnswerSerialNumber: a, AnswerMessageID: id, Result: res}, h, body)
		h.id = 0x8001
		decMsg(t, &model.Msg8001{}, h, 5, body, false, fs)
		decMsg(t, &model.Msg8001{}, h, k, body[:k], true, nil)
		encMsg(t, &model.Msg8001{Header: h.header(), AnswerSerialNumber: a, AnswerMessageID: id, Result: model.ResultCode(res)}, h, body)
		// time
		h.id = 0x8004
		t1, s1 := bcdTime(r)
		t2, s2 := bcdTime(r)
		decMsg(t, &model.Msg8004{}, h, 6, t1, false, []fieldSpec{{"ServerTime", s1}})
		decMsg(t, &model.Msg8004{}, h, 5, t1[:r.Intn(6)], true, nil)
		encMsg(t, &model.Msg8004{Header: h.header(), ServerTime: tm(s1)}, h, t1)
		// media
		ch, x, y, mt, stt, sto := byte(r.Intn(256)), ru32(r), ru32(r), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))
		q := cat([]byte{ch}, t1, t2, be(uint64(x), 4), be(uint64(y), 4), []byte{mt, stt, sto})
		qf := []fieldSpec{{"LogicChannelID", ch}, {"StartTime", s1}, {"EndTime", s2}, {"AlarmSign", x}, {"AlarmSignExt", y}, {"MediaType", mt}, {"StreamType", stt}, {"StorageType", sto}}
		dq := model.DeviceMediaQuery{LogicChannelID: ch, StartTime: tm(s1), EndTime: tm(s2), AlarmSign: x, AlarmSignExt: y, MediaType: mt, StreamType: stt, StorageType: sto}
		h.id = 0x9205
		decMsg(t, &model.Msg9205{}, h, len(q), append(append([]byte{}, q...), rbytes(r, r.Intn(3))...), false, qf)
		decMsg(t, &model.Msg9205{}, h, len(q), q[:r.Intn(len(q))], true, nil)
		encMsg(t, &model.Msg9205{Header: h.header(), DeviceMediaQuery: dq}, h, q)
		h.id = 0x1205
		cnt, size := ru32(r), ru32(r)
		l := cat(be(uint64(a), 2), be(uint64(cnt), 4), q, be(uint64(size), 4))
		decMsg(t, &model.Msg1205{}, h, len(l), append(append([]byte{}, l...), rbytes(r, r.Intn(3))...), false, append(qf, fieldSpec{"AnswerSerialNumber", a}, fieldSpec{"MediaCount", cnt}, fieldSpec{"Size", size}))
		decMsg(t, &model.Msg1205{}, h, len(l), l[:r.Intn(len(l))], true, nil)
		encMsg(t, &model.Msg1205{Header: h.header(), AnswerSerialNumber: a, MediaCount: cnt, DeviceMedia: model.DeviceMedia{DeviceMediaQuery: dq, Size: size}}, h, l)
		// empty bodies; a stale length field must be replaced
		h.frag, h.total, h.index = r.Intn(3) == 0, ru16(r), ru16(r)
		h.enc, h.extra = uint8(r.Intn(8)), uint8(r.Intn(2))
		hh := func(id uint16) *model.MsgHeader {
			h.id = id
			x := h.header()
			x.Attr.BodyLength = uint16(r.Intn(1024))
			return x
		}
		encMsg(t, &model.Msg0002{Header: hh(2)}, h, nil)
		encMsg(t, &model.Msg0003{Header: hh(3)}, h, nil)
		encMsg(t, &model.Msg0004{Header: hh(4)}, h, nil)
		encMsg(t, &model.Msg8104{Header: hh(0x8104)}, h, nil)
		encMsg(t, &model.Msg0001{Header: hh(1), AnswerSerialNumber: a, AnswerMessageID: id, Result: res}, h, body)
		for _, m := range []model.JT808Msg{&model.Msg0002{}, &model.Msg0003{}, &model.Msg0004{}, &model.Msg8104{}} {
			decMsg(t, m, h, 0, rbytes(r, r.Intn(3)), false, nil)
		}
	}
}

// ---- C09 ----

func TestVerifC09(t *testing.T) {
	defer report(t)
	r := newRand()
	type rd struct {
		name string
		n    int
		f    func(b []byte, i *int) any
		want func(b []byte) any
	}
	mk := func(k int) []rd {
		return []rd{
			{"ReadByte", 1, func(b []byte, i *int) any { return hex.ReadByte(b, i) }, func(b []byte) any { return b[0] }},
			{"ReadWord", 2, func(b []byte, i *int) any { return hex.ReadWord(b, i) }, func(b []byte) any { return uint16(b[0])<<8 | uint16(b[1]) }},
			{"ReadDoubleWord", 4, func(b []byte, i *int) any { return hex.ReadDoubleWord(b, i) }, func(b []byte) any {
				return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
			}},
			{"ReadBytes", k, func(b []byte, i *int) any { return string(hex.ReadBytes(b, i, k)) }, func(b []byte) any { return string(b) }},
			{"ReadString", k, func(b []byte, i *int) any { return hex.ReadString(b, i, k) }, func(b []byte) any { return string(b) }},
			{"ReadBCD", k, func(b []byte, i *int) any { return hex.ReadBCD(b, i, k) }, func(b []byte) any { return unbcd(b) }},
			{"ReadGBK", k, func(b []byte, i *int) any { return hex.ReadGBK(b, i, k) }, func(b []byte) any { return gbkDec(b) }},
		}
	}
	read := func(x rd, b []byte, at int) {
		t.Helper()
		cases++
		keep := append([]byte{}, b...)
		// the packet may be part of a larger buffer
		b = append(make([]byte, 0, len(b)+cases%12), b...)
		copy(b[:cap(b)][len(b):], "~~~~~~~~~~~~")
		i := at
		var got any
		p, bad := try(func() { got = x.f(b, &i) })
		if !bytes.Equal(b, keep) {
			fail(t, "%s of %d at %d changes the packet %x to %x", x.name, x.n, at, keep, b)
		}
		if at < 0 || at+x.n > len(keep) {
			if !bad {
				fail(t, "%s of %d at %d of the packet %x returns %#v", x.name, x.n, at, keep, got)
			}
			return
		}
		if bad {
			fail(t, "%s of %d at %d of the packet %x panics: %v", x.name, x.n, at, keep, p)
		}
		if w := x.want(keep[at : at+x.n]); !reflect.DeepEqual(got, w) || i != at+x.n {
			fail(t, "%s of %d at %d of the packet %x returns %#v and moves to %d; want %#v and %d", x.name, x.n, at, keep, got, i, w, at+x.n)
		}
	}
	for n := 0; n < 8; n++ {
		for at := -1; at < 10; at++ {
			for k := 0; k < 9; k++ {
				for _, x := range mk(k) {
					read(x, rbytes(r, n), at)
				}
			}
		}
	}
	for i := 0; i < reps(4000); i++ {
		b := rbytes(r, rlen(r, 300))
		if r.Intn(3) == 0 {
			b = cat(b, gbkEnc(plates[r.Intn(len(plates))]))
		}
		if r.Intn(3) == 0 { // digits
			for j := range b {
				b[j] = byte(r.Intn(10)<<4 | r.Intn(10))
			}
		}
		at := 0
		if len(b) > 0 {
			at = r.Intn(len(b))
		}
		k := r.Intn(len(b) - at + 2)
		xs := mk(k)
		read(xs[r.Intn(len(xs))], b, at)
	}
	// F nibbles in BCD
	words([]byte{0xff, 0xf0, 0x0f, 0x12, 0x00}, 6, func(w []byte) { read(mk(len(w))[5], w, 0) })
	// writing
	wr := func(name string, before, want []byte, f func([]byte) []byte) {
		t.Helper()
		cases++
		keep := append([]byte{}, before...)
		buf := append(make([]byte, 0, len(before)+cases%17), before...)
		var got []byte
		if p, bad := try(func() { got = f(buf) }); bad {
			fail(t, "%s behind %x panics: %v", name, keep, p)
		}
		if !bytes.Equal(got, cat(keep, want)) {
			fail(t, "%s behind %x gives %x; want %x", name, keep, got, cat(keep, want))
		}
		if !bytes.Equal(buf, keep) {
			fail(t, "%s changes what was written before: %x became %x", name, keep, buf)
		}
	}
	for i := 0; i < 256; i++ {
		wr(fmt.Sprintf("WriteByte %d", i), rbytes(r, i%5), []byte{byte(i)}, func(b []byte) []byte { return hex.WriteByte(b, byte(i)) })
	}
	for i := 0; i < reps(4000); i++ {
		bf := rbytes(r, rlen(r, 30))
		w, d := ru16(r), ru32(r)
		wr(fmt.Sprintf("WriteWord %d", w), bf, be(uint64(w), 2), func(b []byte) []byte { return hex.WriteWord(b, w) })
		wr(fmt.Sprintf("WriteDoubleWord %d", d), bf, be(uint64(d), 4), func(b []byte) []byte { return hex.WriteDoubleWord(b, d) })
		x := rbytes(r, rlen(r, 300))
		wr(fmt.Sprintf("WriteBytes %x", x), bf, x, func(b []byte) []byte { return hex.WriteBytes(b, x) })
		src := append(append(make([]byte, 0, len(x)+4), x...), 1, 2, 3, 4)
		for _, b := range [][]byte{nil, {}, bf} { // the source is not part of what is written further on
			hex.WriteDoubleWord(hex.WriteBytes(b, src[:len(x)]), 0xffffffff)
			if !bytes.Equal(src, cat(x, []byte{1, 2, 3, 4})) {
				fail(t, "writing %x behind %x and then a double word changes the source's array to %x", x, b, src)
			}
		}
		wr(fmt.Sprintf("WriteString %x", x), bf, x, func(b []byte) []byte { return hex.WriteString(b, string(x)) })
		pl := plates[r.Intn(len(plates))] + rascii(r, r.Intn(9))
		wr(fmt.Sprintf("WriteGBK %q", pl), bf, gbkEnc(pl), func(b []byte) []byte { return hex.WriteGBK(b, pl) })
		dg := rdigits(r, 2*rlen(r, 20))
		wr("WriteBCD "+dg, bf, bcd(dg), func(b []byte) []byte { return hex.WriteBCD(b, dg) })
		od := rdigits(r, r.Intn(9))
		if len(od) < 8 {
			wr("WriteBCD "+od, bf, bcd(od), func(b []byte) []byte { return hex.WriteBCD(b, od) })
		}
		// read back
		out := hex.WriteBCD(nil, od)
		ix := 0
		if od != "" {
			if back := hex.ReadBCD(out, &ix, len(out)); back != od {
				fail(t, "BCD digits %q are written as %x and read back as %q", od, out, back)
			}
		}
		if len(dg) >= 8 {
			out, ix = hex.WriteBCD(nil, dg), 0
			if back := hex.ReadBCD(out, &ix, len(out)); back != dg || ix != len(dg)/2 {
				fail(t, "BCD digits %q are written as %x and read back as %q", dg, out, back)
			}
		}
		// times
		tm := time.Date(1990+r.Intn(120), time.Month(1+r.Intn(12)), 1+r.Intn(31), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1e9), time.FixedZone("x", (r.Intn(27)-13)*3600))
		ts := fmt.Sprintf("%02d%02d%02d%02d%02d%02d", tm.Year()%100, int(tm.Month()), tm.Day(), tm.Hour(), tm.Minute(), tm.Second())
		wr("WriteTime "+tm.String(), bf, bcd(ts), func(b []byte) []byte { return hex.WriteTime(b, tm) })
		if hex.FormatTime(tm) != ts {
			fail(t, "time %v is formatted as %s", tm, hex.FormatTime(tm))
		}
		tb, s := bcdTime(r)
		ix = 0
		std, _ := time.Parse("060102150405", s)
		if g := hex.ReadTime(tb, &ix); g.Format("060102150405") != s || ix != 6 || g.Year() != std.Year() {
			fail(t, "time digits %s are read as %v, position %d", s, g, ix)
		}
		if g := hex.ParseTime(s); g.Format("060102150405") != s || g.Year() != std.Year() {
			fail(t, "time digits %s are parsed as %v", s, g)
		}
		// hex strings
		if back := hex.Str2Byte(hex.Byte2Str(x)); !bytes.Equal(back, x) {
			fail(t, "bytes %x become %q and then %x", x, hex.Byte2Str(x), back)
		}
	}
}
