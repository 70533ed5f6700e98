package zzverif

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strconv"
	"testing"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

// ---- state ----

var codec = protocol.NewJT808PacketCodec()
var proc = protocol.NewJT808MsgProcessor()
var devs = storage.GetDeviceCache()
var geos = storage.GetGeoCache()
var pars = storage.GetDeviceParamsCache()

// timer gives the cron time to take in what was sent to it.
func timer() *protocol.KeepaliveTimer {
	tm := protocol.NewKeepaliveTimer()
	tm.Cancel("no such job")
	tm.Cancel("no such job")
	return tm
}

type jober interface {
	JobID() string
	Run()
}

func jobOf(phone string) (n int, j jober) {
	for _, e := range timer().Jobs() {
		if x, ok := e.Job.(jober); ok && x.JobID() == phone {
			n++
			j = x
		}
	}
	return
}

func cancelJobs(phone string) {
	for k := 0; k < 5; k++ {
		if n, _ := jobOf(phone); n == 0 {
			return
		}
		timer().Cancel(phone)
	}
}

func dev(phone string) *model.Device {
	d, err := devs.GetDeviceByPhone(phone)
	if err != nil {
		return nil
	}
	return d
}

// world: a few phones and plates, so that histories collide
type world struct {
	phones12, phones20 []string
	plates             []string
	sess               []*model.Session
	lastCode           map[string]string
}

func newWorld(r *rand.Rand, n int) *world {
	w := &world{lastCode: map[string]string{}}
	for i := 0; i < n; i++ {
		w.phones12 = append(w.phones12, rdigits(r, 12))
		w.phones20 = append(w.phones20, rdigits(r, 20))
	}
	w.plates = []string{"京A" + rascii(r, 4), "B" + rdigits(r, 5), "", "浙C" + rdigits(r, 3), "京A" + rascii(r, 5)}
	for i := 0; i < 3; i++ {
		c := &conn{addr: fmt.Sprintf("10.0.0.%d:%d", i, r.Intn(60000))}
		w.sess = append(w.sess, &model.Session{ID: c.addr, Conn: c})
	}
	return w
}

func (w *world) clear() {
	for _, p := range append(append([]string{}, w.phones12...), w.phones20...) {
		cancelJobs(p)
		devs.DelDeviceByPhone(p)
		geos.DelGeoByPhone(p)
		pars.DelDeviceParamsByPhone(p)
	}
	for _, p := range w.plates {
		devs.DelDeviceByCarPlate(p)
	}
	for _, s := range w.sess {
		storage.ClearSession(s.ID)
	}
}

func (w *world) hd(r *rand.Rand, id uint16) hd {
	h := rhd(r, id)
	if h.v2019 {
		h.phone = w.phones20[r.Intn(len(w.phones20))]
	} else {
		h.phone = w.phones12[r.Intn(len(w.phones12))]
	}
	if r.Intn(8) == 0 { // in fragments, but just one
		h.frag, h.total, h.index = true, 1, 1
	}
	return h
}

// step sends one whole message through decoding and processing.
func step(t *testing.T, s *model.Session, h hd, body []byte) (pd *model.ProcessData, err error, panicked bool) {
	t.Helper()
	cases++
	pkt, e := codec.Decode(frameOf(h.msg(body)))
	if e != nil {
		fail(t, "the frame of message %#x, body %x is refused: %v", h.id, body, e)
	}
	p, bad := try(func() { pd, err = proc.Process(sessCtx(s), pkt) })
	if bad {
		err = fmt.Errorf("panic: %v", p)
	}
	return pd, err, bad
}

func authOf(d *model.Device) string {
	f := fnv.New32a()
	f.Write([]byte(d.ID + "_" + d.Plate + "_" + d.Phone))
	return strconv.FormatUint(uint64(f.Sum32()), 10)
}

func regBody(r *rand.Rand, h hd, id, plate string) []byte {
	ml, dl, il := 5, 20, 7
	if h.v2019 {
		ml, dl, il = 11, 30, 30
	} else if plate == "" { // without a plate a 2013 registration reads as 2011
		dl = 8
	}
	return cat(be(44, 2), be(300, 2), pad("MANU", ml), pad("MODE", dl), pad(id, il), []byte{byte(r.Intn(4))}, gbkEnc(plate))
}

func authBody(h hd, code, imei, sv string) []byte {
	if !h.v2019 {
		return []byte(code)
	}
	return cat([]byte{byte(len(code))}, []byte(code), pad(imei, 15), pad(sv, 20))
}

func geoBody(r *rand.Rand, status uint32) []byte {
	tb, _ := bcdTime(r)
	if r.Intn(3) == 0 {
		tb = []byte{0x24, 0x01, 0x02, 0x03, 0x04, byte(r.Intn(3))} // often the same time again
	}
	return cat(be(uint64(ru32(r)), 4), be(uint64(status), 4), be(uint64(ru32(r)), 4), be(uint64(ru32(r)), 4), be(uint64(ru16(r)), 2), be(uint64(ru16(r)), 2), be(uint64(ru16(r)), 2), tb)
}

// isReply checks a reply's header: message id and addressee.
func isReply(t *testing.T, what string, pd *model.ProcessData, id uint16, h hd) {
	t.Helper()
	if pd == nil || pd.Outgoing == nil {
		fail(t, "%s: no reply, want %#x", what, id)
	}
	o := pd.Outgoing.GetHeader()
	if o == nil || o.MsgID != id || o.PhoneNumber != h.phone {
		fail(t, "%s: reply header is %+v, want message %#x to %s", what, o, id, h.phone)
	}
	// and on the wire
	f, err := codec.Encode(pd.Outgoing)
	if err != nil {
		fail(t, "%s: the reply %+v cannot be encoded: %v", what, pd.Outgoing, err)
	}
	b := inner(f)
	if len(b) < 12 || b[0] != byte(id>>8) || b[1] != byte(id) {
		fail(t, "%s: the reply is encoded as %x", what, b)
	}
	// a reply that has not been sent yet is not changed by handling other messages
	for _, k := range pending {
		if g, err := codec.Encode(k.m); err != nil || !bytes.Equal(g, k.f) {
			fail(t, "%s: then %s changes the earlier reply: encoded as %x, now %x, %v", k.what, what, k.f, g, err)
		}
	}
	if id != 0x0104 { // the stored list itself
		pending = append(pending, pend{pd.Outgoing, f, what})
		if len(pending) > 6 {
			pending = pending[1:]
		}
	}
}

type pend struct {
	m    model.JT808Msg
	f    []byte
	what string
}

var pending []pend

// isAck: the platform's general reply with this result.
func isAck(t *testing.T, what string, pd *model.ProcessData, h hd, res int) {
	t.Helper()
	isReply(t, what, pd, 0x8001, h)
	a, ok := pd.Outgoing.(*model.Msg8001)
	if !ok || a.AnswerSerialNumber != h.serial || a.AnswerMessageID != h.id || res >= 0 && int(a.Result) != res {
		fail(t, "%s: the reply is %T %+v, want serial %d, message %#x, result %d", what, pd.Outgoing, pd.Outgoing, h.serial, h.id, res)
	}
	f, _ := codec.Encode(pd.Outgoing)
	b := inner(f)
	hl := 12
	if h.v2019 {
		hl = 17
	}
	if h.frag {
		return
	}
	if want := cat(be(uint64(h.serial), 2), be(uint64(h.id), 2), []byte{byte(a.Result)}); len(b) != hl+6 || !bytes.Equal(b[hl:hl+5], want) {
		fail(t, "%s: the reply is encoded as %x, want body %x", what, b, want)
	}
}

type snap struct {
	dev  map[string]model.Device
	ptr  map[string]*model.Device
	jobs map[string]int
	plat map[string]*model.Device
	geo  map[string]*model.DeviceGeo
	all  int
}

func (w *world) snap() snap {
	s := snap{map[string]model.Device{}, map[string]*model.Device{}, map[string]int{}, map[string]*model.Device{}, map[string]*model.DeviceGeo{}, len(devs.ListDevice())}
	for _, p := range append(append([]string{}, w.phones12...), w.phones20...) {
		if d := dev(p); d != nil {
			s.dev[p], s.ptr[p] = *d, d
		}
		if n, _ := jobOf(p); n > 0 {
			s.jobs[p] = n
		}
		if g, err := geos.GetGeoLatestByPhone(p); err == nil {
			s.geo[p] = g
		}
	}
	for _, p := range w.plates {
		if d, err := devs.GetDeviceByPlate(p); err == nil {
			s.plat[p] = d
		}
	}
	return s
}

// same: nothing but what concerns the excepted phone and plate changed.
func (w *world) same(t *testing.T, what string, a snap, phone, plate string) {
	t.Helper()
	b := w.snap()
	for _, p := range append(append([]string{}, w.phones12...), w.phones20...) {
		if p == phone {
			continue
		}
		if a.dev[p] != b.dev[p] || a.ptr[p] != b.ptr[p] || a.jobs[p] != b.jobs[p] || a.geo[p] != b.geo[p] {
			fail(t, "%s: changes what is stored for phone %s: %+v (%d jobs) became %+v (%d jobs)", what, p, a.dev[p], a.jobs[p], b.dev[p], b.jobs[p])
		}
	}
	for _, p := range w.plates {
		if p != plate && a.plat[p] != b.plat[p] {
			fail(t, "%s: changes what is stored for plate %q: %v became %v", what, p, a.plat[p], b.plat[p])
		}
	}
	if phone == "" && plate == "" && a.all != b.all {
		fail(t, "%s: there were %d devices, now %d", what, a.all, b.all)
	}
}

func (w *world) register(t *testing.T, r *rand.Rand, strict bool) {
	t.Helper()
	h := w.hd(r, 0x0100)
	plate := w.plates[r.Intn(len(w.plates))]
	id := rfield(r, 7)
	s := w.sess[r.Intn(len(w.sess))]
	before := w.snap()
	t0 := time.Now()
	what := fmt.Sprintf("registration of phone %s, plate %q, id %q, 2019=%v", h.phone, plate, id, h.v2019)
	pd, err, _ := step(t, s, h, regBody(r, h, id, plate))
	if err != nil {
		fail(t, "%s fails: %v", what, err)
	}
	id = trimz([]byte(id))
	isReply(t, what, pd, 0x8100, h)
	m, ok := pd.Outgoing.(*model.Msg8100)
	if !ok || m.AnswerSerialNumber != h.serial {
		fail(t, "%s: the reply is %T %+v, want serial %d", what, pd.Outgoing, pd.Outgoing, h.serial)
	}
	want := 0
	if before.plat[plate] != nil {
		want = 1
	} else if before.ptr[h.phone] != nil {
		want = 3
	}
	if int(m.Result) != want {
		fail(t, "%s: result %d, want %d (plate known %v, phone known %v)", what, m.Result, want, before.plat[plate] != nil, before.ptr[h.phone] != nil)
	}
	if want != 0 {
		w.same(t, what+" (refused)", before, "", "")
		return
	}
	w.same(t, what, before, h.phone, plate)
	d := dev(h.phone)
	byp, _ := devs.GetDeviceByPlate(plate)
	if d == nil || byp != d {
		fail(t, "%s: found by phone %v, by plate %v", what, d, byp)
	}
	vd := model.Version2013
	if h.v2019 {
		vd = model.Version2019
	}
	if d.ID != id || d.Plate != plate || d.Phone != h.phone || d.SessionID != s.ID || d.Conn != s.Conn || d.Status != model.DeviceStatusOffline || d.VersionDesc != vd || d.ProtocolVersion != h.pv || d.LastestComTime.Before(t0.Truncate(0).Add(-time.Second)) {
		fail(t, "%s: stored device is %+v", what, *d)
	}
	if m.AuthCode != authOf(d) {
		fail(t, "%s: auth code %q, want %q", what, m.AuthCode, authOf(d))
	}
	if n, _ := jobOf(h.phone); n != 1 {
		fail(t, "%s: %d keepalive jobs", what, n)
	}
	w.lastCode[h.phone] = m.AuthCode
}

func (w *world) auth(t *testing.T, r *rand.Rand) {
	t.Helper()
	h := w.hd(r, 0x0102)
	if d := dev(h.phone); d != nil && r.Intn(8) == 0 { // only the derived code counts
		d.AuthCode = rdigits(r, 9)
		devs.CacheDevice(d)
	}
	before := w.snap()
	code := rdigits(r, 9)
	if d := before.ptr[h.phone]; d != nil && r.Intn(6) == 0 {
		code = d.AuthCode
	}
	if d := before.ptr[h.phone]; d != nil && r.Intn(4) > 0 {
		code = authOf(d)
	} else if r.Intn(2) == 0 {
		code = w.lastCode[h.phone]
	}
	if r.Intn(6) == 0 && len(code) > 0 {
		code = [...]string{code[:len(code)-1], code + "0", "0" + code, code + "\x00", "", code[1:]}[r.Intn(6)]
	}
	imei, sv := rdigits(r, 15), rascii(r, 1+r.Intn(19))
	what := fmt.Sprintf("authentication of phone %s with %q, 2019=%v", h.phone, code, h.v2019)
	t0 := time.Now()
	pd, err, _ := step(t, w.sess[0], h, authBody(h, code, imei, sv))
	if before.ptr[h.phone] == nil {
		if !errors.Is(err, storage.ErrDeviceNotFound) {
			fail(t, "%s, not registered: %v", what, err)
		}
		w.same(t, what, before, "", "")
		return
	}
	if err != nil {
		fail(t, "%s fails: %v", what, err)
	}
	old := before.dev[h.phone]
	w.same(t, what, before, h.phone, old.Plate)
	d := dev(h.phone)
	if code == authOf(&old) {
		isAck(t, what, pd, h, 0)
		n, _ := jobOf(h.phone)
		if !h.v2019 {
			imei, sv = "", ""
		}
		if d != before.ptr[h.phone] || d.Status != model.DeviceStatusOnline || d.IMEI != imei || d.SoftwareVersion != sv || d.LastestComTime.Before(t0) || d.AuthCode != code || d.Plate != old.Plate || d.SessionID != old.SessionID || d.ID != old.ID || n != before.jobs[h.phone] {
			fail(t, "%s succeeds: device is %+v, %d jobs, want IMEI %s, software %q", what, d, n, imei, sv)
		}
		if by, _ := devs.GetDeviceByPlate(old.Plate); by != d {
			fail(t, "%s succeeds: by plate %v", what, by)
		}
		return
	}
	isAck(t, what, pd, h, 1)
	w.gone(t, what, &old)
}

func (w *world) gone(t *testing.T, what string, old *model.Device) {
	t.Helper()
	n, _ := jobOf(old.Phone)
	_, err := devs.GetDeviceByPlate(old.Plate)
	if dev(old.Phone) != nil || err == nil || n != 0 {
		fail(t, "%s: the device stays: %+v, by plate found %v, %d jobs", what, dev(old.Phone), err == nil, n)
	}
}

func (w *world) logout(t *testing.T, r *rand.Rand) {
	t.Helper()
	h := w.hd(r, 0x0003)
	before := w.snap()
	what := fmt.Sprintf("logout of phone %s", h.phone)
	pd, err, _ := step(t, w.sess[0], h, rbytes(r, r.Intn(2)))
	if before.ptr[h.phone] == nil {
		if !errors.Is(err, storage.ErrDeviceNotFound) {
			fail(t, "%s, not registered: %v", what, err)
		}
		w.same(t, what, before, "", "")
		return
	}
	if err != nil {
		fail(t, "%s fails: %v", what, err)
	}
	isAck(t, what, pd, h, 0)
	old := before.dev[h.phone]
	w.same(t, what, before, h.phone, old.Plate)
	w.gone(t, what, &old)
}

func (w *world) heartbeat(t *testing.T, r *rand.Rand) {
	t.Helper()
	h := w.hd(r, 0x0002)
	before := w.snap()
	what := fmt.Sprintf("heartbeat of phone %s", h.phone)
	t0 := time.Now()
	pd, err, _ := step(t, w.sess[0], h, rbytes(r, r.Intn(2)))
	if before.ptr[h.phone] == nil {
		if !errors.Is(err, storage.ErrDeviceNotFound) {
			fail(t, "%s, not registered: %v", what, err)
		}
		w.same(t, what, before, "", "")
		return
	}
	if err != nil {
		fail(t, "%s fails: %v", what, err)
	}
	isAck(t, what, pd, h, 0)
	w.same(t, what, before, h.phone, before.dev[h.phone].Plate)
	d := dev(h.phone)
	old := before.dev[h.phone]
	if d != before.ptr[h.phone] || d.LastestComTime.Before(t0) {
		fail(t, "%s: device is %+v, last heard %v", what, d, d.LastestComTime)
	}
	c := *d
	c.LastestComTime = old.LastestComTime
	if c != old {
		fail(t, "%s: changes the device %+v to %+v", what, old, *d)
	}
	if n, _ := jobOf(h.phone); n != before.jobs[h.phone] {
		fail(t, "%s: %d jobs, before %d", what, n, before.jobs[h.phone])
	}
}

func (w *world) location(t *testing.T, r *rand.Rand) {
	t.Helper()
	h := w.hd(r, 0x0200)
	before := w.snap()
	st := ru32(r)
	what := fmt.Sprintf("location report of phone %s, status %08x", h.phone, st)
	body := geoBody(r, st)
	t0 := time.Now()
	pd, err, _ := step(t, w.sess[0], h, append(append([]byte{}, body...), rbytes(r, r.Intn(4))...))
	if before.ptr[h.phone] == nil {
		if !errors.Is(err, storage.ErrDeviceNotFound) {
			fail(t, "%s, not registered: %v", what, err)
		}
		w.same(t, what, before, "", "")
		return
	}
	if err != nil {
		fail(t, "%s fails: %v", what, err)
	}
	isAck(t, what, pd, h, 0)
	w.same(t, what, before, h.phone, before.dev[h.phone].Plate)
	d, old := dev(h.phone), before.dev[h.phone]
	if d != before.ptr[h.phone] {
		fail(t, "%s: device is %+v", what, d)
	}
	if st&1 == 0 {
		if d.Status != model.DeviceStatusSleeping || d.LastestComTime.Before(t0) {
			fail(t, "%s (asleep): status %d, last heard %v", what, d.Status, d.LastestComTime)
		}
	} else if *d != old {
		fail(t, "%s: changes the device %+v to %+v", what, old, *d)
	}
	g, err := geos.GetGeoLatestByPhone(h.phone)
	if err != nil {
		fail(t, "%s: no position afterwards", what)
	}
	lat := uint32(body[8])<<24 | uint32(body[9])<<16 | uint32(body[10])<<8 | uint32(body[11])
	lon := uint32(body[12])<<24 | uint32(body[13])<<16 | uint32(body[14])<<8 | uint32(body[15])
	w16 := func(i int) uint16 { return uint16(body[i])<<8 | uint16(body[i+1]) }
	if g == before.geo[h.phone] || g.Phone != h.phone || g.Location.Latitude != float64(lat)/1e6 || g.Location.Longitude != float64(lon)/1e6 || g.Location.Altitude != w16(16) ||
		g.Drive.Speed != float64(w16(18))/10 || g.Drive.Direction != w16(20) || g.Time.Format("060102150405") != unbcd(body[22:28]) {
		fail(t, "%s, body %x: the latest position is %+v %+v %+v", what, body, g, g.Location, g.Drive)
	}
	checkGeo(t, g.Geo, st)
}

func history(t *testing.T, n, k int, f func(w *world, r *rand.Rand)) {
	r := newRand()
	for i := 0; i < n; i++ {
		debugLog(i%3 == 0)
		w := newWorld(r, 2)
		w.clear()
		for j := 0; j < k; j++ {
			f(w, r)
		}
		w.clear()
	}
	debugLog(false)
}

func TestVerifC11(t *testing.T) {
	defer report(t)
	history(t, reps(60), 30, func(w *world, r *rand.Rand) {
		switch r.Intn(12) {
		case 0, 1:
			w.register(t, r, false)
		case 2, 3:
			w.auth(t, r)
		case 4:
			w.heartbeat(t, r)
		case 5:
			w.location(t, r)
		case 6:
			w.logout(t, r)
		default:
			w.other(t, r)
		}
	})
	// ids nobody handles, all of them
	r := newRand()
	w := newWorld(r, 1)
	handled := map[uint16]bool{}
	for _, id := range []uint16{1, 2, 3, 0x100, 0x102, 0x104, 0x200, 0x1205, 0x8001, 0x8100, 0x8103, 0x8104, 0x9205} {
		handled[id] = true
	}
	before := w.snap()
	for id := 0; id < 65536; id++ {
		if handled[uint16(id)] {
			continue
		}
		h := w.hd(r, uint16(id))
		pd, err, bad := step(t, w.sess[0], h, rbytes(r, r.Intn(3)))
		if err == nil || bad || pd != nil && pd.Outgoing != nil {
			fail(t, "message id %#x, which is not handled: %+v, %v", id, pd, err)
		}
	}
	w.same(t, "messages with ids that are not handled", before, "", "")
}

// other: messages that touch no device
func (w *world) other(t *testing.T, r *rand.Rand) {
	t.Helper()
	before := w.snap()
	s := w.sess[0]
	quiet := func(h hd, body []byte) {
		t.Helper()
		what := fmt.Sprintf("message %#x of phone %s, body %x", h.id, h.phone, body)
		pd, err, bad := step(t, s, h, body)
		if bad || pd != nil && pd.Outgoing != nil {
			fail(t, "%s: reply %+v, %v", what, pd, err)
		}
		w.same(t, what, before, h.phone, before.dev[h.phone].Plate)
	}
	switch r.Intn(8) {
	case 0:
		quiet(w.hd(r, 0x0001), rbytes(r, 5+r.Intn(2)))
	case 1:
		it := ritem(r, true)
		quiet(w.hd(r, 0x0104), cat(be(uint64(ru16(r)), 2), []byte{1}, it.bytes()))
	case 2:
		t1, _ := bcdTime(r)
		quiet(w.hd(r, 0x1205), cat(rbytes(r, 7), t1, t1, rbytes(r, 15)))
	case 3:
		quiet(w.hd(r, 0x8001), rbytes(r, 5))
	case 4: // media query
		h := w.hd(r, 0x9205)
		t1, s1 := bcdTime(r)
		t2, s2 := bcdTime(r)
		ch := byte(r.Intn(256))
		what := fmt.Sprintf("media query of phone %s, channel %d, %s to %s", h.phone, ch, s1, s2)
		pd, err, _ := step(t, s, h, cat([]byte{ch}, t1, t2, rbytes(r, 11)))
		if err != nil {
			fail(t, "%s fails: %v", what, err)
		}
		isReply(t, what, pd, 0x1205, h)
		m, ok := pd.Outgoing.(*model.Msg1205)
		if !ok || m.AnswerSerialNumber != h.serial || m.LogicChannelID != ch || m.StartTime.Format("060102150405") != s1 || m.EndTime.Format("060102150405") != s2 || m.MediaCount != 1 {
			fail(t, "%s: reply is %+v", what, pd.Outgoing)
		}
		w.same(t, what, before, "", "")
	case 5: // parameter query
		h := w.hd(r, 0x8104)
		what := fmt.Sprintf("parameter query to phone %s", h.phone)
		had, herr := pars.GetDeviceParamsByPhone(h.phone)
		pd, err, _ := step(t, s, h, nil)
		if err != nil {
			fail(t, "%s fails: %v", what, err)
		}
		isReply(t, what, pd, 0x0104, h)
		m, ok := pd.Outgoing.(*model.Msg0104)
		if !ok || m.AnswerSerialNumber != h.serial || m.Parameters == nil || herr == nil && m.Parameters != had {
			fail(t, "%s: reply is %+v", what, pd.Outgoing)
		}
		w.same(t, what, before, "", "")
	case 6: // parameter setting
		h := w.hd(r, 0x8103)
		n := r.Intn(4)
		body := []byte{byte(n)}
		for k := 0; k < n; k++ {
			body = append(body, ritem(r, true).bytes()...)
		}
		what := fmt.Sprintf("parameter setting to phone %s, body %x", h.phone, body)
		pd, err, _ := step(t, s, h, body)
		if err != nil {
			fail(t, "%s fails: %v", what, err)
		}
		isReply(t, what, pd, 0x0001, h)
		m, ok := pd.Outgoing.(*model.Msg0001)
		if !ok || m.AnswerSerialNumber != h.serial || m.AnswerMessageID != 0x8103 || m.Result != 0 {
			fail(t, "%s: reply is %+v", what, pd.Outgoing)
		}
		if _, err := pars.GetDeviceParamsByPhone(h.phone); err != nil {
			fail(t, "%s: no parameters are stored", what)
		}
		w.same(t, what, before, "", "")
	case 7: // registration reply, seen by a terminal
		h := w.hd(r, 0x8100)
		code := rdigits(r, 9)
		what := fmt.Sprintf("registration reply to phone %s, code %q", h.phone, code)
		pd, err, _ := step(t, s, h, cat(be(uint64(ru16(r)), 2), []byte{0}, []byte(code)))
		if before.ptr[h.phone] == nil {
			if err == nil {
				fail(t, "%s, unknown device: reply %+v", what, pd)
			}
			return
		}
		if err != nil {
			fail(t, "%s fails: %v", what, err)
		}
		isReply(t, what, pd, 0x0102, h)
		m, ok := pd.Outgoing.(*model.Msg0102)
		if !ok || m.AuthCode != code || m.IMEI != before.dev[h.phone].IMEI || m.SoftwareVersion != before.dev[h.phone].SoftwareVersion {
			fail(t, "%s: reply is %+v", what, pd.Outgoing)
		}
		w.same(t, what, before, "", "")
	}
}

func TestVerifC12(t *testing.T) {
	defer report(t)
	history(t, reps(120), 25, func(w *world, r *rand.Rand) {
		switch r.Intn(6) {
		case 0:
			w.auth(t, r)
		case 1:
			w.logout(t, r)
		case 2:
			w.location(t, r)
		default:
			w.register(t, r, true)
		}
	})
}

func TestVerifC13(t *testing.T) {
	defer report(t)
	history(t, reps(120), 30, func(w *world, r *rand.Rand) {
		switch r.Intn(8) {
		case 0, 1, 2:
			w.register(t, r, true)
		case 3, 4:
			w.auth(t, r)
		case 5:
			w.logout(t, r)
		case 6:
			w.location(t, r)
		case 7:
			if r.Intn(2) == 0 {
				w.heartbeat(t, r)
				return
			}
			// a fragment of an unknown phone
			h := w.hd(r, 0x0200)
			h.frag, h.total, h.index = true, 2, 1
			if dev(h.phone) != nil {
				return
			}
			before := w.snap()
			_, err, _ := step(t, w.sess[0], h, []byte{1})
			if !errors.Is(err, storage.ErrDeviceNotFound) {
				fail(t, "a fragment of phone %s, not registered: %v", h.phone, err)
			}
			w.same(t, "a fragment of an unknown phone", before, "", "")
			h.index = 2 // end it
			codec.Decode(frameOf(h.msg(nil)))
		}
	})
}

func TestVerifC14(t *testing.T) {
	defer report(t)
	r := newRand()
	// silence of a device, in every status, on both sides of the period
	for i := 0; i < reps(100); i++ {
		w := newWorld(r, 2)
		w.clear()
		for k := 0; k < 6; k++ {
			w.register(t, r, true)
		}
		for _, p := range append(append([]string{}, w.phones12...), w.phones20...) {
			d := dev(p)
			if d == nil {
				continue
			}
			cases++
			c := &conn{addr: "k"}
			d.Conn = c
			d.Keepalive = []time.Duration{time.Minute, time.Second, time.Hour, 90 * time.Second}[r.Intn(4)]
			d.Status = model.DeviceStatus(r.Intn(3))
			late := r.Intn(2) == 0
			ago := d.Keepalive - 500*time.Millisecond - time.Duration(r.Intn(400))*time.Millisecond
			if late {
				ago = d.Keepalive + 5*time.Millisecond + time.Duration(r.Intn(3000))*time.Millisecond
			}
			if late && r.Intn(4) == 0 {
				ago = d.Keepalive + 3*time.Millisecond
			}
			d.LastestComTime = time.Now().Add(-ago)
			if r.Intn(4) == 0 {
				geos.GetGeoRingByPhone(p).Write(&model.DeviceGeo{Phone: p})
			}
			before := w.snap()
			n, j := jobOf(p)
			if n != 1 {
				fail(t, "%d keepalive jobs of phone %s", n, p)
			}
			what := fmt.Sprintf("check of a device with status %d, period %v, silent for %v", d.Status, d.Keepalive, ago)
			within(t, 20*time.Second, what, j.Run)
			old := before.dev[p]
			now := dev(p)
			switch {
			case !late:
				w.same(t, what, before, "", "")
				if c.closed != 0 {
					fail(t, "%s: closes the connection", what)
				}
			case old.Status != model.DeviceStatusOffline:
				want := old
				want.Status = model.DeviceStatusOffline
				w.same(t, what, before, p, old.Plate)
				by, _ := devs.GetDeviceByPlate(old.Plate)
				n, _ := jobOf(p)
				g, _ := geos.GetGeoLatestByPhone(p)
				if now == nil || *now != want || by != now || c.closed != 0 || n != 1 || g != before.geo[p] {
					fail(t, "%s: device becomes %+v, closed %d times, %d jobs, position %v", what, now, c.closed, n, g)
				}
			default:
				w.same(t, what, before, p, old.Plate)
				if c.closed == 0 {
					fail(t, "%s: the connection is not closed", what)
				}
				w.gone(t, what, &old)
				if g, err := geos.GetGeoLatestByPhone(p); err == nil {
					fail(t, "%s: its position %v stays", what, g)
				}
			}
		}
		// a check of a device that is gone
		w.register(t, r, true)
		for _, p := range append(append([]string{}, w.phones12...), w.phones20...) {
			if n, j := jobOf(p); n == 1 && r.Intn(2) == 0 {
				devs.DelDeviceByPhone(p)
				before := w.snap()
				within(t, 20*time.Second, "check of a device that is gone", j.Run)
				if n, _ := jobOf(p); n != 0 {
					fail(t, "check of a device that is gone: its job stays")
				}
				w.same(t, "check of a device that is gone", before, p, "")
			}
		}
		w.clear()
	}
	// what counts as communication
	history(t, reps(40), 25, func(w *world, r *rand.Rand) {
		switch r.Intn(5) {
		case 0, 1:
			w.register(t, r, true)
		case 2:
			w.heartbeat(t, r)
		case 3:
			w.auth(t, r)
		default:
			w.location(t, r)
		}
	})
}

func TestVerifC16(t *testing.T) {
	defer report(t)
	history(t, reps(10), 60, func(w *world, r *rand.Rand) {
		switch r.Intn(10) {
		case 0:
			w.register(t, r, true)
		case 1:
			w.logout(t, r)
		default:
			w.location(t, r)
		}
	})
	history(t, reps(4), 1, func(w *world, r *rand.Rand) { // wraps
		for k := 0; k < 4; k++ {
			w.register(t, r, true)
		}
		for k := 0; k < 700; k++ {
			w.location(t, r)
		}
	})
	r := newRand()
	p := "16" + rdigits(r, 10)
	if g, err := geos.GetGeoLatestByPhone(p); err == nil || g != nil {
		fail(t, "a phone without reports has the position %v", g)
	}
	for n := 0; n < 220; n++ {
		cases++
		for k := 0; k < n; k++ {
			geos.GetGeoRingByPhone(p).Write(&model.DeviceGeo{Phone: p})
		}
		geos.DelGeoByPhone(p)
		if g, err := geos.GetGeoLatestByPhone(p); err == nil || g != nil {
			fail(t, "after %d positions are written and the phone's positions are deleted, it has the position %v", n, g)
		}
	}
	ringOK(t, r)
}

// Settings through the message processor: the first is stored as it is, later
// ones update it.
func TestVerifC10_bounded2(t *testing.T) {
	defer report(t)
	history(t, reps(60), 20, func(w *world, r *rand.Rand) {
		h := w.hd(r, 0x8103)
		n := r.Intn(5)
		body := []byte{byte(n)}
		var items []item
		for k := 0; k < n; k++ {
			it := ritem(r, r.Intn(5) > 0)
			if r.Intn(2) == 0 { // ids met before
				it = item{id: 0x01 + uint32(r.Intn(3)), ln: 4, b: be(uint64(ru32(r)), 4)}
				it.val = uint32(it.b[0])<<24 | uint32(it.b[1])<<16 | uint32(it.b[2])<<8 | uint32(it.b[3])
			}
			items = append(items, it)
			body = append(body, it.bytes()...)
		}
		want := map[uint32]item{}
		had, err := pars.GetDeviceParamsByPhone(h.phone)
		what := fmt.Sprintf("setting %x for phone %s, which has no parameters,", body, h.phone)
		if err == nil {
			what = fmt.Sprintf("setting %x for phone %s, which has %s,", body, h.phone, showParams(had.Params))
			for _, p := range had.Params {
				want[p.ParamID] = item{id: p.ParamID, ln: p.ParamLen, val: p.ParamValue}
			}
			for _, it := range items {
				if _, ok := want[it.id]; ok {
					want[it.id] = it
				}
			}
			items = nil
			for _, it := range want {
				items = append(items, it)
			}
			sort.Slice(items, func(i, j int) bool { return items[i].id < items[j].id })
		}
		_, err, _ = step(t, w.sess[0], h, body)
		if err != nil {
			fail(t, "%s fails: %v", what, err)
		}
		now, err := pars.GetDeviceParamsByPhone(h.phone)
		if err != nil {
			fail(t, "%s leaves nothing stored", what)
		}
		checkList(t, what, now, items)
		if r.Intn(8) == 0 {
			pars.DelDeviceParamsByPhone(h.phone)
		}
	})
}
