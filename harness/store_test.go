package zzverif

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/pkg/container"
)

func ringOK(t *testing.T, r *rand.Rand) {
	t.Helper()
	for _, size := range []int32{1, 2, 3, 7, 100} {
		rb := container.NewRingBuffer(size)
		slots := make([]any, size)
		n, rd := 0, 0
		for i := 0; i < 1000; i++ {
			cases++
			what := fmt.Sprintf("ring of %d after %d writes and %d reads", size, n, rd)
			switch k := r.Intn(10); {
			case k < 6:
				rb.Write(i)
				slots[n%int(size)] = i
				n++
				what = fmt.Sprintf("ring of %d after %d writes", size, n)
			case k < 8:
				if g := rb.Read(); g != slots[rd%int(size)] {
					fail(t, "%s: reads %v, want %v", what, g, slots[rd%int(size)])
				}
				rd++
			case k == 8 && r.Intn(3) == 0:
				rb.Overwrite(-i)
				slots[n%int(size)] = -i
			}
			if g := rb.Latest(); n > 0 && g != slots[(n-1)%int(size)] {
				fail(t, "%s: the latest is %v, want %v", what, g, slots[(n-1)%int(size)])
			}
			if g := rb.Oldest(); g != slots[n%int(size)] {
				fail(t, "%s: the oldest is %v, want %v", what, g, slots[n%int(size)])
			}
		}
	}
}

func TestVerifC15(t *testing.T) {
	defer report(t)
	r := newRand()
	for i := 0; i < reps(150); i++ {
		phones := []string{"", "1", "2", "3", "京"}
		plates := []string{"", "1", "A", "B", "京"}
		// the model: which device each key leads to
		byPh, byPl := map[string]*model.Device{}, map[string]*model.Device{}
		for _, p := range phones {
			devs.DelDeviceByPhone(p)
		}
		for _, p := range plates {
			devs.DelDeviceByCarPlate(p)
		}
		base := len(devs.ListDevice())
		log := ""
		for k := 0; k < 60; k++ {
			cases++
			switch op := r.Intn(5); op {
			case 0, 1: // store under keys that are free, or again under its own
				d := &model.Device{Phone: phones[r.Intn(5)], Plate: plates[r.Intn(5)], ID: fmt.Sprint(k % 3)}
				if r.Intn(2) == 0 {
					d.Status, d.SessionID, d.Keepalive = model.DeviceStatus(r.Intn(3)), phones[r.Intn(5)], time.Duration(r.Intn(3))*time.Minute
				}
				if r.Intn(2) == 0 {
					d.LastestComTime, d.Conn = time.Now(), &conn{}
				}
				if o := byPh[d.Phone]; o != nil && r.Intn(4) == 0 { // the very same device again
					d = o
				}
				if byPh[d.Phone] != byPl[d.Plate] {
					continue // keys of two devices: outside the property
				}
				if o := byPh[d.Phone]; o != nil && (o.Phone != d.Phone || o.Plate != d.Plate) {
					continue
				}
				log += fmt.Sprintf("store %s/%s; ", d.Phone, d.Plate)
				devs.CacheDevice(d)
				byPh[d.Phone], byPl[d.Plate] = d, d
			case 2:
				p := phones[r.Intn(5)]
				log += "delete phone " + p + "; "
				devs.DelDeviceByPhone(p)
				if d := byPh[p]; d != nil {
					delete(byPh, d.Phone)
					delete(byPl, d.Plate)
				}
			case 3:
				p := plates[r.Intn(5)]
				log += "delete plate " + p + "; "
				devs.DelDeviceByCarPlate(p)
				if d := byPl[p]; d != nil {
					delete(byPh, d.Phone)
					delete(byPl, d.Plate)
				}
			}
			for _, p := range phones {
				d, err := devs.GetDeviceByPhone(p)
				if d != byPh[p] || (err == nil) != (d != nil) || err != nil && !errors.Is(err, storage.ErrDeviceNotFound) || devs.HasPhone(p) != (d != nil) {
					fail(t, "after %s: phone %q leads to %+v, %v; want %+v", log, p, d, err, byPh[p])
				}
			}
			for _, p := range plates {
				d, err := devs.GetDeviceByPlate(p)
				if d != byPl[p] || (err == nil) != (d != nil) || err != nil && !errors.Is(err, storage.ErrDeviceNotFound) || devs.HasPlate(p) != (d != nil) {
					fail(t, "after %s: plate %q leads to %+v, %v; want %+v", log, p, d, err, byPl[p])
				}
			}
			if n := len(devs.ListDevice()); n != base+len(byPh) {
				fail(t, "after %s: %d devices are listed, want %d", log, n, base+len(byPh))
			}
		}
		for _, p := range phones {
			devs.DelDeviceByPhone(p)
		}
	}
	// parameter lists and sessions
	for i := 0; i < reps(100); i++ {
		keys := []string{"", "1", "11", "2", "京"}
		mp, ms := map[string]*model.DeviceParams{}, map[string]*model.Session{}
		for _, k := range keys {
			pars.DelDeviceParamsByPhone(k)
			storage.ClearSession(k)
		}
		log := ""
		for k := 0; k < 50; k++ {
			cases++
			key := keys[r.Intn(5)]
			switch r.Intn(4) {
			case 0:
				log += "store list " + key + "; "
				mp[key] = &model.DeviceParams{DevicePhone: key}
				for n := r.Intn(3); n > 0; n-- {
					mp[key].Params = append(mp[key].Params, &model.ParamData{ParamID: uint32(r.Intn(4))})
					mp[key].ParamCnt = uint8(r.Intn(3))
				}
				pars.CacheDeviceParams(mp[key])
			case 1:
				log += "delete list " + key + "; "
				pars.DelDeviceParamsByPhone(key)
				delete(mp, key)
			case 2:
				log += "store session " + key + "; "
				ms[key] = &model.Session{ID: key, Conn: &conn{}}
				if r.Intn(3) == 0 {
					ms[key].Conn = nil
				}
				storage.StoreSession(ms[key])
			case 3:
				log += "clear session " + key + "; "
				storage.ClearSession(key)
				delete(ms, key)
			}
			for _, q := range keys {
				d, err := pars.GetDeviceParamsByPhone(q)
				if d != mp[q] || (err == nil) != (d != nil) || err != nil && !errors.Is(err, storage.ErrDeviceParamsNotFound) {
					fail(t, "after %s: list %q is %v, %v; want %v", log, q, d, err, mp[q])
				}
				s, err := storage.GetSession(q)
				if s != ms[q] || (err == nil) != (s != nil) || err != nil && !errors.Is(err, storage.ErrSessionClosed) {
					fail(t, "after %s: session %q is %v, %v; want %v", log, q, s, err, ms[q])
				}
			}
		}
		for _, k := range keys {
			pars.DelDeviceParamsByPhone(k)
			storage.ClearSession(k)
		}
	}
	// many of each
	many := reps(1000)
	for k := 0; k < 2*many; k++ {
		cases++
		key := fmt.Sprintf("m%d", k%many)
		if k < many {
			devs.CacheDevice(&model.Device{Phone: key, Plate: "p" + key})
			pars.CacheDeviceParams(&model.DeviceParams{DevicePhone: key})
			storage.StoreSession(&model.Session{ID: key, Conn: &conn{}})
			continue
		}
		d, _ := devs.GetDeviceByPhone(key)
		e, _ := devs.GetDeviceByPlate("p" + key)
		q, _ := pars.GetDeviceParamsByPhone(key)
		s, _ := storage.GetSession(key)
		if d == nil || d.Phone != key || d != e || q == nil || q.DevicePhone != key || s == nil || s.ID != key {
			fail(t, "of %d stored, number %d is found as %v, %v, list %v, session %v", many, k-many, d, e, q, s)
		}
		devs.DelDeviceByPhone(key)
		pars.DelDeviceParamsByPhone(key)
		storage.ClearSession(key)
	}
	// positions
	for i := 0; i < reps(30); i++ {
		keys := []string{"g1", "g2", "g11"}
		last := map[string]*model.DeviceGeo{}
		for _, k := range keys {
			geos.DelGeoByPhone(k)
		}
		for k := 0; k < 300; k++ {
			key := keys[r.Intn(3)]
			if r.Intn(60) == 0 {
				geos.DelGeoByPhone(key)
				delete(last, key)
			} else {
				last[key] = &model.DeviceGeo{Phone: key}
				geos.GetGeoRingByPhone(key).Write(last[key])
			}
			for _, q := range keys {
				if g, err := geos.GetGeoLatestByPhone(q); g != last[q] || (err == nil) != (g != nil) {
					fail(t, "latest position of %q is %v, %v; want %v", q, g, err, last[q])
				}
			}
		}
	}
}

// ---- C17 ----

type flow struct {
	h     hd
	total int
	next  int
	join  []byte
}

func TestVerifC17(t *testing.T) {
	defer report(t)
	r := newRand()
	ids := []uint16{0x0200, 0x0104, 0x0002, 0x0100, 0x1205, 0x0102, 0x8103}
	for i := 0; i < reps(60); i++ {
		debugLog(i%3 == 0)
		w := newWorld(r, 3)
		w.clear()
		for _, s := range w.sess {
			storage.StoreSession(s)
		}
		for k := 0; k < 8; k++ {
			w.register(t, r, true)
		}
		flows := map[string]*flow{}
		for k := 0; k < 120; k++ {
			cases++
			id := ids[r.Intn(len(ids))]
			if r.Intn(5) == 0 {
				id = uint16(r.Intn(0xd000)) // outside the surrogates
			}
			h := w.hd(r, id)
			if r.Intn(6) == 0 && len(flows) > 0 { // a message that is not fragmented in between
				h.frag = false
				pd, err := codec.Decode(frameOf(h.msg([]byte{1, 2})))
				if err != nil || !bytes.Equal(pd.Body, []byte{1, 2}) {
					fail(t, "an unfragmented message of phone %s, id %#x between fragments is decoded as %+v, %v", h.phone, h.id, pd, err)
				}
				continue
			}
			key := fmt.Sprintf("%s/%d", h.phone, h.id)
			f := flows[key]
			if f == nil {
				f = &flow{total: 2 + r.Intn(5), next: 1}
				if r.Intn(8) == 0 {
					f.total = 1
				}
				flows[key] = f
			}
			h.frag, h.total, h.index = true, uint16(f.total), uint16(f.next)
			body := rbytes(r, rlen(r, 1023))
			f.join = append(f.join, body...)
			last := f.next == f.total
			what := fmt.Sprintf("fragment %d of %d of phone %s, message %#x", f.next, f.total, h.phone, h.id)
			frame := frameOf(h.msg(body))
			pkt, err := codec.Decode(frame)
			for b := range frame { // the receive buffer may be reused
				frame[b] = 0xaa
			}
			if err != nil || pkt.SegCompleted != last {
				fail(t, "%s: completed=%v, %v", what, pkt != nil && pkt.SegCompleted, err)
			}
			if last {
				if !bytes.Equal(pkt.Body, f.join) {
					fail(t, "%s: joined body of %d bytes differs from the %d bytes sent: %x, want %x", what, len(pkt.Body), len(f.join), pkt.Body, f.join)
				}
				delete(flows, key)
			} else {
				f.next++
			}
			handled := false
			for _, x := range ids {
				handled = handled || x == h.id
			}
			if !handled || last {
				continue
			}
			before := w.snap()
			var pd *model.ProcessData
			p, bad := try(func() { pd, err = proc.Process(sessCtx(w.sess[0]), pkt) })
			if bad {
				fail(t, "%s: panics: %v", what, p)
			}
			w.same(t, what, before, "", "")
			d := dev(h.phone)
			if d == nil {
				if !errors.Is(err, storage.ErrDeviceNotFound) {
					fail(t, "%s, not registered: %v", what, err)
				}
				continue
			}
			if err != nil || pd == nil || pd.Incoming != nil {
				fail(t, "%s: %+v, %v", what, pd, err)
			}
			isAck(t, what, pd, h, 0)
		}
		// the rest, so that nothing stays behind
		for _, id := range ids {
			_ = id
		}
		for k, f := range flows {
			_ = k
			_ = f
		}
		w.clear()
	}
	debugLog(false)
	// messages of many fragments
	for _, n := range []int{255, 256, 257, 300, 700, 65535} {
		w := newWorld(r, 1)
		w.clear()
		for _, s := range w.sess {
			storage.StoreSession(s)
		}
		for len(w.snap().ptr) == 0 {
			w.register(t, r, true)
		}
		for p := range w.snap().ptr {
			h := hd{id: 0x0104, v2019: len(p) == 20, phone: p, frag: true, total: uint16(n), serial: ru16(r)}
			var join []byte
			for k := 1; k <= n; k++ {
				cases++
				h.index, h.serial = uint16(k), h.serial+1
				body := rbytes(r, r.Intn(3))
				if n < 1000 && k%50 == 0 {
					body = rbytes(r, 1023)
				}
				join = append(join, body...)
				what := fmt.Sprintf("fragment %d of %d of phone %s, message %#x, serial %d", k, n, h.phone, h.id, h.serial)
				pkt, err := codec.Decode(frameOf(h.msg(body)))
				if err != nil || pkt.SegCompleted != (k == n) {
					fail(t, "%s: completed=%v, %v", what, pkt != nil && pkt.SegCompleted, err)
				}
				if k == n {
					if !bytes.Equal(pkt.Body, join) {
						fail(t, "%s: joined body of %d bytes differs from the %d bytes sent", what, len(pkt.Body), len(join))
					}
					continue
				}
				if n > 1000 && k%500 > 3 && k < n-3 {
					continue
				}
				pd, err := proc.Process(sessCtx(w.sess[0]), pkt)
				if err != nil || pd == nil || pd.Incoming != nil {
					fail(t, "%s: %+v, %v", what, pd, err)
				}
				isAck(t, what, pd, h, 0)
			}
			break
		}
		w.clear()
	}
	// end to end: a location report in fragments is handled once, with the whole body
	for i := 0; i < reps(40); i++ {
		w := newWorld(r, 1)
		w.clear()
		for _, s := range w.sess {
			storage.StoreSession(s)
		}
		w.register(t, r, true)
		for _, p := range append(w.phones12, w.phones20...) {
			if dev(p) == nil {
				continue
			}
			cases++
			body := geoBody(r, 1)
			h := hd{id: 0x0200, v2019: len(p) == 20, phone: p, frag: true, total: uint16(2 + r.Intn(4)), serial: ru16(r)}
			rest := body
			for k := uint16(1); k <= h.total; k++ {
				h.index, h.serial = k, h.serial+1
				n := r.Intn(len(rest) + 1)
				if k == h.total {
					n = len(rest)
				}
				g0, _ := geos.GetGeoLatestByPhone(p)
				pd, err, _ := step(t, w.sess[0], h, rest[:n])
				rest = rest[n:]
				if err != nil {
					fail(t, "fragment %d of %d of a location report: %v", k, h.total, err)
				}
				isAck(t, "fragment of a location report", pd, h, 0)
				g, _ := geos.GetGeoLatestByPhone(p)
				if (g != g0) != (k == h.total) {
					fail(t, "fragment %d of %d of a location report: position stored %v", k, h.total, g != g0)
				}
				if k == h.total && (g.Drive.Direction != uint16(body[20])<<8|uint16(body[21]) || g.Time.Format("060102150405") != unbcd(body[22:28])) {
					fail(t, "a location report in %d fragments, body %x, is stored as %+v %+v", h.total, body, g, g.Drive)
				}
			}
		}
		w.clear()
	}
}

// ---- C18 ----

func TestVerifC18(t *testing.T) {
	defer report(t)
	s := &model.Session{ID: "s18"}
	for i := 1; i <= 70000*2; i++ {
		cases++
		if n := s.GetNextSerialNum(); n != uint16(i) {
			fail(t, "request %d for a serial number of a new session returns %d", i, n)
		}
	}
	// two sessions are independent
	a, b := &model.Session{}, &model.Session{}
	for i := 1; i < 100; i++ {
		if x, y := a.GetNextSerialNum(), b.GetNextSerialNum(); x != uint16(i) || y != uint16(i) {
			fail(t, "request %d of two sessions returns %d and %d", i, x, y)
		}
	}
	for round := 0; round < reps(20); round++ {
		s := &model.Session{}
		const g, per = 8, 4096
		var wg sync.WaitGroup
		out := make([][]uint16, g)
		start := make(chan struct{})
		for k := 0; k < g; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < per; i++ {
					out[k] = append(out[k], s.GetNextSerialNum())
				}
			}()
		}
		close(start)
		wg.Wait()
		seen := make([]int, 65536)
		for k, o := range out {
			for _, n := range o {
				cases++
				seen[n]++
				if seen[n] > 1 {
					fail(t, "8 goroutines request %d serial numbers each: %d is returned twice (again to goroutine %d)", per, n, k)
				}
			}
		}
		for n := 1; n <= g*per; n++ {
			if seen[n] != 1 {
				fail(t, "8 goroutines request %d serial numbers each: %d is not returned", per, n)
			}
		}
	}
}

// ---- C19 ----

func TestVerifC19(t *testing.T) {
	defer report(t)
	// no operation keeps a lock, not even one that fails
	ops := map[string]func(){
		"ListDevice":             func() { devs.ListDevice() },
		"GetDeviceByPlate":       func() { devs.GetDeviceByPlate("x19") },
		"HasPlate":               func() { devs.HasPlate("x19") },
		"GetDeviceByPhone":       func() { devs.GetDeviceByPhone("x19") },
		"HasPhone":               func() { devs.HasPhone("x19") },
		"CacheDevice":            func() { devs.CacheDevice(&model.Device{Phone: "x19", Plate: "x19"}) },
		"CacheDevice(nil)":       func() { devs.CacheDevice(nil) },
		"DelDeviceByCarPlate":    func() { devs.DelDeviceByCarPlate("x19") },
		"DelDeviceByCarPlate 2":  func() { devs.DelDeviceByCarPlate("none") },
		"DelDeviceByPhone":       func() { devs.DelDeviceByPhone("x19") },
		"DelDeviceByPhone 2":     func() { devs.DelDeviceByPhone("none") },
		"GetGeoRingByPhone":      func() { geos.GetGeoRingByPhone("x19") },
		"GetGeoLatestByPhone":    func() { geos.GetGeoLatestByPhone("x19") },
		"GetGeoLatestByPhone 2":  func() { geos.GetGeoLatestByPhone("none") },
		"DelGeoByPhone":          func() { geos.DelGeoByPhone("x19") },
		"GetDeviceParamsByPhone": func() { pars.GetDeviceParamsByPhone("x19") },
		"CacheDeviceParams":      func() { pars.CacheDeviceParams(&model.DeviceParams{DevicePhone: "x19"}) },
		"CacheDeviceParams(nil)": func() { pars.CacheDeviceParams(nil) },
		"DelDeviceParamsByPhone": func() { pars.DelDeviceParamsByPhone("x19") },
		"GetSession":             func() { storage.GetSession("x19") },
		"StoreSession":           func() { storage.StoreSession(&model.Session{ID: "x19", Conn: &conn{}}) },
		"StoreSession(nil)":      func() { storage.StoreSession(nil) },
		"ClearSession":           func() { storage.ClearSession("x19") },
		"CacheSegment 1":         func() { storage.CacheSegment(&model.Segment{Phone: "x19", MsgID: 5, SegTotal: 3, SegNo: 1}) },
		"CacheSegment 2":         func() { storage.CacheSegment(&model.Segment{Phone: "x19", MsgID: 5, SegTotal: 3, SegNo: 2}) },
		"CacheSegment 3":         func() { storage.CacheSegment(&model.Segment{Phone: "x19", MsgID: 5, SegTotal: 3, SegNo: 3}) },
		"CacheSegment(nil)":      func() { storage.CacheSegment(nil) },
	}
	run := func(name string) {
		t.Helper()
		done := make(chan struct{})
		go func() {
			defer close(done)
			try(ops[name])
		}()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			fail(t, "%s blocks", name)
		}
	}
	var names []string
	for n := range ops {
		names = append(names, n)
	}
	for _, a := range names {
		for _, b := range names {
			cases++
			done := make(chan struct{})
			go func(a, b string) {
				defer close(done)
				try(ops[a])
				try(ops[b])
			}(a, b)
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				fail(t, "%s after %s blocks", b, a)
			}
		}
	}
	_ = run
	storesAtOnce(t)
	storesTogether(t)
}

// storesAtOnce: all operations at once (race_test.go runs it under the race detector)
func storesAtOnce(t *testing.T) {
	t.Helper()
	var wg sync.WaitGroup
	done := make(chan struct{})
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed() + int64(g)))
			for i := 0; i < reps(400); i++ {
				p := fmt.Sprintf("r%d", r.Intn(4))
				d := &model.Device{Phone: p, Plate: p}
				try(func() {
					switch r.Intn(14) {
					case 0:
						devs.CacheDevice(d)
					case 1:
						devs.DelDeviceByPhone(p)
					case 2:
						devs.DelDeviceByCarPlate(p)
					case 3:
						devs.GetDeviceByPhone(p)
						devs.HasPhone(p)
					case 4:
						devs.GetDeviceByPlate(p)
						devs.HasPlate(p)
					case 5:
						devs.ListDevice()
					case 6:
						geos.GetGeoRingByPhone(p)
						geos.GetGeoLatestByPhone(p)
					case 7:
						geos.DelGeoByPhone(p)
					case 8:
						pars.CacheDeviceParams(&model.DeviceParams{DevicePhone: p})
						pars.DelDeviceParamsByPhone(p)
					case 9:
						pars.GetDeviceParamsByPhone(p)
					case 10:
						storage.StoreSession(&model.Session{ID: p, Conn: &conn{}})
						storage.ClearSession(p)
					case 11:
						storage.GetSession(p)
					case 12:
						storage.CacheSegment(&model.Segment{Phone: p, MsgID: 1, SegTotal: 2, SegNo: uint16(1 + r.Intn(2)), Data: []byte{1}})
					case 13:
						s, _ := storage.GetSession(p)
						_ = s
					}
				})
			}
		}()
	}
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		fail(t, "eight goroutines using the stores do not finish: deadlock")
	}
	cases += 8 * reps(400)
}

// storesTogether: operations on one key at the same moment take effect one after the other.
func storesTogether(t *testing.T) {
	t.Helper()
	together := func(fs ...func()) {
		var ready, done sync.WaitGroup
		var start uint32
		for _, fn := range fs {
			fn := fn
			ready.Add(1)
			done.Add(1)
			go func() {
				defer done.Done()
				ready.Done()
				for k := 0; atomic.LoadUint32(&start) == 0; k++ {
					if k > 200 {
						runtime.Gosched()
					}
				}
				fn()
			}()
		}
		ready.Wait()
		atomic.StoreUint32(&start, 1)
		done.Wait()
	}
	for i := 0; i < reps(3000); i++ {
		cases++
		p := fmt.Sprintf("t19-%d", i)
		var a, b, c interface{}
		together(func() { a = geos.GetGeoRingByPhone(p) }, func() { b = geos.GetGeoRingByPhone(p) }, func() { c = geos.GetGeoRingByPhone(p) })
		if a != b || b != c {
			fail(t, "three goroutines ask for the position ring of a new phone %s at the same time and do not get the same ring", p)
		}
		geos.DelGeoByPhone(p)
		d := &model.Device{Phone: p, Plate: "plate " + p}
		if i%2 == 0 {
			devs.CacheDevice(d)
		}
		together(func() { devs.CacheDevice(d) }, func() { devs.DelDeviceByPhone(d.Phone) }, func() { devs.DelDeviceByCarPlate(d.Plate) })
		if devs.HasPhone(d.Phone) != devs.HasPlate(d.Plate) {
			fail(t, "one goroutine stores device %s while two others delete it: afterwards it is found under its phone: %v, under its plate: %v", p, devs.HasPhone(d.Phone), devs.HasPlate(d.Plate))
		}
		devs.DelDeviceByPhone(p)
		var pl, ph bool
		together(func() { devs.CacheDevice(d) }, func() {
			for k := 0; k < 50; k++ {
				if i%4 < 2 {
					if pl = devs.HasPlate(d.Plate); pl {
						ph = devs.HasPhone(d.Phone)
						return
					}
				} else if ph = devs.HasPhone(d.Phone); ph {
					pl = devs.HasPlate(d.Plate)
					return
				}
			}
		})
		if pl != ph {
			fail(t, "while device %s is being stored another goroutine finds it under one of its keys only (plate %v, phone %v)", p, pl, ph)
		}
		devs.DelDeviceByPhone(p)
		// the fragments of two phones
		var x, y bool
		sx, sy := &model.Segment{Phone: p, MsgID: 7, SegTotal: 2, SegNo: 2, Data: []byte{2}}, &model.Segment{Phone: p + "'", MsgID: 7, SegTotal: 2, SegNo: 2, Data: []byte{4}}
		together(func() {
			storage.CacheSegment(&model.Segment{Phone: p, MsgID: 7, SegTotal: 2, SegNo: 1, Data: []byte{1}})
			x = storage.CacheSegment(sx)
		}, func() {
			storage.CacheSegment(&model.Segment{Phone: p + "'", MsgID: 7, SegTotal: 2, SegNo: 1, Data: []byte{3}})
			y = storage.CacheSegment(sy)
		})
		if !x || !y || !bytes.Equal(sx.Data, []byte{1, 2}) || !bytes.Equal(sy.Data, []byte{3, 4}) {
			fail(t, "two phones' fragments stored at the same time are joined to %x (%v) and %x (%v), want 0102 and 0304", sx.Data, x, sy.Data, y)
		}
	}
}
