// Stores (internal/storage).  The stores are singletons; an operation is read as
// taking effect while its lock is held.
guard storage.DeviceCache.cacheByPlate mutex
guard storage.DeviceCache.cacheByPhone mutex
guard storage.GeoCache.cacheByPhone mutex
guard storage.DeviceParamsCache.cacheByPhone mutex
guard storage.SegmentCache.cacheByKey mutex
guard storage.SessionCache.cacheByID mutex
singleton protocol.timerSingleton reads protocol.(*CheckDeviceJob).Run

fn devs() = storage.deviceCacheSingleton
fn byphone() = devs().cacheByPhone
fn byplate() = devs().cacheByPlate
fn paramstore() = storage.paramsCacheSingleton
fn params() = paramstore().cacheByPhone
fn sessions() = storage.sessionCacheSingleton.cacheByID
fn geostore() = storage.geoCacheSingleton
fn geos() = geostore().cacheByPhone
fn segs() = storage.segmentCacheSingleton.cacheByKey

mapinv storage.DeviceCache.cacheByPhone(k, v) = v != nil && v.Phone == k
mapinv storage.DeviceCache.cacheByPlate(k, v) = v != nil && v.Plate == k
mapinv storage.DeviceParamsCache.cacheByPhone(k, v) = v != nil
mapinv storage.SessionCache.cacheByID(k, v) = v != nil && v.ID == k && v.Conn != nil
mapinv storage.SegmentCache.cacheByKey(k, v) = v != nil && k == segkey(v.Phone, v.MsgID)
mapinv storage.GeoCache.cacheByPhone(k, v) = v != nil && ringok(v)

// ---- devices ----
func storage.(*DeviceCache).GetDeviceByPlate(cache, plate) (d, err)
  prop C15 C19
  requires cache == devs()
  cases has(byplate(), plate)
  ensures found: has(byplate(), plate) ==> err == nil && d == get(byplate(), plate) && d != nil && d.Plate == plate
  ensures absent: !has(byplate(), plate) ==> err == storage.ErrDeviceNotFound && d == nil

func storage.(*DeviceCache).GetDeviceByPhone(cache, phone) (d, err)
  prop C15 C19
  requires cache == devs()
  cases has(byphone(), phone)
  ensures found: has(byphone(), phone) ==> err == nil && d == get(byphone(), phone) && d != nil && d.Phone == phone
  ensures absent: !has(byphone(), phone) ==> err == storage.ErrDeviceNotFound && d == nil

func storage.(*DeviceCache).HasPlate(cache, plate) (r)
  prop C15 C19
  requires cache == devs()
  ensures val: r <==> has(byplate(), plate)

func storage.(*DeviceCache).HasPhone(cache, phone) (r)
  prop C15 C19
  requires cache == devs()
  ensures val: r <==> has(byphone(), phone)

func storage.(*DeviceCache).CacheDevice(cache, d)
  prop C15 C19
  requires cache == devs()
  nilable d
  panics when d == nil
  sets mapof(byplate()) := put(mapof(byplate()), d.Plate, d)
  sets mapof(byphone()) := put(mapof(byphone()), d.Phone, d)

func storage.(*DeviceCache).DelDeviceByPhone(cache, phone)
  prop C15 C19
  requires cache == devs()
  sets mapof(byplate()) := has(byphone(), phone) ? del(mapof(byplate()), get(byphone(), phone).Plate) : mapof(byplate())
  sets mapof(byphone()) := del(mapof(byphone()), phone)

func storage.(*DeviceCache).DelDeviceByCarPlate(cache, plate)
  prop C15 C19
  requires cache == devs()
  sets mapof(byphone()) := has(byplate(), plate) ? del(mapof(byphone()), get(byplate(), plate).Phone) : mapof(byphone())
  sets mapof(byplate()) := del(mapof(byplate()), plate)

// ---- parameters ----
func storage.(*DeviceParamsCache).GetDeviceParamsByPhone(cache, phone) (d, err)
  prop C15 C19
  requires cache == paramstore()
  cases has(params(), phone)
  ensures found: has(params(), phone) ==> err == nil && d == get(params(), phone) && d != nil
  ensures absent: !has(params(), phone) ==> err == storage.ErrDeviceParamsNotFound && d == nil

func storage.(*DeviceParamsCache).CacheDeviceParams(cache, d)
  prop C15 C19
  requires cache == paramstore()
  nilable d
  panics when d == nil
  sets mapof(params()) := put(mapof(params()), d.DevicePhone, d)

func storage.(*DeviceParamsCache).DelDeviceParamsByPhone(cache, phone)
  prop C15 C19
  requires cache == paramstore()
  sets mapof(params()) := del(mapof(params()), phone)

// ---- sessions ----
func storage.GetSession(id) (s, err)
  prop C15 C19 C21
  cases has(sessions(), id)
  ensures found: has(sessions(), id) ==> err == nil && s == get(sessions(), id) && s != nil && s.ID == id && s.Conn != nil
  ensures absent: !has(sessions(), id) ==> err == storage.ErrSessionClosed && s == nil

func storage.StoreSession(s)
  prop C15 C19 C21
  nilable s
  requires s == nil || s.Conn != nil
  panics when s == nil
  sets mapof(sessions()) := put(mapof(sessions()), s.ID, s)

func storage.ClearSession(id)
  prop C15 C19 C21
  sets mapof(sessions()) := del(mapof(sessions()), id)

func storage.countSession() (n)
  prop C19

func storage.(*DeviceCache).ListDevice(cache) (r)
  prop C19
  requires cache == devs()

// ---- positions ----
fn ringok(r) = r.Size > 0 && len(r.Container) == r.Size && 0 <= r.Writer && r.Writer < r.Size && 0 <= r.Reader && r.Reader < r.Size && r.Size < 1073741824
typeinv container.RingBuffer ringok

// the ring: element i of the container is what was last written at i
func container.NewRingBuffer(size) (r)
  prop C16
  requires 0 < size && size < 1073741824
  ensures ring: fresh(r) && ringok(r) && r.Size == size && r.Writer == 0 && r.Reader == 0
  ensures empty: r.Container == nils(size)
func container.(*RingBuffer).Write(r, v)
  prop C16
  requires ringok(r)
  sets r.Container := upd(r.Container, r.Writer, v)
  sets r.Writer := (r.Writer + 1) % r.Size
  ensures ring: ringok(r)
func container.(*RingBuffer).Read(r) (v)
  prop C16
  requires ringok(r)
  sets r.Reader := (r.Reader + 1) % r.Size
  ensures val: v == r.Container[old(r.Reader)]
  ensures ring: ringok(r)
func container.(*RingBuffer).seekReader(r, delta)
  requires ringok(r) && 0 <= delta && delta < 1073741824
  sets r.Reader := (r.Reader + delta) % r.Size
  ensures ring: ringok(r)
fn latestpos(r) = r.Writer == 0 ? r.Size - 1 : r.Writer - 1
fn latestof(r) = r.Container[latestpos(r)]
func container.(*RingBuffer).Latest(r) (v)
  prop C16
  requires ringok(r)
  ensures val: v == latestof(r)
func container.(*RingBuffer).Oldest(r) (v)
  prop C16
  requires ringok(r)
  ensures val: v == r.Container[r.Writer]
func container.(*RingBuffer).Overwrite(r, v)
  requires ringok(r)
  sets r.Container := upd(r.Container, r.Writer, v)
  ensures ring: ringok(r)

func storage.(*GeoCache).GetGeoRingByPhone(cache, phone) (rb)
  prop C16 C19
  requires cache == geostore()
  cases has(geos(), phone)
  sets mapof(geos()) := put(mapof(geos()), phone, rb)
  ensures ring: rb != nil && ringok(rb)
  ensures known: old(has(geos(), phone)) ==> rb == old(get(geos(), phone))
  ensures new: !old(has(geos(), phone)) ==> fresh(rb) && rb.Container == nils(rb.Size)

func storage.(*GeoCache).GetGeoLatestByPhone(cache, phone) (geo, err)
  prop C16 C19
  requires cache == geostore()
  cases has(geos(), phone)
  modifies mapof(geos())
  ensures found: err == nil ==> old(has(geos(), phone)) && typeis(latestof(old(get(geos(), phone))), "*model.DeviceGeo") && geo == as(latestof(old(get(geos(), phone))), "*model.DeviceGeo")
  ensures absent: err != nil ==> geo == nil && iserr(err, storage.ErrGisNotFound) && (old(has(geos(), phone)) ==> !typeis(latestof(old(get(geos(), phone))), "*model.DeviceGeo"))
  ensures others: mapeq(del(mapof(geos()), phone), old(del(mapof(geos()), phone)))
  ensures kept: old(has(geos(), phone)) ==> has(geos(), phone) && get(geos(), phone) == old(get(geos(), phone))

func storage.(*GeoCache).DelGeoByPhone(cache, phone)
  prop C16 C19
  requires cache == geostore()
  sets mapof(geos()) := del(mapof(geos()), phone)

// ---- fragments ----
fn utf8(r) = uf("utf8enc", "bytes", r)
fn segkey(phone, id) = phone ++ "/" ++ utf8(id)
fn segdata(k) = has(segs(), k) ? get(segs(), k).Data : []
fn segtotal(k, total) = has(segs(), k) ? get(segs(), k).SegTotal : total

func storage.CacheSegment(seg) (done)
  prop C17 C19
  requires let(k, segkey(seg.Phone, seg.MsgID), has(segs(), k) ==> get(segs(), k) != seg)
  cases has(segs(), segkey(seg.Phone, seg.MsgID))
  modifies get(segs(), segkey(seg.Phone, seg.MsgID)).Data, get(segs(), segkey(seg.Phone, seg.MsgID)).SegNo when has(segs(), segkey(seg.Phone, seg.MsgID))
  sets mapof(segs()) := let(k, segkey(seg.Phone, seg.MsgID), seg.SegNo == segtotal(k, seg.SegTotal) ? del(mapof(segs()), k) : has(segs(), k) ? mapof(segs()) : put(mapof(segs()), k, seg))
  sets seg.Data := let(k, segkey(seg.Phone, seg.MsgID), seg.SegNo == segtotal(k, seg.SegTotal) ? segdata(k) ++ seg.Data : seg.Data)
  ensures done: done <==> old(let(k, segkey(seg.Phone, seg.MsgID), seg.SegNo == segtotal(k, seg.SegTotal)))
  ensures joined: !done ==> let(k, segkey(seg.Phone, seg.MsgID), has(segs(), k) && get(segs(), k).Data == old(segdata(k)) ++ old(seg.Data) && get(segs(), k).SegTotal == old(segtotal(k, seg.SegTotal)))
