// Messages (internal/protocol/model/msg_*.go).

fn okhdr(h) = h != nil && h.Attr != nil
fn okpkt(p) = okhdr(p.Header)
fn bodylen(p) = p.Header.Attr.BodyLength
fn ver(p) = p.Header.Attr.VersionDesc
// what an encoded message consists of
fn message(h, body) = hdrwith(h, len(body)) ++ body

fn zeros(n) = repl(0, n)
template $s ++ zeros($i) == $d && 0 <= $i
template $s ++ zeros(len($d) - len($s)) == $d && len($s) <= len($d) && len($d) <= max(len($s), $n)

// ---- registration (C06) ----
fn padto(s, n) = len(s) < n ? s ++ zeros(n - len(s)) : s[:n]
fn atleast(s, n) = s ++ zeros(n - len(s))

fn r_known(p) = ver(p) == 1 || ver(p) == 2
fn r_manu(p) = ver(p) == 2 ? 11 : 5
fn r_mode(p) = ver(p) == 2 ? 30 : bodylen(p) - 4 > 33 ? 20 : 8
fn r_id(p) = ver(p) == 2 ? 30 : 7
fn r_fixed(p) = 4 + r_manu(p) + r_mode(p) + r_id(p) + 1
fn r_short(p) = len(p.Body) < 4 || r_known(p) && (bodylen(p) < r_fixed(p) || bodylen(p) > len(p.Body) || len(p.Body) < r_fixed(p))
fn field(p, off, n) = trimr(sub(p.Body, off, n), 0)

func model.(*Msg0100).Decode(m, packet) (err)
  prop C06
  requires okpkt(packet)
  panics when r_short(packet)
  modifies m.LocationDesc
  sets m.Header := packet.Header
  sets m.ProvinceID := be16(packet.Body, 0)
  sets m.CityID := be16(packet.Body, 2)
  sets m.ManufacturerID := r_known(packet) ? field(packet, 4, r_manu(packet)) : m.ManufacturerID
  sets m.DeviceMode := r_known(packet) ? field(packet, 4 + r_manu(packet), r_mode(packet)) : m.DeviceMode
  sets m.DeviceID := r_known(packet) ? field(packet, 4 + r_manu(packet) + r_mode(packet), r_id(packet)) : m.DeviceID
  sets m.PlateColor := r_known(packet) ? packet.Body[r_fixed(packet) - 1] : m.PlateColor
  sets m.PlateNumber := r_known(packet) ? gbkread(sub(packet.Body, r_fixed(packet), bodylen(packet) - r_fixed(packet))) : m.PlateNumber
  ensures ok: (err == nil) <==> r_known(packet)

fn v_known(v) = v == 0 || v == 1 || v == 2
fn body0100(m) = let(v, m.Header.Attr.VersionDesc, be16(m.ProvinceID) ++ be16(m.CityID) ++ padto(m.ManufacturerID, v == 2 ? 11 : 5) ++
    padto(m.DeviceMode, v == 2 ? 30 : v == 1 ? 20 : 8) ++ padto(m.DeviceID, v == 2 ? 30 : 7) ++ [m.PlateColor] ++ gbkwrite(m.PlateNumber))

func model.(*Msg0100).Encode(m) (pkt, err)
  prop C06 C08
  requires okhdr(m.Header)
  sets m.Header.Attr.BodyLength := v_known(m.Header.Attr.VersionDesc) ? u16(len(body0100(m))) : m.Header.Attr.BodyLength
  ensures ok: (err == nil) <==> v_known(m.Header.Attr.VersionDesc)
  ensures bytes: err == nil ==> pkt == message(m.Header, body0100(m))

func model.(*Msg0102).Decode(m, packet) (err)
  prop C06
  requires okpkt(packet)
  panics when ver(packet) == 1 && bodylen(packet) > len(packet.Body) || ver(packet) == 2 && (len(packet.Body) < 1 || len(packet.Body) < 1 + packet.Body[0] + 35)
  sets m.Header := packet.Header
  sets m.AuthCode := ver(packet) == 1 ? sub(packet.Body, 0, bodylen(packet)) : ver(packet) == 2 ? sub(packet.Body, 1, packet.Body[0]) : m.AuthCode
  sets m.AuthCodeLen := ver(packet) == 2 ? packet.Body[0] : m.AuthCodeLen
  sets m.IMEI := ver(packet) == 2 ? sub(packet.Body, 1 + packet.Body[0], 15) : m.IMEI
  sets m.SoftwareVersion := ver(packet) == 2 ? trimr(sub(packet.Body, 1 + packet.Body[0] + 15, 20), 0) : m.SoftwareVersion
  ensures ok: err == nil

fn body0102(m) = let(v, m.Header.Attr.VersionDesc, v == 2 ? [u8(len(m.AuthCode))] ++ m.AuthCode ++ atleast(m.IMEI, 15) ++ atleast(m.SoftwareVersion, 20) :
    v == 0 || v == 1 ? m.AuthCode : [])

func model.(*Msg0102).Encode(m) (pkt, err)
  prop C06 C08
  requires okhdr(m.Header)
  sets m.Header.Attr.BodyLength := u16(len(body0102(m)))
  sets m.AuthCodeLen := m.Header.Attr.VersionDesc == 2 ? u8(len(m.AuthCode)) : m.AuthCodeLen
  ensures ok: err == nil
  ensures bytes: pkt == message(m.Header, body0102(m))

func model.(*Msg8100).Decode(m, packet) (err)
  prop C06
  requires okpkt(packet)
  panics when len(packet.Body) < 3 || bodylen(packet) < 3 || bodylen(packet) > len(packet.Body)
  sets m.Header := packet.Header
  sets m.AnswerSerialNumber := be16(packet.Body, 0)
  sets m.Result := packet.Body[2]
  sets m.AuthCode := sub(packet.Body, 3, bodylen(packet) - 3)
  ensures ok: err == nil

fn body8100(m) = be16(m.AnswerSerialNumber) ++ [m.Result] ++ m.AuthCode
func model.(*Msg8100).Encode(m) (pkt, err)
  prop C06 C08
  requires okhdr(m.Header)
  sets m.Header.Attr.BodyLength := u16(len(body8100(m)))
  ensures ok: err == nil
  ensures bytes: pkt == message(m.Header, body8100(m))

// ---- location (C07) ----
func model.(*Msg0200).Decode(m, packet) (err)
  prop C07
  requires okpkt(packet)
  panics when len(packet.Body) < 28
  sets m.Header := packet.Header
  sets m.AlarmSign := be32(packet.Body, 0)
  sets m.StatusSign := be32(packet.Body, 4)
  sets m.Latitude := be32(packet.Body, 8)
  sets m.Longitude := be32(packet.Body, 12)
  sets m.Altitude := be16(packet.Body, 16)
  sets m.Speed := be16(packet.Body, 18)
  sets m.Direction := be16(packet.Body, 20)
  sets m.Time := bcdstr(sub(packet.Body, 22, 6))
  ensures ok: err == nil

fn body0200(m) = be32(m.AlarmSign) ++ be32(m.StatusSign) ++ be32(m.Latitude) ++ be32(m.Longitude) ++ be16(m.Altitude) ++ be16(m.Speed) ++ be16(m.Direction) ++ hexd(pad8(m.Time))
func model.(*Msg0200).Encode(m) (pkt, err)
  prop C07 C08
  requires okhdr(m.Header)
  sets m.Header.Attr.BodyLength := u16(len(body0200(m)))
  ensures ok: err == nil
  ensures bytes: pkt == message(m.Header, body0200(m))

func model.(*GeoMeta).Decode(g, status)
  prop C07
  sets g.ACCStatus := bit(status, 0)
  sets g.LocationStatus := bit(status, 1)
  sets g.LatitudeType := bit(status, 2)
  sets g.LongitudeType := bit(status, 3)
  sets g.OperatingStatus := bit(status, 4)
  sets g.GeoEncryptionStatus := bit(status, 5)
  sets g.LoadStatus := bits(status, 8, 2)
  sets g.FuelSystemStatus := bit(status, 10)
  sets g.AlternatorSystemStatus := bit(status, 11)
  sets g.DoorLockedStatus := bit(status, 12)
  sets g.FrontDoorStatus := bit(status, 13)
  sets g.MidDoorStatus := bit(status, 14)
  sets g.BackDoorStatus := bit(status, 15)
  sets g.DriverDoorStatus := bit(status, 16)
  sets g.CustomDoorStatus := bit(status, 17)
  sets g.GPSLocationStatus := bit(status, 18)
  sets g.BeidouLocationStatus := bit(status, 19)
  sets g.GLONASSLocationStatus := bit(status, 20)
  sets g.GalileoLocationStatus := bit(status, 21)
  sets g.DrivingStatus := bit(status, 22)

// flags that fit their bits are put exactly there
fn flagsfit(g) = g.ACCStatus < 2 && g.LocationStatus < 2 && g.LatitudeType < 2 && g.LongitudeType < 2 && g.OperatingStatus < 2 && g.GeoEncryptionStatus < 2 &&
  g.LoadStatus < 4 && g.FuelSystemStatus < 2 && g.AlternatorSystemStatus < 2 && g.DoorLockedStatus < 2 && g.FrontDoorStatus < 2 && g.MidDoorStatus < 2 && g.BackDoorStatus < 2 &&
  g.DriverDoorStatus < 2 && g.CustomDoorStatus < 2 && g.GPSLocationStatus < 2 && g.BeidouLocationStatus < 2 && g.GLONASSLocationStatus < 2 && g.GalileoLocationStatus < 2 && g.DrivingStatus < 2
fn flagword(g) = g.ACCStatus + g.LocationStatus*2 + g.LatitudeType*4 + g.LongitudeType*8 + g.OperatingStatus*16 + g.GeoEncryptionStatus*32 + g.LoadStatus*256 +
  g.FuelSystemStatus*1024 + g.AlternatorSystemStatus*2048 + g.DoorLockedStatus*4096 + g.FrontDoorStatus*8192 + g.MidDoorStatus*16384 + g.BackDoorStatus*32768 +
  g.DriverDoorStatus*65536 + g.CustomDoorStatus*131072 + g.GPSLocationStatus*262144 + g.BeidouLocationStatus*524288 + g.GLONASSLocationStatus*1048576 +
  g.GalileoLocationStatus*2097152 + g.DrivingStatus*4194304
func model.(*GeoMeta).Encode(g) (r)
  prop C07
  ensures word: flagsfit(g) ==> r == flagword(g)

fn f64(x) = uf("i2f", "int", x)
fn fdiv(a, b) = uf("f/", "int", a, b)
func model.(*Location).Decode(l, m)
  prop C07
  sets l.Latitude := fdiv(f64(m.Latitude), fconst("1000000"))
  sets l.Longitude := fdiv(f64(m.Longitude), fconst("1000000"))
  sets l.Altitude := m.Altitude
func model.(*Drive).Decode(d, m)
  prop C07
  sets d.Speed := fdiv(f64(m.Speed), fconst("10"))
  sets d.Direction := m.Direction

fn geo_ok(dg, phone, m) = dg.Phone == phone && flags_of(dg.Geo, m.StatusSign) &&
   dg.Location.Latitude == fdiv(f64(m.Latitude), fconst("1000000")) && dg.Location.Longitude == fdiv(f64(m.Longitude), fconst("1000000")) &&
   dg.Location.Altitude == m.Altitude && dg.Drive.Speed == fdiv(f64(m.Speed), fconst("10")) && dg.Drive.Direction == m.Direction &&
   (timeok(layout(), m.Time) ==> dg.Time == tparse(layout(), m.Time))
fn flags_of(g, s) = g.ACCStatus == bit(s, 0) && g.LocationStatus == bit(s, 1) && g.LatitudeType == bit(s, 2) && g.LongitudeType == bit(s, 3) && g.OperatingStatus == bit(s, 4) &&
   g.GeoEncryptionStatus == bit(s, 5) && g.LoadStatus == bits(s, 8, 2) && g.FuelSystemStatus == bit(s, 10) && g.AlternatorSystemStatus == bit(s, 11) && g.DoorLockedStatus == bit(s, 12) &&
   g.FrontDoorStatus == bit(s, 13) && g.MidDoorStatus == bit(s, 14) && g.BackDoorStatus == bit(s, 15) && g.DriverDoorStatus == bit(s, 16) && g.CustomDoorStatus == bit(s, 17) &&
   g.GPSLocationStatus == bit(s, 18) && g.BeidouLocationStatus == bit(s, 19) && g.GLONASSLocationStatus == bit(s, 20) && g.GalileoLocationStatus == bit(s, 21) && g.DrivingStatus == bit(s, 22)

func model.(*DeviceGeo).Decode(dg, phone, m) (err)
  prop C07
  modifies dg.Geo, dg.Location, dg.Drive, dg.Time
  sets dg.Phone := phone
  ensures ok: err == nil
  ensures new: fresh(dg.Geo) && fresh(dg.Location) && fresh(dg.Drive)
  ensures values: geo_ok(dg, phone, m)

// ---- acknowledgements, time, media (C08) ----
func model.(*Msg0001).Decode(m, packet) (err)
  prop C08
  requires okpkt(packet)
  panics when len(packet.Body) < 5
  sets m.Header := packet.Header
  sets m.AnswerSerialNumber := be16(packet.Body, 0)
  sets m.AnswerMessageID := be16(packet.Body, 2)
  sets m.Result := packet.Body[4]
  ensures ok: err == nil
func model.(*Msg8001).Decode(m, packet) (err)
  prop C08
  requires okpkt(packet)
  panics when len(packet.Body) < 5
  sets m.Header := packet.Header
  sets m.AnswerSerialNumber := be16(packet.Body, 0)
  sets m.AnswerMessageID := be16(packet.Body, 2)
  sets m.Result := packet.Body[4]
  ensures ok: err == nil

fn ackbody(m) = be16(m.AnswerSerialNumber) ++ be16(m.AnswerMessageID) ++ [m.Result]
func model.(*Msg0001).Encode(m) (pkt, err)
  prop C08
  requires okhdr(m.Header)
  sets m.Header.Attr.BodyLength := 5
  ensures ok: err == nil
  ensures bytes: pkt == message(m.Header, ackbody(m))
func model.(*Msg8001).Encode(m) (pkt, err)
  prop C08
  requires okhdr(m.Header)
  sets m.Header.Attr.BodyLength := 5
  ensures ok: err == nil
  ensures bytes: pkt == message(m.Header, ackbody(m))

fn timeat(t, body, off) = let(s, bcdstr(sub(body, off, 6)), timeok(layout(), s) ==> *t == tparse(layout(), s))
fn timebytes(t) = hexd(pad8(timestr(t)))

func model.(*Msg8004).Decode(m, packet) (err)
  prop C08
  requires okpkt(packet)
  panics when len(packet.Body) < 6
  modifies m.ServerTime
  sets m.Header := packet.Header
  ensures ok: err == nil
  ensures new: fresh(m.ServerTime)
  ensures time: timeat(m.ServerTime, packet.Body, 0)
func model.(*Msg8004).Encode(m) (pkt, err)
  prop C08
  requires okhdr(m.Header) && m.ServerTime != nil
  sets m.Header.Attr.BodyLength := u16(len(timebytes(*m.ServerTime)))
  ensures ok: err == nil
  ensures bytes: pkt == message(m.Header, timebytes(*m.ServerTime))

func model.(*DeviceMediaQuery).Decode(q, pkt, idx)
  prop C08
  panics when *idx < 0 || *idx + 24 > len(pkt)
  modifies q.StartTime, q.EndTime
  sets q.LogicChannelID := pkt[*idx]
  sets q.AlarmSign := be32(pkt, *idx + 13)
  sets q.AlarmSignExt := be32(pkt, *idx + 17)
  sets q.MediaType := pkt[*idx + 21]
  sets q.StreamType := pkt[*idx + 22]
  sets q.StorageType := pkt[*idx + 23]
  sets *idx := *idx + 24
  ensures new: fresh(q.StartTime) && fresh(q.EndTime)
  ensures start: timeat(q.StartTime, pkt, old(*idx) + 1)
  ensures end: timeat(q.EndTime, pkt, old(*idx) + 7)
fn mediaq(q) = [q.LogicChannelID] ++ timebytes(*q.StartTime) ++ timebytes(*q.EndTime) ++ be32(q.AlarmSign) ++ be32(q.AlarmSignExt) ++ [q.MediaType, q.StreamType, q.StorageType]
func model.(*DeviceMediaQuery).Encode(q) (pkt)
  prop C08
  requires q.StartTime != nil && q.EndTime != nil
  ensures bytes: pkt == mediaq(q)
func model.(*DeviceMedia).Decode(m, pkt)
  prop C08
  panics when len(pkt) < 28
  modifies m.StartTime, m.EndTime
  sets m.LogicChannelID := pkt[0]
  sets m.AlarmSign := be32(pkt, 13)
  sets m.AlarmSignExt := be32(pkt, 17)
  sets m.MediaType := pkt[21]
  sets m.StreamType := pkt[22]
  sets m.StorageType := pkt[23]
  sets m.Size := be32(pkt, 24)
  ensures new: fresh(m.StartTime) && fresh(m.EndTime)
  ensures start: timeat(m.StartTime, pkt, 1)
  ensures end: timeat(m.EndTime, pkt, 7)
func model.(*DeviceMedia).Encode(m) (pkt)
  prop C08
  requires m.StartTime != nil && m.EndTime != nil
  ensures bytes: pkt == mediaq(m) ++ be32(m.Size)

func model.(*Msg9205).Decode(m, packet) (err)
  prop C08
  requires okpkt(packet)
  panics when len(packet.Body) < 24
  modifies m.StartTime, m.EndTime
  sets m.Header := packet.Header
  sets m.LogicChannelID := packet.Body[0]
  sets m.AlarmSign := be32(packet.Body, 13)
  sets m.AlarmSignExt := be32(packet.Body, 17)
  sets m.MediaType := packet.Body[21]
  sets m.StreamType := packet.Body[22]
  sets m.StorageType := packet.Body[23]
  ensures ok: err == nil
  ensures new: fresh(m.StartTime) && fresh(m.EndTime)
  ensures start: timeat(m.StartTime, packet.Body, 1)
  ensures end: timeat(m.EndTime, packet.Body, 7)
func model.(*Msg9205).Encode(m) (pkt, err)
  prop C08
  requires okhdr(m.Header) && m.StartTime != nil && m.EndTime != nil
  sets m.Header.Attr.BodyLength := u16(len(mediaq(m)))
  ensures ok: err == nil
  ensures bytes: pkt == message(m.Header, mediaq(m))

func model.(*Msg1205).Decode(m, packet) (err)
  prop C08
  requires okpkt(packet)
  panics when len(packet.Body) < 34
  modifies m.StartTime, m.EndTime
  sets m.Header := packet.Header
  sets m.AnswerSerialNumber := be16(packet.Body, 0)
  sets m.MediaCount := be32(packet.Body, 2)
  sets m.LogicChannelID := packet.Body[6]
  sets m.AlarmSign := be32(packet.Body, 19)
  sets m.AlarmSignExt := be32(packet.Body, 23)
  sets m.MediaType := packet.Body[27]
  sets m.StreamType := packet.Body[28]
  sets m.StorageType := packet.Body[29]
  sets m.Size := be32(packet.Body, 30)
  ensures ok: err == nil
  ensures new: fresh(m.StartTime) && fresh(m.EndTime)
  ensures start: timeat(m.StartTime, packet.Body, 7)
  ensures end: timeat(m.EndTime, packet.Body, 13)
fn body1205(m) = be16(m.AnswerSerialNumber) ++ be32(m.MediaCount) ++ mediaq(m) ++ be32(m.Size)
func model.(*Msg1205).Encode(m) (pkt, err)
  prop C08
  requires okhdr(m.Header) && m.StartTime != nil && m.EndTime != nil
  sets m.Header.Attr.BodyLength := u16(len(body1205(m)))
  ensures ok: err == nil
  ensures bytes: pkt == message(m.Header, body1205(m))

// messages without a body
func model.(*Msg0002).Decode(m, packet) (err)
  prop C08
  sets m.Header := packet.Header
  ensures ok: err == nil
func model.(*Msg0002).Encode(m) (pkt, err)
  prop C08
  requires okhdr(m.Header)
  sets m.Header.Attr.BodyLength := 0
  ensures ok: err == nil
  ensures bytes: pkt == hdrwith(m.Header, 0)
func model.(*Msg0003).Decode(m, packet) (err)
  prop C08
  sets m.Header := packet.Header
  ensures ok: err == nil
func model.(*Msg0003).Encode(m) (pkt, err)
  prop C08
  requires okhdr(m.Header)
  sets m.Header.Attr.BodyLength := 0
  ensures ok: err == nil
  ensures bytes: pkt == hdrwith(m.Header, 0)
func model.(*Msg0004).Decode(m, packet) (err)
  prop C08
  sets m.Header := packet.Header
  ensures ok: err == nil
func model.(*Msg0004).Encode(m) (pkt, err)
  prop C08
  requires okhdr(m.Header)
  sets m.Header.Attr.BodyLength := 0
  ensures ok: err == nil
  ensures bytes: pkt == hdrwith(m.Header, 0)
func model.(*Msg0800).Decode(m, packet) (err)
  prop C08
  sets m.Header := packet.Header
  ensures ok: err == nil
func model.(*Msg0800).Encode(m) (pkt, err)
  prop C08
  requires okhdr(m.Header)
  sets m.Header.Attr.BodyLength := 0
  ensures ok: err == nil
  ensures bytes: pkt == hdrwith(m.Header, 0)
func model.(*Msg0801).Decode(m, packet) (err)
  prop C08
  sets m.Header := packet.Header
  ensures ok: err == nil
func model.(*Msg0801).Encode(m) (pkt, err)
  prop C08
  requires okhdr(m.Header)
  sets m.Header.Attr.BodyLength := 0
  ensures ok: err == nil
  ensures bytes: pkt == hdrwith(m.Header, 0)
func model.(*Msg8104).Decode(m, packet) (err)
  prop C08
  sets m.Header := packet.Header
  ensures ok: err == nil
func model.(*Msg8104).Encode(m) (pkt, err)
  prop C08
  requires okhdr(m.Header)
  sets m.Header.Attr.BodyLength := 0
  ensures ok: err == nil
  ensures bytes: pkt == hdrwith(m.Header, 0)
func model.(*Msg8800).Decode(m, packet) (err)
  prop C08
  sets m.Header := packet.Header
  ensures ok: err == nil
func model.(*Msg8800).Encode(m) (pkt, err)
  prop C08
  requires okhdr(m.Header)
  sets m.Header.Attr.BodyLength := 0
  ensures ok: err == nil
  ensures bytes: pkt == hdrwith(m.Header, 0)
