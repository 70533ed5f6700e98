// Terminal parameters (internal/protocol/model/device_params.go, msg_0104.go, msg_8103.go).

// the value type each parameter id prescribes (JT/T 808 table 12, JT/T 1078 table 2)
fn pbyte(id) = id == 0x0084 || 0x0090 <= id && id <= 0x0092 || id == 0x0094
fn pword(id) = id == 0x0031 || 0x005b <= id && id <= 0x005e || 0x0081 <= id && id <= 0x0082 || id == 0x0101 || id == 0x0103
fn pdword(id) = 0x0001 <= id && id <= 0x0007 || 0x0018 <= id && id <= 0x0019 || 0x001b <= id && id <= 0x001c || 0x0020 <= id && id <= 0x0022 || 0x0027 <= id && id <= 0x0029 || 0x002c <= id && id <= 0x0030 || 0x0045 <= id && id <= 0x0047 || 0x0050 <= id && id <= 0x005a || 0x0064 <= id && id <= 0x0065 || 0x0070 <= id && id <= 0x0074 || id == 0x0080 || id == 0x0093 || id == 0x0095 || id == 0x0100 || id == 0x0102
fn pbcd(id) = id == 0x0032 || 0x0075 <= id && id <= 0x0077 || 0x0079 <= id && id <= 0x007c
fn pstr(id) = id == 0x0110
fn pgbk(id) = 0x0010 <= id && id <= 0x0017 || id == 0x001a || id == 0x001d || 0x0023 <= id && id <= 0x0026 || 0x0040 <= id && id <= 0x0044 || 0x0048 <= id && id <= 0x0049 || id == 0x0083
fn pknown(id) = pbyte(id) || pword(id) || pdword(id) || pbcd(id) || pstr(id) || pgbk(id)
// bytes the value of an item takes
fn pvlen(id, n) = pbyte(id) ? 1 : pword(id) ? 2 : pdword(id) ? 4 : n
fn pshort(s, i) = i < 0 || i + 5 > len(s) || i + 5 + pvlen(be32(s, i), s[i+4]) > len(s)
fn pnext(s, i) = i + 5 + pvlen(be32(s, i), s[i+4])
// n items from i on fit into s
rec fits(n: int, s: bytes, i: int): bool = n <= 0 ? true : pshort(s, i) ? false : fits(n - 1, s, pnext(s, i))
template b2i(fits($n - $i, $s, $x))
template b2i(fits($x, $s, $x2))
fn diff(a, b) = a - b
template diff($x, $x2)
fn same(a, b) = a == b
template same($d, $d2)
fn grown(a, n) = len(a) - n
template grown($d, $x)
fn filling(a, n) = len(a) + n
template filling($d, $x)
fn counted(a, n, b) = a == [n] ++ b
template counted($d, 0, $d2)

fn pvalue(v, s, i, id, n) = (pbyte(id) ==> typeis(v, "uint8") && as(v, "uint8") == s[i+5]) && (pword(id) ==> typeis(v, "uint16") && as(v, "uint16") == be16(s, i + 5)) &&
   (pdword(id) ==> typeis(v, "uint32") && as(v, "uint32") == be32(s, i + 5)) && (pbcd(id) ==> typeis(v, "string") && as(v, "string") == bcdstr(sub(s, i + 5, n))) &&
   (pstr(id) ==> typeis(v, "string") && as(v, "string") == sub(s, i + 5, n)) && (pgbk(id) ==> typeis(v, "string") && as(v, "string") == gbkread(sub(s, i + 5, n)))

// ghost state of a list being decoded: itemsrc (its bytes), itempos (where the
// next item starts), items (those decoded, in order)
func model.(*ParamData).Decode(p, pkt, idx) (err)
  prop C10
  requires @C10 *idx == ghost("itempos") && pkt == ghosts("itemsrc")
  panics when pshort(pkt, *idx)
  modifies p.ParamValue
  sets p.ParamID := be32(pkt, *idx)
  sets p.ParamLen := pkt[*idx + 4]
  sets *idx := pnext(pkt, *idx)
  sets @C10 ghost("itempos") := pnext(pkt, *idx)
  sets @C10 ghosts("items") := ghosts("items") ++ [p]
  ensures ok: err == nil
  ensures value: let(i, old(*idx), pvalue(p.ParamValue, pkt, i, be32(pkt, i), pkt[i+4]))
  ensures unknown: !pknown(be32(pkt, old(*idx))) ==> p.ParamValue == old(p.ParamValue)

func model.(*DeviceParams).Decode(p, phone, cnt, pkt) (err)
  prop C10
  panics when !fits(cnt, pkt, 0)
  begins @C10 ghosts("items") := p.Params
  begins @C10 ghosts("itemsrc") := pkt
  begins @C10 ghost("itempos") := 0
  modifies p.Params
  modifies @C10 ghosts("items"), ghosts("itemsrc"), ghost("itempos")
  sets p.DevicePhone := phone
  sets p.ParamCnt := cnt
  ensures ok: err == nil
  ensures @C10 items: ghosts("itemsrc") == pkt && same(p.Params, ghosts("items")) && grown(p.Params, old(len(p.Params))) == cnt && filling(p.Params, 0) >= cnt && diff(ghost("itempos"), 0) >= 0

// ghost state of a list being encoded: tried (the items handed to the encoder,
// in order), enc (the bytes of those encoded), nenc (their number)
fn pencodable(id, v) = pbyte(id) ? (typeis(v, "float64") || typeis(v, "uint8")) : pword(id) ? (typeis(v, "float64") || typeis(v, "uint16")) : pdword(id) ? (typeis(v, "float64") || typeis(v, "uint32")) : pknown(id) ? typeis(v, "string") : true
fn pbytes(id, v) = pbyte(id) ? [typeis(v, "float64") ? uf("f2i_uint8", "int", as(v, "float64")) : as(v, "uint8")] : pword(id) ? be16(typeis(v, "float64") ? uf("f2i_uint16", "int", as(v, "float64")) : as(v, "uint16")) :
   pdword(id) ? be32(typeis(v, "float64") ? uf("f2i_uint32", "int", as(v, "float64")) : as(v, "uint32")) : pbcd(id) ? hexd(pad8(as(v, "string"))) : pstr(id) ? as(v, "string") : gbkwrite(as(v, "string"))

func model.(*ParamData).Encode(p) (pkt, err)
  prop C10
  panics when !pencodable(p.ParamID, p.ParamValue)
  cases err == nil
  sets @C10 ghosts("tried") := ghosts("tried") ++ [p]
  sets @C10 ghosts("enc") := err == nil ? ghosts("enc") ++ pkt : ghosts("enc")
  sets @C10 ghost("nenc") := err == nil ? ghost("nenc") + 1 : ghost("nenc")
  ensures unknown: !pknown(p.ParamID) ==> err == model.ErrParamIDNotSupportted && pkt == nil
  ensures long: pknown(p.ParamID) && len(pbytes(p.ParamID, p.ParamValue)) > 255 ==> err != nil && pkt == nil
  ensures fits: pknown(p.ParamID) && len(pbytes(p.ParamID, p.ParamValue)) <= 255 ==> err == nil
  ensures item: err == nil ==> pkt == be32(p.ParamID) ++ [len(pbytes(p.ParamID, p.ParamValue))] ++ pbytes(p.ParamID, p.ParamValue)

func model.(*DeviceParams).Encode(p) (pkt, err)
  prop C10
  maypanic
  begins @C10 ghosts("tried") := []
  begins @C10 ghosts("enc") := []
  begins @C10 ghost("nenc") := 0
  modifies @C10 ghosts("tried"), ghosts("enc"), ghost("nenc")
  ensures @C10 ok: err == nil ==> ghosts("tried") == p.Params && counted(pkt, ghost("nenc"), ghosts("enc")) && diff(ghost("nenc"), 255) <= 0
  ensures @C10 full: err != nil ==> ghost("nenc") > 255 && pkt == nil

// The order of the merged list and what it holds are beyond the models of map
// iteration and sort.Slice: TestVerifC10_bounded stands in.
func model.(*DeviceParams).Update(p, newParams)
  prop C10
  maypanic
  bounded order and content of the merged list: all pairs of up to 4 stored and 3 new parameters over 4 ids, and random lists of up to 60, on the real code
  modifies p.Params, p.ParamCnt
  ensures count: p.ParamCnt == u8(len(p.Params))

func model.(*Msg0104).Decode(m, packet) (err)
  prop C10
  requires okpkt(packet)
  panics when len(packet.Body) < 3 || !fits(packet.Body[2], packet.Body[3:], 0)
  modifies m.Parameters
  modifies @C10 ghosts("items"), ghosts("itemsrc"), ghost("itempos")
  sets m.Header := packet.Header
  sets m.AnswerSerialNumber := be16(packet.Body, 0)
  sets m.AnswerParamCnt := packet.Body[2]
  ensures ok: err == nil
  ensures list: m.Parameters != nil && fresh(m.Parameters) && m.Parameters.ParamCnt == packet.Body[2] && m.Parameters.DevicePhone == packet.Header.PhoneNumber
  ensures @C10 items: same(m.Parameters.Params, ghosts("items")) && len(m.Parameters.Params) == packet.Body[2] && ghosts("itemsrc") == packet.Body[3:]

func model.(*Msg8103).Decode(m, packet) (err)
  prop C10
  requires okpkt(packet)
  panics when len(packet.Body) < 1 || !fits(packet.Body[0], packet.Body[1:], 0)
  modifies m.Parameters
  modifies @C10 ghosts("items"), ghosts("itemsrc"), ghost("itempos")
  sets m.Header := packet.Header
  sets m.ParamCnt := packet.Body[0]
  ensures ok: err == nil
  ensures list: m.Parameters != nil && fresh(m.Parameters) && m.Parameters.ParamCnt == packet.Body[0] && m.Parameters.DevicePhone == packet.Header.PhoneNumber
  ensures @C10 items: same(m.Parameters.Params, ghosts("items")) && len(m.Parameters.Params) == packet.Body[0] && ghosts("itemsrc") == packet.Body[1:]

fn plist() = [ghost("nenc")] ++ ghosts("enc")

func model.(*Msg0104).Encode(m) (pkt, err)
  prop C10 C08
  requires okhdr(m.Header)
  maypanic
  modifies m.Header.Attr.BodyLength
  modifies @C10 ghosts("tried"), ghosts("enc"), ghost("nenc")
  ensures @C10 bytes: err == nil ==> ghosts("tried") == m.Parameters.Params && diff(ghost("nenc"), 255) <= 0 && pkt == message(m.Header, be16(m.AnswerSerialNumber) ++ plist())
  ensures @C10 full: err != nil ==> ghost("nenc") > 255

func model.(*Msg8103).Encode(m) (pkt, err)
  prop C10 C08
  requires okhdr(m.Header)
  maypanic
  modifies m.Header.Attr.BodyLength
  modifies @C10 ghosts("tried"), ghosts("enc"), ghost("nenc")
  ensures @C10 bytes: err == nil ==> ghosts("tried") == m.Parameters.Params && diff(ghost("nenc"), 255) <= 0 && pkt == message(m.Header, plist())
  ensures @C10 full: err != nil ==> ghost("nenc") > 255
