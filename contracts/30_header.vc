// Message header (internal/protocol/model/header.go).

fn attr_v19(a) = bit(a, 14) == 1
fn attr_frag(a) = bit(a, 13) == 1
fn attrenc(len, enc, frag, ver, extra) = u16(len + enc*1024 + frag*8192 + ver*16384 + extra*32768)

fn h_attr(p) = be16(p, 2)
fn h_v19(p) = attr_v19(h_attr(p))
fn h_frag(p) = attr_frag(h_attr(p))
fn h_len(p) = (h_v19(p) ? 17 : 12) + (h_frag(p) ? 4 : 0)
fn h_short(p) = len(p) < 4 || len(p) < h_len(p)
fn h_phone(p) = h_v19(p) ? bcdstr(sub(p, 5, 10)) : bcdstr(sub(p, 4, 6))
fn h_serial(p) = h_v19(p) ? be16(p, 15) : be16(p, 10)
fn h_fragoff(p) = h_v19(p) ? 17 : 12

fn attrword(a) = attrenc(a.BodyLength, a.Encryption, a.PacketFragmented, a.VersionSign, a.Extra)
fn fragbytes(f) = f == nil ? [] : be16(f.Total) ++ be16(f.Index)
fn hdrbytes(h) = be16(h.MsgID) ++ be16(attrword(h.Attr)) ++ (h.Attr.VersionDesc == 2 ? [h.ProtocolVersion] : []) ++
    hexd(pad8(h.PhoneNumber)) ++ be16(h.SerialNumber) ++ fragbytes(h.Frag)
// the header with the body length filled in
fn hdrwith(h, n) = be16(h.MsgID) ++ be16(attrenc(n, h.Attr.Encryption, h.Attr.PacketFragmented, h.Attr.VersionSign, h.Attr.Extra)) ++ (h.Attr.VersionDesc == 2 ? [h.ProtocolVersion] : []) ++
    hexd(pad8(h.PhoneNumber)) ++ be16(h.SerialNumber) ++ fragbytes(h.Frag)

// every field that fits comes back from the attribute word
lemma attr_roundtrip(len: int, enc: int, frag: int, ver: int, extra: int)
  prop C05
  requires 0 <= len && len < 1024 && 0 <= enc && enc < 8 && 0 <= frag && frag < 2 && 0 <= ver && ver < 2 && 0 <= extra && extra < 2
  ensures let(a, attrenc(len, enc, frag, ver, extra), bits(a, 0, 10) == len && bits(a, 10, 3) == enc && bits(a, 13, 1) == frag && bits(a, 14, 1) == ver && bits(a, 15, 1) == extra)

func model.(*MsgBodyAttr).Decode(attr, bitNum) (err)
  prop C05
  sets attr.BodyLength := bits(bitNum, 0, 10)
  sets attr.Encryption := bits(bitNum, 10, 3)
  sets attr.PacketFragmented := bit(bitNum, 13)
  sets attr.VersionSign := bit(bitNum, 14)
  sets attr.Extra := bit(bitNum, 15)
  sets attr.EncryptionDesc := bits(bitNum, 10, 3) == 0 ? 0 : bits(bitNum, 10, 3) == 1 ? 1 : -1
  sets attr.PacketFragmentedDesc := attr_frag(bitNum)
  sets attr.VersionDesc := attr_v19(bitNum) ? 2 : 1
  ensures ok: err == nil

func model.(*MsgBodyAttr).Encode(attr) (r)
  prop C05
  ensures word: r == attrword(attr)

func model.(*MsgFragmentation).Decode(frag, pkt, idx) (err)
  panics when *idx < 0 || *idx + 4 > len(pkt)
  sets frag.Total := be16(pkt, *idx)
  sets frag.Index := be16(pkt, *idx + 2)
  sets *idx := *idx + 4
  ensures ok: err == nil

func model.(*MsgFragmentation).Encode(frag) (r)
  ensures r == be16(frag.Total) ++ be16(frag.Index)

func model.(*MsgHeader).Decode(h, pkt) (err)
  prop C05
  panics when h_short(pkt)
  modifies h.Attr, h.Frag
  sets h.MsgID := be16(pkt, 0)
  sets h.ProtocolVersion := h_v19(pkt) ? pkt[4] : h.ProtocolVersion
  sets h.PhoneNumber := h_phone(pkt)
  sets h.SerialNumber := h_serial(pkt)
  sets h.Idx := h_len(pkt)
  ensures ok: err == nil
  ensures attr: fresh(h.Attr)
  ensures blen: h.Attr.BodyLength == bits(h_attr(pkt), 0, 10)
  ensures enc: h.Attr.Encryption == bits(h_attr(pkt), 10, 3)
  ensures pfrag: h.Attr.PacketFragmented == bit(h_attr(pkt), 13)
  ensures ver: h.Attr.VersionSign == bit(h_attr(pkt), 14)
  ensures extra: h.Attr.Extra == bit(h_attr(pkt), 15)
  ensures encd: h.Attr.EncryptionDesc == (bits(h_attr(pkt), 10, 3) == 0 ? 0 : bits(h_attr(pkt), 10, 3) == 1 ? 1 : -1)
  ensures pfragd: h.Attr.PacketFragmentedDesc == h_frag(pkt)
  ensures verd: h.Attr.VersionDesc == (h_v19(pkt) ? 2 : 1)
  cases h_frag(pkt)
  ensures frag: h_frag(pkt) ==> fresh(h.Frag)
  ensures ftotal: h_frag(pkt) ==> h.Frag.Total == be16(pkt, h_fragoff(pkt))
  ensures findex: h_frag(pkt) ==> h.Frag.Index == be16(pkt, h_fragoff(pkt) + 2)
  ensures nofrag: !h_frag(pkt) ==> h.Frag == old(h.Frag)

func model.(*MsgHeader).Encode(h) (pkt, err)
  prop C05
  requires h.Attr != nil
  ensures layout: pkt == hdrbytes(h)
  ensures ok: err == nil

func model.(*MsgHeader).IsFragmented(h) (r)
  requires h.Attr != nil
  ensures r == (h.Attr.PacketFragmented == 1)

// headers of the platform's own messages
func model.GenMsgHeader(d, msgID, serialNumber) (h)
  prop C05 C17 C23
  ensures hdr: fresh(h) && fresh(h.Attr) && h.Frag == nil
  ensures fields: h.MsgID == msgID && h.SerialNumber == serialNumber && h.PhoneNumber == d.Phone && h.ProtocolVersion == d.ProtocolVersion
  ensures attr: h.Attr.Encryption == 0 && h.Attr.PacketFragmented == 0 && h.Attr.Extra == 0
  ensures version: h.Attr.VersionDesc == d.VersionDesc && h.Attr.VersionSign == (d.VersionDesc == 2 ? 1 : 0)
