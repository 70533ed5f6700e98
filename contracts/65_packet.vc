// Packets (internal/protocol/packet_codec.go) and fragments.

rec noslash(s: bytes): bool = len(s) == 0 || s[0] != 47 && noslash(s[1:])

lemma noslash_hexu(s: bytes)
  ensures noslash(hexu(s))
  use noslash_hexu(s[1:]) when len(s) > 0

lemma noslash_suffix(s: bytes, n: int)
  requires noslash(s) && 0 <= n && n <= len(s)
  ensures noslash(s[n:])
  use noslash_suffix(s[1:], n - 1) when n > 0

lemma slash_split(p: bytes, q: bytes, a: bytes, b: bytes)
  requires noslash(p) && noslash(q) && p ++ [47] ++ a == q ++ [47] ++ b
  ensures p == q && a == b
  use slash_split(p[1:], q[1:], a, b) when len(p) > 0 && len(q) > 0

// phone numbers read from a packet contain no slash
lemma phone_noslash(b: bytes)
  ensures noslash(bcdstr(b))
  use noslash_hexu(b)
  use noslash_suffix(hexu(b), lastidx(hexu(b), 70) + 1)

fn msgid(i) = 0 <= i && i < 65536 && !(0xd800 <= i && i <= 0xdfff)

// different phones or message ids have different keys
lemma segkey_injective(p: bytes, i: int, q: bytes, j: int)
  prop C17
  requires noslash(p) && noslash(q) && msgid(i) && msgid(j) && segkey(p, i) == segkey(q, j)
  ensures p == q && i == j
  use slash_split(p, q, utf8(i), utf8(j))

fn inner(f) = len(f) < 2 ? [] : unesc(f[1:len(f)-1])
fn goodsum(b) = len(b) > 0 && xorf(b[:len(b)-1]) == b[len(b)-1]
fn content(f) = let(b, inner(f), b[:len(b)-1])
fn fbody(b) = b[h_len(b):]
fn fkey(b) = segkey(h_phone(b), be16(b, 0))
fn ftotal(b) = be16(b, h_fragoff(b))
fn findex(b) = be16(b, h_fragoff(b) + 2)
// is b the last fragment of its message
fn flast(b) = findex(b) == segtotal(fkey(b), ftotal(b))

func protocol.(*JT808PacketCodec).Decode(pc, payload) (pd, err)
  prop C01 C02 C17
  nilable pc
  requires len(payload) >= 1
  panics when goodsum(inner(payload)) && h_short(content(payload))
  cases goodsum(inner(payload))
  cases @-C20,C21,C22,C23 h_frag(content(payload))
  cases @-C20,C21,C22,C23 has(segs(), fkey(content(payload)))
  modifies mapof(segs()), get(segs(), fkey(content(payload))).Data, get(segs(), fkey(content(payload))).SegNo when goodsum(inner(payload)) && h_frag(content(payload))
  ensures empty: len(inner(payload)) == 0 ==> err == protocol.ErrEmptyPacket
  ensures refused: !goodsum(inner(payload)) ==> err != nil && pd == nil
  ensures accepted: goodsum(inner(payload)) ==> err == nil && fresh(pd) && fresh(pd.Header) && fresh(pd.Header.Attr)
  ensures @-C20,C21,C22,C23 id: err == nil ==> pd.Header.MsgID == be16(content(payload), 0)
  ensures @-C20,C21,C22,C23 phone: err == nil ==> pd.Header.PhoneNumber == h_phone(content(payload))
  ensures @-C20,C21,C22,C23 serial: err == nil ==> pd.Header.SerialNumber == h_serial(content(payload))
  ensures @-C20,C21,C22,C23 protver: err == nil ==> pd.Header.ProtocolVersion == (h_v19(content(payload)) ? content(payload)[4] : 0)
  ensures @-C20,C21,C22,C23 blen: err == nil ==> pd.Header.Attr.BodyLength == bits(h_attr(content(payload)), 0, 10)
  ensures @-C20,C21,C22,C23 enc: err == nil ==> pd.Header.Attr.Encryption == bits(h_attr(content(payload)), 10, 3)
  ensures @-C20,C21,C22,C23 pfrag: err == nil ==> pd.Header.Attr.PacketFragmented == bit(h_attr(content(payload)), 13)
  ensures @-C20,C21,C22,C23 ver: err == nil ==> pd.Header.Attr.VersionSign == bit(h_attr(content(payload)), 14) && pd.Header.Attr.VersionDesc == (h_v19(content(payload)) ? 2 : 1)
  ensures @-C20,C21,C22,C23 extra: err == nil ==> pd.Header.Attr.Extra == bit(h_attr(content(payload)), 15)
  ensures @-C20,C21,C22,C23 single: err == nil && !h_frag(content(payload)) ==> pd.Body == fbody(content(payload)) && !pd.SegCompleted && pd.Header.Frag == nil
  ensures @-C20,C21,C22,C23 frag: err == nil && h_frag(content(payload)) ==> fresh(pd.Header.Frag) && pd.Header.Frag.Total == ftotal(content(payload)) && pd.Header.Frag.Index == findex(content(payload))
  ensures @-C20,C21,C22,C23 others: err == nil && h_frag(content(payload)) ==> mapeq(del(mapof(segs()), fkey(content(payload))), old(del(mapof(segs()), fkey(content(payload)))))
  ensures @-C20,C21,C22,C23 done: err == nil && h_frag(content(payload)) ==> (pd.SegCompleted <==> old(flast(content(payload))))
  ensures @-C20,C21,C22,C23 whole: err == nil && pd.SegCompleted ==> pd.Body == old(segdata(fkey(content(payload)))) ++ fbody(content(payload)) && !has(segs(), fkey(content(payload)))
  ensures @-C20,C21,C22,C23 part: err == nil && h_frag(content(payload)) && !pd.SegCompleted ==> let(k, fkey(content(payload)), has(segs(), k) && segdata(k) == old(segdata(k)) ++ fbody(content(payload)) && get(segs(), k).SegTotal == old(segtotal(k, ftotal(content(payload)))))
