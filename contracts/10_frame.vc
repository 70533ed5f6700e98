// Frame layer: escaping and checksum.

// 0x7e -> 7d 02, 0x7d -> 7d 01
fn cut(s, i, j) = 0 <= i && i <= j && j <= len(s) ? s[i:j] : []

rec esc(s: bytes): bytes = len(s) == 0 ? [] :
    (s[0] == 0x7e ? [0x7d, 2] : s[0] == 0x7d ? [0x7d, 1] : [s[0]]) ++ esc(s[1:])

rec unesc(s: bytes): bytes = len(s) == 0 ? [] :
    len(s) >= 2 && s[0] == 0x7d && s[1] == 2 ? [0x7e] ++ unesc(s[2:]) :
    len(s) >= 2 && s[0] == 0x7d && s[1] == 1 ? [0x7d] ++ unesc(s[2:]) :
    [s[0]] ++ unesc(s[1:])

rec xorf(s: bytes): byte = len(s) == 0 ? 0 : bxor(s[0], xorf(s[1:]))

template $d ++ esc($s[$i:])
template $d ++ unesc(cut($s, $i, len($s)-1))
template $d ++ unesc($d2)
template $d ++ esc($d2)
template bxor($x, xorf($d))
template bxor($x, xorf($s[$i:]))

lemma esc_roundtrip(s: bytes)
  prop C01
  ensures unesc(esc(s)) == s
  use esc_roundtrip(s[1:]) when len(s) > 0

func protocol.(*JT808PacketCodec).escape(pc, src) (r)
  nilable pc
  ensures body: r == [0x7e] ++ esc(src) ++ [0x7e]

func protocol.(*JT808PacketCodec).unescape(pc, src) (r)
  nilable pc
  cases len(src) < 2
  ensures body: r == (len(src) < 2 ? [] : unesc(src[1:len(src)-1]))

func protocol.(*JT808PacketCodec).verify(pc, pkt) (r, err)
  nilable pc
  cases len(pkt) == 0
  cases xorf(pkt[:len(pkt)-1]) == pkt[len(pkt)-1]
  ensures empty: len(pkt) == 0 ==> err == protocol.ErrEmptyPacket && r == []
  ensures good: len(pkt) > 0 && xorf(pkt[:len(pkt)-1]) == pkt[len(pkt)-1] ==> err == nil && r == pkt[:len(pkt)-1]
  ensures bad: len(pkt) > 0 && xorf(pkt[:len(pkt)-1]) != pkt[len(pkt)-1] ==> err == protocol.ErrVerifyFailed

func protocol.(*JT808PacketCodec).genVerifier(pc, pkt) (r)
  nilable pc
  ensures body: r == pkt ++ [xorf(pkt)]

// what a message's own encoder does is left open here
func interface model.JT808Msg.Encode(m) (pkt, err)
  modifies heap
  maypanic

// a message is framed as 7e esc(bytes ++ checksum) 7e
func protocol.(*JT808PacketCodec).Encode(pc, data) (pkt, err)
  prop C01 C02
  nilable pc
  modifies heap
  maypanic
  ensures notmsg: !typeis(data, "model.JT808Msg") ==> err == protocol.ErrEncodeType
  ensures failed: typeis(data, "model.JT808Msg") ==> res("interface model.JT808Msg.Encode", 0, 1) != nil ==> iserr(err, res("interface model.JT808Msg.Encode", 0, 1)) && len(pkt) == 0
  ensures framed: typeis(data, "model.JT808Msg") ==> res("interface model.JT808Msg.Encode", 0, 1) == nil ==> err == nil &&
     let(b, res("interface model.JT808Msg.Encode", 0, 0), pkt == [0x7e] ++ esc(b ++ [xorf(b)]) ++ [0x7e])
