// Primitive field codecs (internal/codec/hex).

fn ishex(c) = 48 <= c && c <= 57 || 65 <= c && c <= 70 || 97 <= c && c <= 102
fn hexval(c) = c <= 57 ? c - 48 : c <= 70 ? c - 55 : c - 87
fn hexup(n) = n <= 9 ? n + 48 : n + 55
fn hexlo(n) = n <= 9 ? n + 48 : n + 87

// encoding/hex.DecodeString: the pairs before the first invalid character
rec hexd(s: bytes): bytes = len(s) < 2 ? [] : ishex(s[0]) && ishex(s[1]) ? [16*hexval(s[0]) + hexval(s[1])] ++ hexd(s[2:]) : []
rec hexl(s: bytes): bytes = len(s) == 0 ? [] : [hexlo(s[0]/16), hexlo(s[0]%16)] ++ hexl(s[1:])
rec hexu(s: bytes): bytes = len(s) == 0 ? [] : [hexup(s[0]/16), hexup(s[0]%16)] ++ hexu(s[1:])
rec lastidx(s: bytes, c: int): int = len(s) == 0 ? -1 : s[len(s)-1] == c ? len(s)-1 : lastidx(s[:len(s)-1], c)
  fact -1 <= result && result < len(s)
rec trimr(s: bytes, c: int): bytes = len(s) == 0 ? [] : s[len(s)-1] == c ? trimr(s[:len(s)-1], c) : s

rec digits(s: bytes): bool = len(s) == 0 || (48 <= s[0] && s[0] <= 57 && digits(s[1:]))

template $d ++ hexu($s[$i:])
template $d ++ hexu($d2)
template padz($i) ++ $s == $d && 0 <= $i && $i <= max(0, 8 - len($s))

// decoded BCD: upper-case hex digits, filler F nibbles and everything before them dropped
fn bcdof(h) = let(p, lastidx(h, 70), p == 8 ? "0" : h[p+1:])
fn bcdstr(b) = bcdof(hexu(b))
fn padz(n) = repl(0x66, n)
fn pad8(s) = len(s) < 8 ? padz(8 - len(s)) ++ s : s

lemma digits_nof(s: bytes)
  requires digits(s)
  ensures lastidx(s, 70) == -1
  use digits_nof_r(s, s)

// digits in every prefix
lemma digits_prefix(s: bytes, n: int)
  requires digits(s) && 0 <= n && n <= len(s)
  ensures digits(s[:n])
  use digits_prefix(s[1:], n - 1) when len(s) > 0 && n > 0

lemma digits_last(s: bytes)
  requires digits(s) && len(s) > 0
  ensures 48 <= s[len(s)-1] && s[len(s)-1] <= 57
  use digits_last(s[1:]) when len(s) > 1

lemma digits_nof_r(t: bytes, s: bytes)
  requires digits(t)
  ensures lastidx(t, 70) == -1
  use digits_last(t) when len(t) > 0
  use digits_prefix(t, len(t) - 1) when len(t) > 0
  use digits_nof_r(t[:len(t)-1], s) when len(t) > 0

lemma bcd_roundtrip_hex(s: bytes)
  requires digits(s) && len(s) % 2 == 0
  ensures hexu(hexd(s)) == s && len(hexd(s)) == len(s)/2
  use bcd_roundtrip_hex(s[2:]) when len(s) > 1

// a decimal string of even length >= 8 survives WriteBCD/ReadBCD
lemma bcd_roundtrip(s: bytes)
  prop C09
  requires digits(s) && len(s) % 2 == 0 && len(s) >= 8
  ensures bcdstr(hexd(pad8(s))) == s
  use bcd_roundtrip_hex(s)
  use digits_nof(s)

func hex.Str2Byte(src) (r)
  ensures r == hexd(src)
func hex.Byte2Str(src) (r)
  ensures r == hexl(src)
func hex.bcd2NumberStr(bcd) (r)
  ensures r == bcdstr(bcd)
func hex.numberStr2BCD(number) (r)
  ensures r == hexd(pad8(number))

func hex.ReadByte(pkt, idx) (r)
  prop C09
  panics when *idx < 0 || *idx + 1 > len(pkt)
  sets *idx := *idx + 1
  ensures val: r == pkt[old(*idx)]
func hex.ReadWord(pkt, idx) (r)
  prop C09
  panics when *idx < 0 || *idx + 2 > len(pkt)
  sets *idx := *idx + 2
  ensures val: r == be16(pkt, old(*idx))
func hex.ReadDoubleWord(pkt, idx) (r)
  prop C09
  panics when *idx < 0 || *idx + 4 > len(pkt)
  sets *idx := *idx + 4
  ensures val: r == be32(pkt, old(*idx))
func hex.ReadBytes(pkt, idx, n) (r)
  prop C09
  panics when *idx < 0 || n < 0 || *idx + n > len(pkt)
  sets *idx := *idx + n
  ensures val: r == sub(pkt, old(*idx), n)
func hex.ReadString(pkt, idx, n) (r)
  prop C09
  panics when *idx < 0 || n < 0 || *idx + n > len(pkt)
  sets *idx := *idx + n
  ensures val: r == sub(pkt, old(*idx), n)
func hex.ReadBCD(pkt, idx, n) (r)
  prop C09
  panics when *idx < 0 || n < 0 || *idx + n > len(pkt)
  sets *idx := *idx + n
  ensures val: r == bcdstr(sub(pkt, old(*idx), n))
func hex.WriteByte(pkt, num) (r)
  prop C09
  ensures val: r == pkt ++ [num]
func hex.WriteWord(pkt, num) (r)
  prop C09
  ensures val: r == pkt ++ be16(num)
func hex.WriteDoubleWord(pkt, num) (r)
  prop C09
  ensures val: r == pkt ++ be32(num)
func hex.WriteBytes(pkt, arr) (r)
  prop C09
  ensures val: r == pkt ++ arr
  ensures own: unshared(r, arr)
func hex.WriteString(pkt, str) (r)
  prop C09
  ensures val: r == pkt ++ str
func hex.WriteBCD(pkt, bcd) (r)
  prop C09
  ensures val: r == pkt ++ hexd(pad8(bcd))
