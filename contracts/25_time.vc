// GBK strings and BCD times.

// golang.org/x/text GBK codec: its tables are not re-verified
uf gbkdec(s: bytes): bytes
  assumed golang.org/x/text/encoding/simplifiedchinese GBK decoder
uf gbkdecok(s: bytes): bool
  assumed golang.org/x/text GBK decoder
uf gbkenc(s: bytes): bytes
  assumed golang.org/x/text GBK encoder
uf gbkencok(s: bytes): bool
  assumed golang.org/x/text GBK encoder

func gbk.GBK2UTF8(src) (r, err)
  prop C09
  cases err == nil
  ensures ok: (err == nil) <==> gbkdecok(src)
  ensures val: err == nil ==> r == gbkdec(src)
func gbk.UTF82GBK(src) (r, err)
  prop C09
  cases err == nil
  ensures ok: (err == nil) <==> gbkencok(src)
  ensures val: err == nil ==> r == gbkenc(src)

fn gbkread(s) = gbkdecok(s) ? gbkdec(s) : []
fn gbkwrite(s) = gbkencok(s) ? gbkenc(s) : []

func hex.ReadGBK(pkt, idx, n) (r)
  prop C09
  panics when *idx < 0 || n < 0 || *idx + n > len(pkt)
  sets *idx := *idx + n
  ensures val: r == gbkread(sub(pkt, old(*idx), n))
func hex.WriteGBK(pkt, str) (r)
  prop C09
  ensures val: r == pkt ++ gbkwrite(str)

// time.Time values are opaque; these are its accessors
uf tyear(t: int): int
uf tmonth(t: int): int
  rng 1 12
uf tday(t: int): int
  rng 1 31
uf thour(t: int): int
  rng 0 23
uf tmin(t: int): int
  rng 0 59
uf tsec(t: int): int
  rng 0 59
uf tnano(t: int): int
uf tadd(t: int, d: int): int
uf tformat(t: int, f: bytes): bytes
uf timeok(f: bytes, s: bytes): bool
uf tparse(f: bytes, s: bytes): int

fn dig(s, i) = s[i] - 48
fn num2(s, i) = 10*dig(s, i) + dig(s, i+1)
fn d2(n) = 0 <= n && n <= 99 ? [48 + n/10, 48 + n%10] : uf("fmt%02d", "bytes", n)
fn yy(y) = y >= 0 ? y % 100 : 0 - ((0 - y) % 100)
fn timestr(t) = d2(yy(tyear(t))) ++ d2(tmonth(t)) ++ d2(tday(t)) ++ d2(thour(t)) ++ d2(tmin(t)) ++ d2(tsec(t))
fn layout() = "060102150405"

func hex.FormatTime(timeIns) (r)
  prop C09
  ensures val: r == timestr(timeIns)
func hex.ParseTime(timeStr) (r)
  prop C09
  ensures val: timeok(layout(), timeStr) ==> r == tparse(layout(), timeStr)
func hex.ReadTime(pkt, idx) (r)
  prop C09
  panics when *idx < 0 || *idx + 6 > len(pkt)
  sets *idx := *idx + 6
  ensures new: fresh(r)
  ensures val: let(s, bcdstr(sub(pkt, old(*idx), 6)), timeok(layout(), s) ==> *r == tparse(layout(), s))
func hex.WriteTime(pkt, timeIns) (r)
  prop C09
  ensures val: r == pkt ++ hexd(pad8(timestr(timeIns)))

uf fnv(k: int, s: bytes): int
  rng 0 4294967295
