// Frames on a byte stream (internal/protocol/frame_handler.go).

// what is collected from t: everything up to the first 7e is skipped unless a frame is open,
// then the bytes up to and including the closing 7e are taken
rec scan(t: bytes, open: bool): bytes = len(t) == 0 ? [] :
    t[0] == 0x7e ? (open ? [0x7e] : [0x7e] ++ scan(t[1:], true)) :
    open ? [t[0]] ++ scan(t[1:], true) : scan(t[1:], false)
// how many bytes of t that uses up
rec used(t: bytes, open: bool): int = len(t) == 0 ? 0 :
    t[0] == 0x7e ? (open ? 1 : 1 + used(t[1:], true)) : 1 + used(t[1:], open)
  fact 0 <= result && result <= len(t)

template $d ++ scan($s[$i:], $b)
template $d ++ scan($s[$i:], len($d) > 0)
template $d ++ scan($s[$i:], true)
template scan($s[$i:], false)
template $b ? $d : $d ++ scan($s[$i:], true)
template $b ? $x : $x + used($s[$x:], true)
template $x + used($s[$x:], $b)
template $x + used($s[$x:], len($d) > 0)
template $x + used($s[$x:], true)
template $x + used($s[$x:], false)

// what is still to be written
template $d ++ $d2
template $d ++ $s[$i:]
template $v == $v2
template 0 <= $x && $x <= len($d)

fn hassession(ctx) = ctx != nil && typeis(ctxget(ctx, "model.SessionCtxKey"), "*model.Session")

rec no7e(s: bytes): bool = len(s) == 0 || s[0] != 0x7e && no7e(s[1:])

lemma esc_no7e(s: bytes)
  ensures no7e(esc(s))
  use esc_no7e(s[1:]) when len(s) > 0

lemma scan_open(p: bytes, rest: bytes)
  requires no7e(p)
  ensures scan(p ++ [0x7e] ++ rest, true) == p ++ [0x7e]
  ensures used(p ++ [0x7e] ++ rest, true) == len(p) + 1
  use scan_open(p[1:], rest) when len(p) > 0

lemma scan_skip(g: bytes, t: bytes)
  requires no7e(g)
  ensures scan(g ++ t, false) == scan(t, false)
  ensures used(g ++ t, false) == len(g) + used(t, false)
  use scan_skip(g[1:], t) when len(g) > 0

// reading up to a 7e twice
lemma scan_twice(t: bytes)
  requires !no7e(t)
  ensures scan(t, false) == [0x7e] ++ scan(t[used(t, true):], true)
  ensures used(t, false) == used(t, true) + used(t[used(t, true):], true)
  ensures len(scan(t, true)) >= 1
  use scan_twice(t[1:]) when len(t) > 0 && t[0] != 0x7e

// a frame preceded by noise and followed by anything is delivered exactly, and exactly it is used up
lemma scan_frame(g: bytes, p: bytes, rest: bytes)
  prop C03
  requires no7e(g) && no7e(p)
  ensures scan(g ++ [0x7e] ++ p ++ [0x7e] ++ rest, false) == [0x7e] ++ p ++ [0x7e]
  ensures used(g ++ [0x7e] ++ p ++ [0x7e] ++ rest, false) == len(g) + len(p) + 2
  use scan_open(p, rest)
  use scan_skip(g, [0x7e] ++ p ++ [0x7e] ++ rest)

// in particular whatever was framed by the encoder
lemma framed_delivery(s: bytes, rest: bytes)
  prop C01 C03
  ensures scan([0x7e] ++ esc(s) ++ [0x7e] ++ rest, false) == [0x7e] ++ esc(s) ++ [0x7e]
  use esc_no7e(s)
  use scan_frame([], esc(s), rest)

func protocol.(*JT808FrameHandler).Recv(fh, ctx) (r, err)
  prop C03
  requires fh.rbuf != nil && hassession(ctx) && 0 <= pos(fh.rbuf) && pos(fh.rbuf) <= len(stream(fh.rbuf))
  modifies pos(fh.rbuf), rderr(fh.rbuf)
  ensures frame: err == nil ==> let(t, stream(fh.rbuf)[old(pos(fh.rbuf)):], r == scan(t, false))
  ensures atleast: err == nil ==> len(r) >= 1
  ensures consumed: err == nil ==> let(t, stream(fh.rbuf)[old(pos(fh.rbuf)):], pos(fh.rbuf) == old(pos(fh.rbuf)) + used(t, false))
  ensures within: 0 <= pos(fh.rbuf) && pos(fh.rbuf) <= len(stream(fh.rbuf))
  ensures failed: err != nil ==> len(r) == 0
  ensures cause: err != nil ==> iserr(err, rderr(fh.rbuf))
  use scan_twice(stream(fh.rbuf)[old(pos(fh.rbuf)):]) when !no7e(stream(fh.rbuf)[old(pos(fh.rbuf)):])

func protocol.(*JT808FrameHandler).Send(fh, payload) (err)
  prop C04
  requires fh.writer != nil
  modifies out(fh.writer), wrerr(fh.writer)
  begins wrerr(fh.writer) := nil
  ensures sent: err == nil ==> out(fh.writer) == old(out(fh.writer)) ++ payload
  ensures cause: err != nil ==> iserr(err, wrerr(fh.writer))
  ensures reported: err == nil ==> wrerr(fh.writer) == nil
