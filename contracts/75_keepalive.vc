// Keepalive (internal/protocol/keepalive.go).  Times are compared with a
// tolerance of 2 ms (the code may round to milliseconds or not), except that a
// device silent for no longer than its period is never treated as silent where
// rounding does not matter.

fn silent(d) = old(clock()) > tnano(old(d.LastestComTime)) + old(d.Keepalive) + 2000000
fn wholems(d) = tnano(old(d.LastestComTime)) % 1000000 == 0 && old(d.Keepalive) % 1000000 == 0
fn heard(d) = clock() < tnano(old(d.LastestComTime)) + old(d.Keepalive) - 2000000 || wholems(d) && clock() <= tnano(old(d.LastestComTime)) + old(d.Keepalive)
fn timer() = protocol.timerSingleton

func protocol.(*KeepaliveTimer).Cancel(t, phone)
  prop C14
  requires t == timer()
  sets mapof(jobs()) := del(mapof(jobs()), phone)

func protocol.(*KeepaliveTimer).Register(t, phone)
  prop C14
  requires t == timer()
  sets mapof(jobs()) := has(byphone(), phone) ? put(mapof(jobs()), phone, get(byphone(), phone).Keepalive) : mapof(jobs())

func protocol.(*CheckDeviceJob).Run(j)
  prop C14
  requires timer() != nil && (has(byphone(), j.phone) ==> get(byphone(), j.phone).Conn != nil && get(byphone(), j.phone).Keepalive >= 0)
  modifies get(byphone(), j.phone).Status when has(byphone(), j.phone)
  modifies mapof(byphone()), mapof(byplate()), mapof(geos()) when has(byphone(), j.phone)
  modifies mapof(jobs())
  ensures gone: !old(has(byphone(), j.phone)) ==> mapeq(mapof(jobs()), old(del(mapof(jobs()), j.phone)))
  ensures goneopen: !old(has(byphone(), j.phone)) ==> ncalls("conn.Close") == 0
  ensures offline: old(has(byphone(), j.phone)) && old(get(byphone(), j.phone).Status) != 0 ==> let(d, old(get(byphone(), j.phone)), (silent(d) ==> d.Status == 0) && (heard(d) ==> d.Status == old(get(byphone(), j.phone).Status)) && (d.Status == 0 || d.Status == old(get(byphone(), j.phone).Status)))
  ensures keeps: old(has(byphone(), j.phone)) && old(get(byphone(), j.phone).Status) != 0 ==> mapeq(mapof(byphone()), old(mapof(byphone()))) && mapeq(mapof(geos()), old(mapof(geos()))) && mapeq(mapof(jobs()), old(mapof(jobs())))
     && let(d, old(get(byphone(), j.phone)), mapeq(del(mapof(byplate()), d.Plate), old(del(mapof(byplate()), get(byphone(), j.phone).Plate))))
  ensures clear: old(has(byphone(), j.phone)) && old(get(byphone(), j.phone).Status) == 0 && silent(old(get(byphone(), j.phone))) ==> !has(byphone(), j.phone)
  ensures kept: old(has(byphone(), j.phone)) && old(get(byphone(), j.phone).Status) == 0 && heard(old(get(byphone(), j.phone))) ==> has(byphone(), j.phone)
  ensures cleared: old(has(byphone(), j.phone)) && !has(byphone(), j.phone) ==> mapeq(mapof(byphone()), old(del(mapof(byphone()), j.phone))) &&
     mapeq(mapof(byplate()), old(del(mapof(byplate()), get(byphone(), j.phone).Plate))) && mapeq(mapof(geos()), old(del(mapof(geos()), j.phone))) && mapeq(mapof(jobs()), old(del(mapof(jobs()), j.phone)))
  ensures notclosed: has(byphone(), j.phone) ==> ncalls("conn.Close") == 0
  ensures closed: old(has(byphone(), j.phone)) && !has(byphone(), j.phone) ==> ncalls("conn.Close") == 1 && arg("conn.Close", 0, 0) == old(get(byphone(), j.phone).Conn)
  ensures untouched: old(has(byphone(), j.phone)) && old(get(byphone(), j.phone).Status) == 0 && has(byphone(), j.phone) ==> get(byphone(), j.phone).Status == 0 && mapeq(mapof(byphone()), old(mapof(byphone()))) && mapeq(mapof(byplate()), old(mapof(byplate()))) && mapeq(mapof(geos()), old(mapof(geos()))) && mapeq(mapof(jobs()), old(mapof(jobs())))

func protocol.(*CheckDeviceJob).JobID(j) (r)
  prop C14
  ensures id: r == j.phone
