// Sessions (internal/protocol/model/session.go).
atomic model.Session.serialNumber model.(*Session).GetNextSerialNum

func model.(*Session).GetNextSerialNum(s) (r)
  prop C18
  modifies s.serialNumber
  ensures @-C18 val: r == u16(s.serialNumber) && r == u16(old(s.serialNumber) + 1)
  // one indivisible step from the previous number to the next, whose result is returned
  ensures @C18 onestep: ncalls("atomic.rmw") == 1
  ensures @C18 next: u16(arg("atomic.rmw", 0, 1)) == u16(arg("atomic.rmw", 0, 0) + 1) && r == u16(arg("atomic.rmw", 0, 1))

// 65536 consecutive steps give distinct numbers
lemma serials_distinct(n: int, i: int, j: int)
  prop C18
  requires 0 <= i && i < j && j < i + 65536
  ensures u16(n + i) != u16(n + j)
