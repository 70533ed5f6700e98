// Goroutines (pkg/routines/safe.go) and connections (internal/server/tcp_server.go).

func routines.Recover(cleanups)
  prop C20
  deferred
  maypanic when len(cleanups) > 0
  modifies heap
  ensures stops: !panicking()
  ensures cleans: called() == old(called()) ++ cleanups

func routines.RunSafe(fn)
  prop C20
  inline
  requires fn != nil
  modifies heap
  sets called() := called() ++ [fn]

func routines.GoSafe(fn)
  prop C20
  inline
  requires fn != nil
  ensures starts: ncalls("go") == 1 && arg("go", 0, 0) == old(called()) ++ [fn]

// ghost state of a connection: waiting (accepted and not yet served), accepted
// (the connection itself), lasterr (what its last message ended with)
fn terminal(e) = e != nil && (iserr(e, io.EOF) || iserr(e, io.ErrClosedPipe) || iserr(e, net.ErrClosed) || iserr(e, storage.ErrDeviceNotFound))
template !terminal($v)

func server.NewTCPServer() (s)
  prop C21
  ensures fresh(s) && fresh(s.mutex)

func server.(*TCPServer).accept(serv, conn) (s)
  prop C21
  requires conn != nil && serv.mutex != nil
  sets mapof(sessions()) := put(mapof(sessions()), remoteaddr(conn), s)
  ensures session: fresh(s) && s.Conn == conn && s.ID == remoteaddr(conn)

func server.(*TCPServer).serve(serv, session)
  prop C20 C21
  requires session != nil && session.Conn != nil && serv.mutex != nil
  requires @C21 session.ID == remoteaddr(session.Conn) && has(mapof(sessions()), session.ID) && get(mapof(sessions()), session.ID) == session
  requires @C21 ghost("waiting") == 1 && session.Conn == ghostv("accepted") && ghostv("lasterr") == nil
  maypanic
  modifies heap
  sets @C21 ghost("waiting") := 0
  finally closed: ncalls("conn.Close") == 1 && arg("conn.Close", 0, 0) == old(session.Conn)
  finally forgotten: !has(mapof(sessions()), old(session.ID))
  ensures @C21 ends: terminal(ghostv("lasterr"))

func server.(*TCPServer).Start(serv)
  prop C20 C21
  requires serv.listener != nil && serv.mutex != nil
  requires @C21 ghost("waiting") == 0
  modifies heap
