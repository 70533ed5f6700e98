// Messages sent on behalf of the API (internal/server/tcp_server.go, internal/api/api.go).

func server.(*TCPServer).Send(serv, id, msg)
  prop C23
  requires msg != nil && serv.mutex != nil
  maypanic when has(sessions(), id)
  modifies heap
  ensures closed: !old(has(sessions(), id)) ==> ncalls("protocol.(*Pipeline).ProcessConnWrite") == 0
  ensures once: old(has(sessions(), id)) ==> ncalls("protocol.(*Pipeline).ProcessConnWrite") == 1
  ensures there: ncalls("protocol.(*Pipeline).ProcessConnWrite") == 1 ==> at("protocol.(*Pipeline).ProcessConnWrite", 0, arg("protocol.(*Pipeline).ProcessConnWrite", 0, 0).fh.writer) == old(get(sessions(), id).Conn)
  ensures that: ncalls("protocol.(*Pipeline).ProcessConnWrite") == 1 ==> at("protocol.(*Pipeline).ProcessConnWrite", 0, outgoing(arg("protocol.(*Pipeline).ProcessConnWrite", 0, 1)).Outgoing) == msg

fn nsent() = ncalls("server.(*TCPServer).Send")
fn sentmsg() = arg("server.(*TCPServer).Send", 0, 2)
fn refused(c) = nsent() == 0 && ncalls("gin.JSON") == 1 && arg("gin.JSON", 0, 0) == c && 400 <= arg("gin.JSON", 0, 1) && arg("gin.JSON", 0, 1) < 500
fn rdev(c) = get(byphone(), ginparam(c, "phone"))
fn rknown(c) = has(byphone(), ginparam(c, "phone"))
fn ropen(c) = rknown(c) && has(sessions(), rdev(c).SessionID)
fn next(c) = u16(get(sessions(), rdev(c).SessionID).serialNumber + 1)

route GET /device(c)
  prop C23
  modifies heap
  ensures lists: nsent() == 0

route GET /device/:phone/geo(c)
  prop C23
  modifies heap
  ensures unknown: !old(rknown(c)) ==> refused(c)
  ensures silent: nsent() == 0

route GET /device/:phone/params(c)
  prop C23
  maypanic when ropen(c)
  modifies heap
  ensures refuses: !old(ropen(c)) ==> refused(c)
  ensures sends: old(ropen(c)) ==> nsent() == 1 && arg("server.(*TCPServer).Send", 0, 1) == old(rdev(c).SessionID) && typeis(sentmsg(), "*model.Msg8104")
  ensures addressed: nsent() == 1 ==> typeis(sentmsg(), "*model.Msg8104") && at("server.(*TCPServer).Send", 0, as(sentmsg(), "*model.Msg8104").Header.MsgID) == 0x8104 && at("server.(*TCPServer).Send", 0, as(sentmsg(), "*model.Msg8104").Header.PhoneNumber) == ginparam(c, "phone")
  ensures numbered: nsent() == 1 ==> at("server.(*TCPServer).Send", 0, as(sentmsg(), "*model.Msg8104").Header.SerialNumber) == old(next(c))
  ensures version: nsent() == 1 ==> at("server.(*TCPServer).Send", 0, as(sentmsg(), "*model.Msg8104").Header.Attr.VersionDesc) == old(rdev(c).VersionDesc) && at("server.(*TCPServer).Send", 0, as(sentmsg(), "*model.Msg8104").Header.ProtocolVersion) == old(rdev(c).ProtocolVersion)

route PUT /device/:phone/params(c)
  prop C23
  maypanic when ropen(c)
  modifies heap
  ensures binds: ncalls("gin.bind") <= 1
  ensures unparsed: ncalls("gin.bind") == 1 ==> res("gin.bind", 0, 0) != nil ==> refused(c)
  ensures refuses: !old(ropen(c)) ==> refused(c)
  ensures sends: old(ropen(c)) ==> ncalls("gin.bind") == 1 && (res("gin.bind", 0, 0) == nil ==> nsent() == 1 && arg("server.(*TCPServer).Send", 0, 1) == old(rdev(c).SessionID) && typeis(sentmsg(), "*model.Msg8103"))
  ensures addressed: nsent() == 1 ==> typeis(sentmsg(), "*model.Msg8103") && at("server.(*TCPServer).Send", 0, as(sentmsg(), "*model.Msg8103").Header.MsgID) == 0x8103 && at("server.(*TCPServer).Send", 0, as(sentmsg(), "*model.Msg8103").Header.PhoneNumber) == ginparam(c, "phone")
  ensures numbered: nsent() == 1 ==> at("server.(*TCPServer).Send", 0, as(sentmsg(), "*model.Msg8103").Header.SerialNumber) == old(next(c))
  ensures version: nsent() == 1 ==> at("server.(*TCPServer).Send", 0, as(sentmsg(), "*model.Msg8103").Header.Attr.VersionDesc) == old(rdev(c).VersionDesc) && at("server.(*TCPServer).Send", 0, as(sentmsg(), "*model.Msg8103").Header.ProtocolVersion) == old(rdev(c).ProtocolVersion)
  ensures given: nsent() == 1 ==> let(p, at("server.(*TCPServer).Send", 0, as(sentmsg(), "*model.Msg8103").Parameters), p != nil && arg("gin.bind", 0, 1) == boxed("*model.DeviceParams", p) && at("server.(*TCPServer).Send", 0, p.Params) == at("gin.bind", 0, p.Params) && at("server.(*TCPServer).Send", 0, p.ParamCnt) == at("gin.bind", 0, p.ParamCnt))

func api.Run(serv, cfg)
  prop C23
  requires serv.mutex != nil
  maypanic
  modifies heap
  serves GET /device
  serves GET /device/:phone/geo
  serves GET /device/:phone/params
  serves PUT /device/:phone/params
