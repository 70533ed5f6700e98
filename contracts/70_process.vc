// Message handling (internal/protocol/msg_processor.go).

fn hassess(ctx) = ctx != nil && typeis(ctxget(ctx, "model.SessionCtxKey"), "*model.Session") && as(ctxget(ctx, "model.SessionCtxKey"), "*model.Session") != nil
fn sess(ctx) = as(ctxget(ctx, "model.SessionCtxKey"), "*model.Session")

fn pid(p) = p.Header.MsgID
fn ph(p) = p.Header.PhoneNumber
fn supported(i) = i == 0x0001 || i == 0x0002 || i == 0x0003 || i == 0x0100 || i == 0x0102 || i == 0x0104 || i == 0x0200 || i == 0x1205 ||
   i == 0x8001 || i == 0x8100 || i == 0x8103 || i == 0x8104 || i == 0x9205
fn partial(p) = p.Header.Attr.PacketFragmented == 1 && !p.SegCompleted
fn whole(p) = !partial(p)
fn reg(p) = has(byphone(), ph(p))
fn dev(p) = get(byphone(), ph(p))
fn fromdev(i) = i == 0x0002 || i == 0x0003 || i == 0x0102 || i == 0x0200
fn is(p, i) = pid(p) == i && whole(p)

// what a registration and an authentication carry
fn rplate(p) = gbkread(sub(p.Body, r_fixed(p), bodylen(p) - r_fixed(p)))
fn rdevid(p) = field(p, 4 + r_manu(p) + r_mode(p), r_id(p))
fn acode(p) = ver(p) == 1 ? sub(p.Body, 0, bodylen(p)) : ver(p) == 2 ? sub(p.Body, 1, p.Body[0]) : []
fn aimei(p) = ver(p) == 2 ? sub(p.Body, 1 + p.Body[0], 15) : []
fn asoft(p) = ver(p) == 2 ? trimr(sub(p.Body, 1 + p.Body[0] + 15, 20), 0) : []
fn a_short(p) = ver(p) == 1 && bodylen(p) > len(p.Body) || ver(p) == 2 && (len(p.Body) < 1 || len(p.Body) < 1 + p.Body[0] + 35)
fn authcode(id, plate, phone) = uf("x:strconv.Itoa", "bytes", uf("fnv32a", "int", id ++ "_" ++ plate ++ "_" ++ phone))

fn shortbody(p) = let(i, pid(p), (i == 0x0001 || i == 0x8001) && len(p.Body) < 5 || i == 0x0100 && r_short(p) || i == 0x0102 && a_short(p) ||
   i == 0x0200 && len(p.Body) < 28 || i == 0x1205 && len(p.Body) < 34 || i == 0x9205 && len(p.Body) < 24 ||
   i == 0x8100 && (len(p.Body) < 3 || bodylen(p) < 3 || bodylen(p) > len(p.Body)) || i == 0x0104 || i == 0x8103 || i == 0x8104 && !has(params(), ph(p)))

fn now(t) = tnano(t)
fn ack(pd) = as(pd.Outgoing, "*model.Msg8001")
fn isack(pd, serial, id, phone) = pd != nil && typeis(pd.Outgoing, "*model.Msg8001") && ack(pd) != nil && ack(pd).AnswerSerialNumber == serial && ack(pd).AnswerMessageID == id &&
   ack(pd).Header != nil && ack(pd).Header.Attr != nil && ack(pd).Header.MsgID == 0x8001 && ack(pd).Header.PhoneNumber == phone
fn regreply(pd) = as(pd.Outgoing, "*model.Msg8100")
fn toterm(h, id, phone) = h != nil && h.Attr != nil && h.MsgID == id && h.PhoneNumber == phone
fn setting(pd) = as(pd.Incoming, "*model.Msg8103").Parameters
fn samestores() = mapeq(mapof(byphone()), old(mapof(byphone()))) && mapeq(mapof(byplate()), old(mapof(byplate()))) && mapeq(mapof(jobs()), old(mapof(jobs())))

func protocol.(*JT808MsgProcessor).Process(mp, ctx, pkt) (pd, err)
  prop C10 C11 C12 C13 C14 C16 C17
  requires mp == protocol.jt808MsgProcessorSingleton && okpkt(pkt) && hassess(ctx)
  maypanic when whole(pkt) && shortbody(pkt)
  modifies pkt.Header.MsgID when supported(pid(pkt)) && whole(pkt)
  modifies dev(pkt).Status, dev(pkt).LastestComTime, dev(pkt).AuthCode, dev(pkt).IMEI, dev(pkt).SoftwareVersion when reg(pkt) && whole(pkt) && (pid(pkt) == 0x0002 || pid(pkt) == 0x0102 || pid(pkt) == 0x0200 || pid(pkt) == 0x8001)
  modifies mapof(byphone()), mapof(byplate()) when whole(pkt) && ((fromdev(pid(pkt)) || pid(pkt) == 0x8001) && reg(pkt) || pid(pkt) == 0x0100)
  modifies mapof(jobs()) when whole(pkt) && (reg(pkt) && (pid(pkt) == 0x0003 || pid(pkt) == 0x0102) || pid(pkt) == 0x0100)
  modifies mapof(geos()) when is(pkt, 0x0200) && reg(pkt)
  modifies get(geos(), ph(pkt)).Container, get(geos(), ph(pkt)).Writer when is(pkt, 0x0200) && reg(pkt) && has(geos(), ph(pkt))
  modifies mapof(params()) when is(pkt, 0x8103) || is(pkt, 0x8104)
  modifies get(params(), ph(pkt)).Params, get(params(), ph(pkt)).ParamCnt when is(pkt, 0x8103) && has(params(), ph(pkt))
  modifies get(sessions(), dev(pkt).SessionID).serialNumber when partial(pkt) && supported(pid(pkt)) && reg(pkt) && has(sessions(), dev(pkt).SessionID)

  // replies
  ensures @C11 unknown: !supported(old(pid(pkt))) ==> err == protocol.ErrMsgIDNotSupportted && pd == nil
  ensures @C11 general: err == nil && old(whole(pkt)) && fromdev(old(pid(pkt))) ==> isack(pd, old(pkt.Header.SerialNumber), old(pid(pkt)), old(ph(pkt)))
  ensures @C11 handled: old(whole(pkt) && fromdev(pid(pkt)) && reg(pkt)) ==> err == nil
  ensures @C11 register: err == nil && old(is(pkt, 0x0100)) ==> pd != nil && typeis(pd.Outgoing, "*model.Msg8100") && regreply(pd) != nil && regreply(pd).AnswerSerialNumber == old(pkt.Header.SerialNumber) && toterm(regreply(pd).Header, 0x8100, old(ph(pkt)))
  ensures @C11 registered: old(is(pkt, 0x0100) && r_known(pkt)) ==> err == nil
  ensures @C11 query: err == nil && old(is(pkt, 0x8104)) ==> pd != nil && typeis(pd.Outgoing, "*model.Msg0104") && let(m, as(pd.Outgoing, "*model.Msg0104"), m != nil && m.AnswerSerialNumber == old(pkt.Header.SerialNumber) && toterm(m.Header, 0x0104, old(ph(pkt))) && m.Parameters != nil && (old(has(params(), ph(pkt))) ==> m.Parameters == old(get(params(), ph(pkt)))))
  ensures @C11 setting: err == nil && old(is(pkt, 0x8103)) ==> pd != nil && typeis(pd.Outgoing, "*model.Msg0001") && let(m, as(pd.Outgoing, "*model.Msg0001"), m != nil && m.AnswerSerialNumber == old(pkt.Header.SerialNumber) && m.AnswerMessageID == 0x8103 && m.Result == 0 && toterm(m.Header, 0x0001, old(ph(pkt))))
  ensures @C11 media: err == nil && old(is(pkt, 0x9205)) ==> pd != nil && typeis(pd.Outgoing, "*model.Msg1205") && let(m, as(pd.Outgoing, "*model.Msg1205"), m != nil && m.AnswerSerialNumber == old(pkt.Header.SerialNumber) && m.MediaCount == 1 && m.LogicChannelID == pkt.Body[0] && toterm(m.Header, 0x1205, old(ph(pkt))) && m.StartTime != nil && m.EndTime != nil && timeat(m.StartTime, pkt.Body, 1) && timeat(m.EndTime, pkt.Body, 7))
  ensures @C11 auth: err == nil && old(is(pkt, 0x8100)) ==> pd != nil && typeis(pd.Outgoing, "*model.Msg0102") && let(m, as(pd.Outgoing, "*model.Msg0102"), m != nil && m.AuthCode == sub(pkt.Body, 3, old(bodylen(pkt)) - 3) && toterm(m.Header, 0x0102, old(ph(pkt))))
  ensures @C11 quiet: old(whole(pkt) && (pid(pkt) == 0x0001 || pid(pkt) == 0x0104 || pid(pkt) == 0x1205 || pid(pkt) == 0x8001)) ==> pd == nil || pd.Outgoing == nil
  ensures @C11 quietok: old(is(pkt, 0x0001) || is(pkt, 0x1205)) ==> err == nil

  // registration
  ensures @C12 plate: err == nil && old(is(pkt, 0x0100) && has(byplate(), rplate(pkt))) ==> regreply(pd).Result == 1 && samestores()
  ensures @C12 phone: err == nil && old(is(pkt, 0x0100) && !has(byplate(), rplate(pkt)) && reg(pkt)) ==> regreply(pd).Result == 3 && samestores()
  ensures @C12 failed: err != nil && old(is(pkt, 0x0100)) ==> samestores()
  ensures @C12 accepted: err == nil && old(is(pkt, 0x0100) && r_known(pkt) && !has(byplate(), rplate(pkt)) && !reg(pkt)) ==> regreply(pd).Result == 0 && regreply(pd).AuthCode == old(authcode(rdevid(pkt), rplate(pkt), ph(pkt)))
  ensures @C12 stored: err == nil && old(is(pkt, 0x0100) && r_known(pkt) && !has(byplate(), rplate(pkt)) && !reg(pkt)) ==> let(d, get(byphone(), old(ph(pkt))), fresh(d) && d.Phone == old(ph(pkt)) && d.Plate == old(rplate(pkt)) && d.ID == old(rdevid(pkt)) && d.Status == 0 &&
     d.SessionID == sess(ctx).ID && d.Conn == sess(ctx).Conn && d.VersionDesc == old(ver(pkt)) && d.ProtocolVersion == pkt.Header.ProtocolVersion && d.Keepalive > 0 && now(d.LastestComTime) >= old(clock()) &&
     mapeq(mapof(byphone()), put(old(mapof(byphone())), old(ph(pkt)), d)) && mapeq(mapof(byplate()), put(old(mapof(byplate())), old(rplate(pkt)), d)) && mapeq(mapof(jobs()), put(old(mapof(jobs())), old(ph(pkt)), d.Keepalive)))

  // only registered terminals
  ensures @C13 unregistered: old(supported(pid(pkt)) && (partial(pkt) || fromdev(pid(pkt))) && !reg(pkt)) ==> iserr(err, storage.ErrDeviceNotFound)
  ensures @C13 heartbeat: old(is(pkt, 0x0002) && reg(pkt)) ==> ack(pd).Result == 0 && mapeq(mapof(byphone()), old(mapof(byphone()))) && mapeq(mapof(byplate()), old(put(mapof(byplate()), dev(pkt).Plate, dev(pkt))))&&
     old(dev(pkt)).Status == old(dev(pkt).Status)
  ensures @C13 logout: old(is(pkt, 0x0003) && reg(pkt)) ==> ack(pd).Result == 0 && mapeq(mapof(byphone()), old(del(mapof(byphone()), ph(pkt)))) && mapeq(mapof(byplate()), old(del(mapof(byplate()), dev(pkt).Plate))) && mapeq(mapof(jobs()), old(del(mapof(jobs()), ph(pkt))))
  ensures @C13 authok: old(is(pkt, 0x0102) && reg(pkt) && acode(pkt) == authcode(dev(pkt).ID, dev(pkt).Plate, dev(pkt).Phone)) ==> ack(pd).Result == 0 && let(d, old(dev(pkt)), d.Status == 1 && d.AuthCode == old(acode(pkt)) && d.IMEI == old(aimei(pkt)) && d.SoftwareVersion == old(asoft(pkt))) &&
     mapeq(mapof(byphone()), old(mapof(byphone()))) && mapeq(mapof(byplate()), old(put(mapof(byplate()), dev(pkt).Plate, dev(pkt)))) && mapeq(mapof(jobs()), old(mapof(jobs())))
  ensures @C13 authbad: old(is(pkt, 0x0102) && reg(pkt) && acode(pkt) != authcode(dev(pkt).ID, dev(pkt).Plate, dev(pkt).Phone)) ==> ack(pd).Result == 1 && mapeq(mapof(byphone()), old(del(mapof(byphone()), ph(pkt)))) && mapeq(mapof(byplate()), old(del(mapof(byplate()), dev(pkt).Plate))) && mapeq(mapof(jobs()), old(del(mapof(jobs()), ph(pkt))))
  ensures @C13 location: old(is(pkt, 0x0200) && reg(pkt)) ==> ack(pd).Result == 0 && mapeq(mapof(byphone()), old(mapof(byphone()))) && let(d, old(dev(pkt)), bit(be32(pkt.Body, 4), 0) == 0 ? d.Status == 2 : d.Status == old(dev(pkt).Status))

  // communication
  ensures @C14 heard: old(reg(pkt) && (is(pkt, 0x0002) || is(pkt, 0x0102) && acode(pkt) == authcode(dev(pkt).ID, dev(pkt).Plate, dev(pkt).Phone) || is(pkt, 0x0200) && bit(be32(pkt.Body, 4), 0) == 0)) ==> now(old(dev(pkt)).LastestComTime) >= old(clock()) && has(byphone(), old(ph(pkt))) && get(byphone(), old(ph(pkt))) == old(dev(pkt))
  ensures @C14 started: err == nil && old(is(pkt, 0x0100) && r_known(pkt) && !has(byplate(), rplate(pkt)) && !reg(pkt)) ==> has(jobs(), old(ph(pkt)))

  // parameters
  ensures @C10 first: err == nil && old(is(pkt, 0x8103) && !has(params(), ph(pkt))) ==> has(params(), old(ph(pkt))) && get(params(), old(ph(pkt))) == setting(pd)
  ensures @C10 updated: err == nil && old(is(pkt, 0x8103) && has(params(), ph(pkt))) ==> get(params(), old(ph(pkt))) == old(get(params(), ph(pkt))) && ncalls("model.(*DeviceParams).Update") == 1 && arg("model.(*DeviceParams).Update", 0, 0) == get(params(), old(ph(pkt))) && arg("model.(*DeviceParams).Update", 0, 1) == setting(pd)
  ensures @C10 otherparams: old(!(is(pkt, 0x8103) && has(params(), ph(pkt)))) ==> mapeq(del(mapof(params()), old(ph(pkt))), old(del(mapof(params()), ph(pkt))))

  // positions
  ensures @C16 latest: old(is(pkt, 0x0200) && reg(pkt)) ==> has(geos(), old(ph(pkt))) && let(r, get(geos(), old(ph(pkt))), ringok(r) && typeis(latestof(r), "*model.DeviceGeo") && typeis(pd.Incoming, "*model.Msg0200") && geo_ok(as(latestof(r), "*model.DeviceGeo"), old(ph(pkt)), as(pd.Incoming, "*model.Msg0200")))
  ensures @C16 others: old(is(pkt, 0x0200) && reg(pkt)) ==> mapeq(del(mapof(geos()), old(ph(pkt))), old(del(mapof(geos()), ph(pkt)))) && (old(has(geos(), ph(pkt))) ==> get(geos(), old(ph(pkt))) == old(get(geos(), ph(pkt))))

  // fragments before the last
  ensures @C17 fragack: old(partial(pkt) && supported(pid(pkt)) && reg(pkt) && has(sessions(), dev(pkt).SessionID)) ==> err == nil && isack(pd, old(pkt.Header.SerialNumber), old(pid(pkt)), old(ph(pkt))) && ack(pd).Result == 0 && pd.Incoming == nil
  ensures @C17 fragnosess: old(partial(pkt) && supported(pid(pkt)) && reg(pkt) && !has(sessions(), dev(pkt).SessionID)) ==> err != nil
  ensures @C17 fraghdr: old(partial(pkt) && supported(pid(pkt)) && reg(pkt) && has(sessions(), dev(pkt).SessionID)) ==> let(h, ack(pd).Header, h.Attr.PacketFragmented == 0 && h.Attr.VersionDesc == dev(pkt).VersionDesc && h.SerialNumber == u16(get(sessions(), dev(pkt).SessionID).serialNumber) && h.SerialNumber == u16(old(get(sessions(), dev(pkt).SessionID).serialNumber) + 1))
