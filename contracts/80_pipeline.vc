// The stages of one message (internal/protocol/pipeline.go).

fn piped(p) = p.fh != nil && p.fh.rbuf != nil && p.fh.writer != nil && 0 <= pos(p.fh.rbuf) && pos(p.fh.rbuf) <= len(stream(p.fh.rbuf))

func protocol.NewPipeline(conn) (p)
  prop C22
  requires conn != nil
  modifies protocol.jt808PacketCodec, protocol.jt808MsgProcessorSingleton, oncedone(protocol.codecOnce), oncedone(protocol.processorInitOnce)
  ensures ready: fresh(p) && piped(p) && p.mp == protocol.jt808MsgProcessorSingleton
  ensures writes: p.fh.writer == conn

fn nrecv() = ncalls("protocol.(*JT808FrameHandler).Recv")
fn ndec() = ncalls("protocol.(*JT808PacketCodec).Decode")
fn nproc() = ncalls("protocol.(*JT808MsgProcessor).Process")
fn nenc() = ncalls("protocol.(*JT808PacketCodec).Encode")
fn nsend() = ncalls("protocol.(*JT808FrameHandler).Send")
fn rframe() = res("protocol.(*JT808FrameHandler).Recv", 0, 0)
fn rerr() = res("protocol.(*JT808FrameHandler).Recv", 0, 1)
fn dpkt() = res("protocol.(*JT808PacketCodec).Decode", 0, 0)
fn derr() = res("protocol.(*JT808PacketCodec).Decode", 0, 1)
fn ppd() = res("protocol.(*JT808MsgProcessor).Process", 0, 0)
fn perr() = res("protocol.(*JT808MsgProcessor).Process", 0, 1)
fn efrm() = res("protocol.(*JT808PacketCodec).Encode", 0, 0)
fn eerr() = res("protocol.(*JT808PacketCodec).Encode", 0, 1)

func protocol.(*Pipeline).ProcessConnRead(p, ctx) (err)
  prop C22
  requires piped(p) && p.mp == protocol.jt808MsgProcessorSingleton && hassess(ctx)
  requires @C21 !terminal(ghostv("lasterr"))
  maypanic
  modifies heap
  sets @C21 ghostv("lasterr") := err
  ensures once: nrecv() == 1 && ndec() <= 1 && nproc() <= 1 && nenc() <= 1 && nsend() <= 1
  ensures received: arg("protocol.(*JT808FrameHandler).Recv", 0, 0) == old(p.fh)
  ensures recvfailed: rerr() != nil ==> err == rerr() && ndec() == 0 && nproc() == 0 && nenc() == 0 && nsend() == 0
  ensures decoded: rerr() == nil ==> ndec() == 1 && arg("protocol.(*JT808PacketCodec).Decode", 0, 1) == rframe()
  ensures decfailed: ndec() == 1 ==> derr() != nil ==> err == derr() && nproc() == 0 && nenc() == 0 && nsend() == 0
  ensures processed: ndec() == 1 ==> derr() == nil ==> nproc() == 1 && arg("protocol.(*JT808MsgProcessor).Process", 0, 2) == dpkt() && let(c, arg("protocol.(*JT808MsgProcessor).Process", 0, 1), c != nil && ctxget(c, "model.SessionCtxKey") == ctxget(ctx, "model.SessionCtxKey"))
  ensures procfailed: nproc() == 1 ==> perr() != nil ==> err == perr() && nenc() == 0 && nsend() == 0
  ensures silent: nproc() == 1 && nenc() == 0 ==> err == perr() && nsend() == 0 && (perr() == nil ==> ppd() == nil || ppd().Outgoing == nil)
  ensures encoded: nenc() == 1 ==> nproc() == 1 && perr() == nil && ppd() != nil && at("protocol.(*JT808PacketCodec).Encode", 0, ppd().Outgoing) != nil && arg("protocol.(*JT808PacketCodec).Encode", 0, 1) == at("protocol.(*JT808PacketCodec).Encode", 0, ppd().Outgoing)
  ensures encfailed: nenc() == 1 ==> eerr() != nil ==> err == eerr() && nsend() == 0
  ensures sent: nenc() == 1 ==> eerr() == nil ==> nsend() == 1 && arg("protocol.(*JT808FrameHandler).Send", 0, 0) == old(p.fh) && arg("protocol.(*JT808FrameHandler).Send", 0, 1) == efrm() && err == res("protocol.(*JT808FrameHandler).Send", 0, 0)
  ensures needed: nsend() == 1 ==> nenc() == 1

fn outgoing(ctx) = as(ctxget(ctx, "model.ProcessDataCtxKey"), "*model.ProcessData")

func protocol.(*Pipeline).ProcessConnWrite(p, ctx) (err)
  prop C22
  requires piped(p) && ctx != nil && typeis(ctxget(ctx, "model.ProcessDataCtxKey"), "*model.ProcessData")
  maypanic
  modifies heap
  ensures once: nenc() <= 1 && nsend() <= 1 && nrecv() == 0 && ndec() == 0 && nproc() == 0
  ensures silent: nenc() == 0 ==> err == nil && nsend() == 0 && (outgoing(ctx) == nil || old(outgoing(ctx).Outgoing) == nil)
  ensures encoded: nenc() == 1 ==> outgoing(ctx) != nil && old(outgoing(ctx).Outgoing) != nil && arg("protocol.(*JT808PacketCodec).Encode", 0, 1) == old(outgoing(ctx).Outgoing)
  ensures encfailed: nenc() == 1 ==> eerr() != nil ==> err == eerr() && nsend() == 0
  ensures sent: nenc() == 1 ==> eerr() == nil ==> nsend() == 1 && arg("protocol.(*JT808FrameHandler).Send", 0, 0) == old(p.fh) && arg("protocol.(*JT808FrameHandler).Send", 0, 1) == efrm() && err == res("protocol.(*JT808FrameHandler).Send", 0, 0)
  ensures needed: nsend() == 1 ==> nenc() == 1
