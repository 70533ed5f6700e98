#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property is reworded)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

pr = "internal/protocol/"
mo = "internal/protocol/model/"
st = "internal/storage/"

prop("C01", "Framing is transparent for every message content",
 "Whatever bytes a message serialises to, the frame the encoder emits starts and ends with 0x7e, contains no other 0x7e, and taking that frame apart again (removing the delimiters, undoing the 7d01/7d02 escapes, checking and removing the checksum) gives back exactly the serialised bytes. "
 "An outgoing message is framed exactly once: the emitted frame is 7e, the escaped serialisation followed by its checksum byte, 7e; if serialising fails, or the value is not a message, the encoder returns an error and no bytes.",
 ["inputs"], "all byte strings of any length, and all values handed to the encoder",
 "The tests sample a few packets; escaping bugs sit at particular adjacent byte pairs (7d 01, 7d 7e, an escape ending at the checksum) and no finite sample covers every pair at every position.",
 [pr+"packet_codec.go"],
 [("escape/unescape", pr+"packet_codec.go escape, unescape"), ("checksum append/verify", pr+"packet_codec.go genVerifier, verify"), ("Encode", pr+"packet_codec.go Encode")],
 ["bytes written to the connection", "PacketCodec.Encode result"])

prop("C02", "A frame is accepted only if its XOR checksum matches",
 "A received frame is turned into a packet only if the byte before the closing delimiter (after unescaping) equals the XOR of all bytes before it; every other frame, including an empty one, is refused with an error and yields no packet and no stored fragment. "
 "An accepted packet's header and body are exactly the checked bytes, without the checksum byte and in order.",
 ["inputs"], "all byte strings received as a frame",
 "Only a couple of good and bad checksums are sampled by the tests; the claim is about every byte string, including ones whose checksum byte is itself escaped or that have only one byte.",
 [pr+"packet_codec.go"],
 [("verify", pr+"packet_codec.go verify"), ("Decode", pr+"packet_codec.go Decode")],
 ["PacketCodec.Decode result"])

prop("C03", "Frames are cut out of the byte stream exactly, in order, without loss",
 "However the connection's bytes are split into reads and whatever precedes a frame, receiving returns exactly the bytes from the next 0x7e up to and including the following 0x7e, and the next receive starts at the very next byte. "
 "If the stream fails first, the receive reports that read error (still recognisable as such) and returns no frame.",
 ["inputs", "histories", "fault_sequences"], "all streams, all ways of splitting them into reads, all read errors",
 "Tests feed one well-formed frame from a buffer; noise between frames, back-to-back frames and failures in mid-frame are histories they do not reach.",
 [pr+"frame_handler.go"],
 [("Recv", pr+"frame_handler.go Recv")],
 ["FrameHandler.Recv result and position in the stream"])

prop("C04", "A reported send wrote the whole frame, in order, exactly once",
 "When sending a frame reports success, exactly the frame's bytes, in order and once, have been written to the connection after what was written before, whatever partial write counts the connection returns. "
 "When the connection reports a write error, the send reports that error (still recognisable as such).",
 ["inputs", "fault_sequences"], "all frames and all sequences of partial writes and write errors",
 "Partial writes do not happen in the tests; which prefix is resent after a short write is only visible under such fault sequences.",
 [pr+"frame_handler.go"],
 [("Send", pr+"frame_handler.go Send")],
 ["bytes written to the connection"])

prop("C05", "Message headers have the standard layout, both ways",
 "Decoding a header reads message id, attribute word (length, encryption, fragment, version and reserved bits), protocol version (2019 only), phone number, serial number and, when fragmented, total and index from their standard positions and leaves the position at the first body byte, failing (not misreading) when the packet is too short. "
 "Encoding writes the same layout from the header's fields, and every field that fits its bits survives encoding and decoding.",
 ["inputs"], "all packets and all header values",
 "The tests check four header samples; bit-field and offset mistakes for other version/fragment/encryption combinations or phone lengths are not sampled.",
 [mo+"header.go"],
 [("MsgHeader.Decode/Encode", mo+"header.go"), ("MsgBodyAttr.Decode/Encode", mo+"header.go"), ("MsgFragmentation.Decode/Encode", mo+"header.go"), ("GenMsgHeader", mo+"header.go")],
 ["decoded header fields", "encoded header bytes"])

prop("C06", "Registration and authentication messages have the standard layout",
 "For every protocol version the registration request (province, city, manufacturer, model, terminal id padded with zero bytes to the version's field widths, plate colour, GBK plate up to the end of the body), the registration reply (serial, result, auth code) and the authentication request (auth code, and for 2019 its length, IMEI and software version) are decoded from and encoded to exactly those positions. "
 "A body too short for its fields is never decoded as if it were complete.",
 ["inputs"], "all bodies, headers, versions and field values",
 "Two samples of each message are tested; the layouts depend on version and on body length (2011 versus 2013), on over-long and empty fields, which samples do not cover.",
 [mo+"msg_0100.go", mo+"msg_0102.go", mo+"msg_8100.go", mo+"msg.go"],
 [("Msg0100.Decode/Encode", mo+"msg_0100.go"), ("Msg0102.Decode/Encode", mo+"msg_0102.go"), ("Msg8100.Decode/Encode", mo+"msg_8100.go"), ("writeHeader", mo+"msg.go")],
 ["decoded message fields", "encoded message bytes"])

prop("C07", "Location reports are decoded and interpreted exactly",
 "A location report body is read as alarm, status, latitude, longitude (4 bytes each), altitude, speed, direction (2 bytes each) and a 6-byte BCD time, and is written back in the same layout. "
 "The position stored for a terminal carries that report's values: latitude and longitude in degrees (millionths), speed in km/h (tenths), altitude, direction and time unchanged, and every status flag taken from its own standard bit; encoding flags into a status word and decoding it gives the flags back.",
 ["inputs"], "all report bodies, all status words, all flag values",
 "A handful of status words are tested; twenty flags each have a bit position and scale that only a quantified statement pins down.",
 [mo+"msg_0200.go", mo+"device.go"],
 [("Msg0200.Decode/Encode", mo+"msg_0200.go"), ("GeoMeta.Decode/Encode, Location.Decode, Drive.Decode, DeviceGeo.Decode", mo+"device.go")],
 ["decoded report", "geo cache entry"])

prop("C08", "Acknowledgements, time, query and media messages have fixed layouts",
 "Terminal and platform acknowledgements (serial, message id, result), the server-time reply (6-byte BCD time), the media resource query and list (channel, two BCD times, two alarm words, three type bytes, and for the list serial, count and size) are decoded from and encoded to exactly those bytes in that order; messages with an empty body are encoded as a header with body length 0. "
 "Every encoded message is a header whose length field is the length of the body that follows (for bodies shorter than 1024 bytes, the most one packet can carry).",
 ["inputs"], "all bodies and all field values",
 "Most of these messages have no test at all; field order and width are claims about every value.",
 [mo+"msg_0001.go", mo+"msg_8001.go", mo+"msg_8004.go", mo+"msg_9205.go", mo+"msg_1205.go", mo+"device_media.go", mo+"msg.go"],
 [("Decode/Encode of each message", mo+"msg_*.go"), ("DeviceMediaQuery, DeviceMedia", mo+"device_media.go"), ("writeHeader", mo+"msg.go")],
 ["decoded message fields", "encoded message bytes"])

prop("C09", "Primitive field codecs are exact and stay in bounds",
 "Reading a byte, word, double word, byte string, BCD number or GBK string takes exactly its bytes at the current position in big-endian order and advances by exactly their number, and refuses (never invents data) when the packet ends first; writing appends exactly the big-endian bytes, BCD digits or GBK bytes and changes nothing written before. "
 "BCD digits written are read back unchanged; times are written as two-digit year, month, day, hour, minute and second and read as those digits.",
 ["inputs"], "all packets, positions and values",
 "The unit tests check one or two values per codec, and several have no case at all.",
 ["internal/codec/hex/hex.go", "internal/codec/gbk/gbk.go"],
 [("Read*/Write*", "internal/codec/hex/hex.go"), ("BCD", "internal/codec/hex/hex.go bcd2NumberStr, numberStr2BCD"), ("time", "internal/codec/hex/hex.go ParseTime, FormatTime")],
 ["return values and the position cursor"])

prop("C10", "Terminal parameter lists are decoded, kept and encoded item by item",
 "A parameter list is decoded as the announced number of items, each id, length and a value of the type its id prescribes, in order; an id that is not known is skipped over by its length and never corrupts or crashes the items after it. "
 "Encoding writes a count followed by exactly that many items with their value bytes and lengths, and updating stored parameters replaces the values of the parameters that are known there and keeps the others, sorted by id.",
 ["inputs"], "all parameter lists, ids and value types",
 "One sample list is tested, with known ids only; unknown ids, counts and per-type widths range over all lists.",
 [mo+"device_params.go", mo+"msg_0104.go", mo+"msg_8103.go"],
 [("ParamData.Decode/Encode", mo+"device_params.go"), ("DeviceParams.Decode/Encode/Update", mo+"device_params.go"), ("argTable", mo+"device_params.go")],
 ["decoded parameters", "encoded bytes"])

prop("C11", "Every request gets the prescribed reply, correlated to it",
 "A handled heartbeat, logout, authentication or location report is answered with the platform's general reply, a registration with the registration reply, a parameter query with the parameter answer, a parameter setting with the terminal's general reply and a media query with the media list; the reply carries the request's serial number (and for general replies its message id) and goes to the request's phone number. "
 "Messages that need no answer get none, and an unknown message id is refused with an error without any effect.",
 ["inputs", "histories"], "all message ids, packets and states of the stores",
 "No test drives the message processor; which reply belongs to which request, for each id and store state, is not sampled at all.",
 [pr+"msg_processor.go", mo+"msg_8001.go", mo+"msg_8100.go", mo+"msg_0001.go"],
 [("initProcessOption", pr+"msg_processor.go"), ("JT808MsgProcessor.Process", pr+"msg_processor.go"), ("GenOutgoing", mo+"msg_*.go")],
 ["PacketProcessor.Process result"])

prop("C12", "Registration is refused for a known plate or phone and stores nothing",
 "A registration is refused with result 1 when its plate is already registered, else with result 3 when its phone is, and then leaves all stored devices and keepalive jobs as they were. "
 "Otherwise it is accepted with result 0 and the auth code derived from terminal id, plate and phone, and the device is stored as offline under its plate and phone with the registering connection's session, and its keepalive check is started.",
 ["inputs", "histories"], "all registration requests and all contents of the device store (one request at a time)",
 "There is no test for registration processing; refusal depends on the history of earlier registrations.",
 [pr+"msg_processor.go", st+"device_cache.go", mo+"device.go"],
 [("processMsg0100, genAuthCode", pr+"msg_processor.go"), ("NewDevice", mo+"device.go")],
 ["reply result and auth code", "device store"])

prop("C13", "Only registered terminals are served; a wrong auth code is rejected",
 "A heartbeat, logout, authentication, location report or fragment from a phone that is not registered is refused with the device-not-found error and stores nothing. "
 "Authentication succeeds (result 0, device online, IMEI and software version stored) exactly when the code equals the one derived from the stored device; otherwise the reply is result 1 and the device and its keepalive job are removed; a logout removes them too.",
 ["inputs", "histories"], "all such messages and all contents of the stores",
 "No test covers these handlers; the outcome depends on the stored device and every possible code.",
 [pr+"msg_processor.go"],
 [("processMsg0002, 0003, 0102, 0200, processSegmentPacket", pr+"msg_processor.go")],
 ["error and reply", "device store and cron entries"])

prop("C14", "Keepalive: silence turns a device offline, longer silence removes it",
 "A check of a device that is not offline and has been silent for longer than its keepalive period marks it offline and does nothing else; a check of an offline device silent for longer than the period closes its connection, removes it from the device store and its positions from the position store, and cancels its job; any other device is left untouched, and a check for a device that is gone cancels its job without failing. "
 "Heartbeats, successful authentication and sleep reports count as communication.",
 ["inputs", "histories"], "all device states, clock values and histories",
 "Time-dependent state changes have no test; they depend on every combination of status, clock and last contact.",
 [pr+"keepalive.go", mo+"device.go"],
 [("checkDeviceKeepalive", pr+"keepalive.go"), ("ShouleTurnOffline, ShouldClear", mo+"device.go"), ("Register, Cancel", pr+"keepalive.go")],
 ["device store, geo store, connection, cron entries"])

prop("C15", "Stores behave like maps: what was stored last is found, deleted is gone",
 "After storing a device it is found under its plate and under its phone; after deleting it by either key it is found under neither; all other devices are unaffected, and lookups of absent keys report not-found. "
 "The same holds for parameter lists by phone and sessions by id.",
 ["histories"], "all sequences of store operations",
 "No test covers the stores; agreement of the two indexes is a statement about all histories.",
 [st+"device_cache.go", st+"param_cache.go", st+"session_cache.go"],
 [("DeviceCache methods", st+"device_cache.go"), ("DeviceParamsCache methods", st+"param_cache.go"), ("GetSession, StoreSession, ClearSession", st+"session_cache.go")],
 ["store lookups"])

prop("C16", "The position history keeps the latest report of each phone",
 "After a handled location report the latest position of that phone is that report, whatever number of reports came before (the ring may have wrapped), and other phones' positions are unaffected; a phone without reports has no position. "
 "The ring returns elements at the position it was written, the latest is the last written and the oldest the next to be overwritten.",
 ["histories"], "all sequences of reports, any number of wraps",
 "The ring buffer tests stop before the wrap that loses the latest element.",
 ["pkg/container/ring_buffer.go", st+"geo_cache.go", pr+"msg_processor.go"],
 [("RingBuffer", "pkg/container/ring_buffer.go"), ("GeoCache", st+"geo_cache.go"), ("processMsg0200", pr+"msg_processor.go")],
 ["GetGeoLatestByPhone"])

prop("C17", "Fragmented messages are reassembled in order and handled once",
 "Fragments of a message whose id the server handles, received in order (first to last), are joined to the concatenation of their bodies; the message is delivered for handling with the whole body exactly when the last fragment arrives, and is then forgotten, so that a later message starts afresh. "
 "Fragments of different phones or different message ids never mix, and each earlier fragment is acknowledged with its own serial number and message id.",
 ["inputs", "histories"], "all fragment sequences in order, interleaved over all phones and message ids",
 "No test reassembles a message; the first fragment used to crash.",
 [st+"segment_cache.go", mo+"segment.go", pr+"packet_codec.go", pr+"msg_processor.go"],
 [("CacheSegment", st+"segment_cache.go"), ("Segment.Merge, IsComplete", mo+"segment.go"), ("Decode", pr+"packet_codec.go"), ("processSegmentPacket", pr+"msg_processor.go")],
 ["PacketCodec.Decode result", "reply to a fragment"])

prop("C18", "Message serial numbers are consecutive and never shared by two senders",
 "Each request for a session's next serial number returns one more than the previous one modulo 65536, starting with 1. "
 "Under every interleaving of concurrent senders no two of 65536 consecutive requests get the same number.",
 ["schedules", "histories"], "all interleavings of concurrent requests, any number of wraps",
 "A race at the wrap needs a particular interleaving at one value in 65536.",
 [mo+"session.go"],
 [("GetNextSerialNum", mo+"session.go")],
 ["GetNextSerialNum results"])

prop("C19", "Shared stores are only touched with their lock held, and never block",
 "Every access to a store's tables happens while that store's mutex is held, on every path, and the mutex is released again on every path, also when the operation panics; no operation takes a second store's lock or the same lock again while holding one. "
 "An operation takes effect in a single critical section. So no interleaving of requests can corrupt a table or deadlock the stores.",
 ["schedules"], "all interleavings of all store operations",
 "Race tests only see the schedules they happen to run, and the suite has none for the stores.",
 [st+"device_cache.go", st+"geo_cache.go", st+"param_cache.go", st+"segment_cache.go", st+"session_cache.go", "internal/server/tcp_server.go"],
 [("mutex of each cache", st+"*.go"), ("TCPServer.mutex", "internal/server/tcp_server.go")],
 ["lock state at each table access"])

prop("C20", "A panic while serving one connection does not reach the others",
 "Every goroutine the server's own code starts recovers from any panic of its function, so a malformed message ends at most the connection it came from; the recover helper runs every cleanup and then stops the panic. "
 "The connection whose handling panicked is still closed and its session forgotten.",
 ["inputs", "fault_sequences"], "all functions run in a goroutine and all panic values",
 "No test panics inside a goroutine; a missing recover takes down the process only for particular malformed input.",
 ["pkg/routines/safe.go", "internal/server/tcp_server.go", st+"session_cache.go", "main.go"],
 [("GoSafe, RunSafe, Recover", "pkg/routines/safe.go"), ("serve's deferred remove", "internal/server/tcp_server.go")],
 ["process survival", "connection close"])

prop("C21", "A session exists exactly while its connection is served",
 "Accepting a connection stores a session with that connection under its remote address before serving starts; when serving ends for any reason the connection is closed and the session is no longer found. "
 "Serving ends on end of stream, closed connection or an unregistered device, and continues after any other error.",
 ["inputs", "histories", "fault_sequences"], "all error sequences of a connection",
 "Tests start one server without clients; ends of connections come from fault sequences they never produce.",
 ["internal/server/tcp_server.go", "internal/client/tcp_client.go", st+"session_cache.go"],
 [("accept, remove, serve, Send", "internal/server/tcp_server.go"), ("Start, Send", "internal/client/tcp_client.go")],
 ["session store", "connection close"])

prop("C22", "A failed stage stops the pipeline: nothing later runs, nothing is sent",
 "For one incoming frame the stages receive, decode, process, encode and send run in that order, each at most once and on the previous stage's result; the first error is returned unchanged and no later stage runs; when there is nothing to answer, nothing is encoded or sent and no error is reported. "
 "Sending a message on its own runs encode then send under the same rules.",
 ["inputs", "fault_sequences"], "all outcomes of every stage",
 "The tests exercise stages separately on success; combinations of stage failures are not covered.",
 [pr+"pipeline.go"],
 [("ProcessConnRead, ProcessConnWrite, callWithBlocking", pr+"pipeline.go")],
 ["bytes written to the connection", "returned error"])

prop("C23", "API requests about unknown devices or closed sessions only report an error",
 "A request for a device that is not registered, or for the parameters of a device whose session is closed, or with a body that cannot be parsed, is answered with a client error and sends nothing to any terminal. "
 "Otherwise the parameter query or setting is sent once, to that device's session, with its phone number, the next serial number and the given parameters.",
 ["inputs", "histories"], "all requests and all contents of the device and session stores",
 "There is no API test; stale devices with closed sessions are a history nobody samples.",
 ["internal/api/api.go", "internal/server/tcp_server.go", mo+"header.go"],
 [("handlers", "internal/api/api.go Run"), ("TCPServer.Send", "internal/server/tcp_server.go"), ("GenMsgHeader", mo+"header.go")],
 ["HTTP status", "message sent"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
