From 44157a7166766b193eecd7e9270f7a3831b06473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:03 +0000
Subject: [PATCH 01/16] fix: encode latitude/longitude type at the status bits
 they are decoded from

---
 internal/protocol/model/device.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/model/device.go b/internal/protocol/model/device.go
index c2af7cb..280b475 100644
--- a/internal/protocol/model/device.go
+++ b/internal/protocol/model/device.go
@@ -196,8 +196,8 @@ func (g *GeoMeta) Encode() uint32 {
 	var bitNum uint32
 	bitNum += uint32(g.ACCStatus)
 	bitNum += uint32(g.LocationStatus) << 1
-	bitNum += uint32(g.LongitudeType) << 2
-	bitNum += uint32(g.LatitudeType) << 3
+	bitNum += uint32(g.LatitudeType) << 2
+	bitNum += uint32(g.LongitudeType) << 3
 	bitNum += uint32(g.OperatingStatus) << 4
 	bitNum += uint32(g.GeoEncryptionStatus) << 5
 	bitNum += uint32(g.LoadStatus) << 8
-- 
2.43.0


From 69dc9f35595e39f044426fd107a58b821eb4ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:03 +0000
Subject: [PATCH 02/16] fix: first fragment of a message crashes, later ones
 are not reassembled

---
 internal/storage/segment_cache.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index 299356d..518143f 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -36,10 +36,16 @@ func CacheSegment(seg *model.Segment) bool {
 	defer cache.mutex.Unlock()
 	s, ok := cache.cacheByKey[key]
 	if !ok {
-		cache.cacheByKey[key] = seg
-		return s.IsComplete()
+		s = seg
+		cache.cacheByKey[key] = s
+	} else {
+		s.Merge(seg)
 	}
-	s.Merge(seg)
-	// cache.cacheByKey[key] = s
-	return s.IsComplete()
+	if !s.IsComplete() {
+		return false
+	}
+	// 分包接收完成，返回合并后的数据并清理缓存
+	delete(cache.cacheByKey, key)
+	seg.Data = s.Data
+	return true
 }
-- 
2.43.0


From a3ca9deeea942086424f29fdf3b842a1651a86dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:03 +0000
Subject: [PATCH 03/16] fix: keepalive job dereferences a device that is gone

---
 internal/protocol/keepalive.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index 7e17ce6..2ec42ff 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -70,6 +70,7 @@ func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
 	if errors.Is(err, storage.ErrDeviceNotFound) {
 		log.Debug().Str("device", devicePhone).Msg("Fail to find device cache")
 		t.Cancel(devicePhone)
+		return
 	}
 	if d.ShouleTurnOffline() {
 		// 保活失效
-- 
2.43.0


From f70a2ee1ccb55e506b6d243d2f615e3360201ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:03 +0000
Subject: [PATCH 04/16] fix: ring buffer loses its latest element when the
 writer wraps to 0

---
 pkg/container/ring_buffer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/container/ring_buffer.go b/pkg/container/ring_buffer.go
index 350ddbf..ff6c6d9 100644
--- a/pkg/container/ring_buffer.go
+++ b/pkg/container/ring_buffer.go
@@ -51,10 +51,7 @@ func (r *RingBuffer) Read() any {
 
 // Returns the latest element in the RingBuffer
 func (r *RingBuffer) Latest() any {
-	if r.Writer == 0 {
-		return nil
-	}
-	return r.Container[(atomic.LoadInt32(&r.Writer)-1)%r.Size]
+	return r.Container[(atomic.LoadInt32(&r.Writer)-1+r.Size)%r.Size]
 }
 
 // Returns the oldest element in RingBuffer
-- 
2.43.0


From 5a61a4c9b31bec69eb8dca89cad953e6837559ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:03 +0000
Subject: [PATCH 05/16] fix: ListDevice and countSession read shared maps
 without the lock

---
 internal/storage/device_cache.go  | 2 ++
 internal/storage/session_cache.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index f3c447b..5ec9784 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -32,6 +32,8 @@ func GetDeviceCache() *DeviceCache {
 }
 
 func (cache *DeviceCache) ListDevice() []*model.Device {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
 	return maps.Values(cache.cacheByPhone)
 }
 
diff --git a/internal/storage/session_cache.go b/internal/storage/session_cache.go
index 89b623f..1363817 100644
--- a/internal/storage/session_cache.go
+++ b/internal/storage/session_cache.go
@@ -74,5 +74,7 @@ func ClearSession(id string) {
 // 统计session个数
 func countSession() int {
 	c := getSessionCache()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	return len(c.cacheByID)
 }
-- 
2.43.0


From 342fbd23d7ff6a905bf40a9f97c3cf6cb8d35b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:03 +0000
Subject: [PATCH 06/16] fix: fragment reply dereferences a session that is
 closed

---
 internal/protocol/msg_processor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 9969bc7..06956c1 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -220,6 +220,9 @@ func processSegmentPacket(_ context.Context, pkt *model.PacketData) (*model.Proc
 		return nil, errors.Wrapf(err, "Fail to find device cache, phoneNumber=%s", phone)
 	}
 	session, err := storage.GetSession(device.SessionID)
+	if err != nil {
+		return nil, errors.Wrapf(err, "Fail to find session, phoneNumber=%s", phone)
+	}
 	header := model.GenMsgHeader(device, 0x8001, session.GetNextSerialNum())
 	outgoingMsg := &model.Msg8001{
 		Header:             header,
-- 
2.43.0


From e08a207f10fd6038c8bdbc94de867e97fb109cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:03 +0000
Subject: [PATCH 07/16] fix: params API goes on after reporting an error

---
 internal/api/api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/api/api.go b/internal/api/api.go
index 410aaa6..e214ef7 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -59,6 +59,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		session, err := storage.GetSession(device.SessionID)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		header := model.GenMsgHeader(device, 0x8104, session.GetNextSerialNum())
 		msg := model.Msg8104{
@@ -73,6 +74,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		params := model.DeviceParams{}
 		if err := c.ShouldBind(&params); err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		device, err := cache.GetDeviceByPhone(phone)
 		if err != nil {
@@ -82,6 +84,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		session, err := storage.GetSession(device.SessionID)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		header := model.GenMsgHeader(device, 0x8103, session.GetNextSerialNum())
 		msg := model.Msg8103{
-- 
2.43.0


From 0a4ac020b798cb8557296347f69429274d417e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:03 +0000
Subject: [PATCH 08/16] fix: decoding an unknown device parameter crashes
 instead of skipping it

---
 internal/protocol/model/device_params.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 72a2edb..8dfbb8a 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -86,6 +86,8 @@ func (p *ParamData) Decode(pkt []byte, idx *int) error {
 	fn, ok := argTable[p.ParamID]
 	if !ok {
 		log.Warn().Str("ParamID", fmt.Sprintf("0x%04x", p.ParamID)).Err(ErrParamIDNotSupportted).Msg("skip it")
+		hex.ReadBytes(pkt, idx, int(p.ParamLen)) // 跳过参数值
+		return nil
 	}
 	p.ParamValue = fn.decode(pkt, idx, int(p.ParamLen))
 	return nil
-- 
2.43.0


From 7dbc8980389033118a04d9284994989763cfbfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:03 +0000
Subject: [PATCH 09/16] fix: encoded parameter count includes parameters that
 were left out

---
 internal/protocol/model/device_params.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 8dfbb8a..51f89bd 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -39,7 +39,8 @@ func (p *DeviceParams) Decode(phone string, cnt uint8, pkt []byte) error {
 }
 
 func (p *DeviceParams) Encode() (pkt []byte, err error) {
-	pkt = hex.WriteByte(pkt, p.ParamCnt)
+	var cnt uint8
+	pkt = hex.WriteByte(pkt, cnt)
 	for _, arg := range p.Params {
 		paramBytes, err := arg.Encode()
 		if err != nil {
@@ -48,7 +49,9 @@ func (p *DeviceParams) Encode() (pkt []byte, err error) {
 			continue
 		}
 		pkt = hex.WriteBytes(pkt, paramBytes)
+		cnt++
 	}
+	pkt[0] = cnt
 	return pkt, nil
 }
 
-- 
2.43.0


From a275d684558e8ee914e097f0e195935730d0a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:37 +0000
Subject: [PATCH 10/16] fix: a string with no GBK encoding drops the fields
 written before it

---
 internal/codec/hex/hex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/codec/hex/hex.go b/internal/codec/hex/hex.go
index 87273f9..9b79850 100644
--- a/internal/codec/hex/hex.go
+++ b/internal/codec/hex/hex.go
@@ -170,7 +170,7 @@ func ReadGBK(pkt []byte, idx *int, n int) string {
 func WriteGBK(pkt []byte, str string) []byte {
 	gbk, err := GBK.UTF82GBK([]byte(str))
 	if err != nil {
-		return []byte{}
+		return pkt
 	}
 	return append(pkt, gbk...)
 }
-- 
2.43.0


From 86fb864a59a9b362cbd39c91dbb1cb13823307bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:37 +0000
Subject: [PATCH 11/16] fix: concurrent senders get the same serial number when
 it wraps

---
 internal/protocol/model/session.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/internal/protocol/model/session.go b/internal/protocol/model/session.go
index 7a3f0cc..52edf5b 100644
--- a/internal/protocol/model/session.go
+++ b/internal/protocol/model/session.go
@@ -1,7 +1,6 @@
 package model
 
 import (
-	"math"
 	"net"
 	"sync/atomic"
 )
@@ -43,12 +42,7 @@ func (s *Session) GetTransProto() TransportProtocol {
 }
 
 func (s *Session) GetNextSerialNum() uint16 {
-	next := atomic.AddUint32(&s.serialNumber, 1)
-	if next <= math.MaxUint16 {
-		return uint16(next)
-	}
-	atomic.StoreUint32(&s.serialNumber, 0)
-	return uint16(s.serialNumber)
+	return uint16(atomic.AddUint32(&s.serialNumber, 1))
 }
 
 // 定义Packet Data结构
-- 
2.43.0


From c744d87cd000a45809aae48ee0e9b4e062adcf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:57 +0000
Subject: [PATCH 12/16] fix: a field cut off by the end of the packet is read
 from the bytes behind it

---
 internal/codec/hex/hex.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/codec/hex/hex.go b/internal/codec/hex/hex.go
index 9b79850..6d04c09 100644
--- a/internal/codec/hex/hex.go
+++ b/internal/codec/hex/hex.go
@@ -95,7 +95,7 @@ func WriteByte(pkt []byte, num uint8) []byte {
 
 // 对应JT808类型WORD
 func ReadWord(pkt []byte, idx *int) uint16 {
-	ans := binary.BigEndian.Uint16(pkt[*idx : *idx+2])
+	ans := binary.BigEndian.Uint16(pkt[*idx : *idx+2 : len(pkt)])
 	*idx += 2
 	return ans
 }
@@ -109,7 +109,7 @@ func WriteWord(pkt []byte, num uint16) []byte {
 
 // 对应JT808类型DWORD
 func ReadDoubleWord(pkt []byte, idx *int) uint32 {
-	ans := binary.BigEndian.Uint32(pkt[*idx : *idx+4])
+	ans := binary.BigEndian.Uint32(pkt[*idx : *idx+4 : len(pkt)])
 	*idx += doubeWordLen
 	return ans
 }
@@ -123,7 +123,7 @@ func WriteDoubleWord(pkt []byte, num uint32) []byte {
 
 // 对应JT808类型BYTE[n]
 func ReadBytes(pkt []byte, idx *int, n int) []byte {
-	ans := pkt[*idx : *idx+n]
+	ans := pkt[*idx : *idx+n : len(pkt)]
 	*idx += n
 	return ans
 }
@@ -146,7 +146,7 @@ func WriteString(pkt []byte, str string) []byte {
 
 // 对应JT808类型BCD[n]
 func ReadBCD(pkt []byte, idx *int, n int) string {
-	ans := bcd2NumberStr(pkt[*idx : *idx+n])
+	ans := bcd2NumberStr(pkt[*idx : *idx+n : len(pkt)])
 	*idx += n
 	return ans
 }
@@ -158,7 +158,7 @@ func WriteBCD(pkt []byte, bcd string) []byte {
 
 // 对应JT808类型String
 func ReadGBK(pkt []byte, idx *int, n int) string {
-	gbk, err := GBK.GBK2UTF8(pkt[*idx : *idx+n])
+	gbk, err := GBK.GBK2UTF8(pkt[*idx : *idx+n : len(pkt)])
 	*idx += n
 	if err != nil {
 		return ""
-- 
2.43.0


From b78cb1a7d8f8e1be53d965204ba4d6d46506f727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:05 +0000
Subject: [PATCH 13/16] fix: headers generated for 2019 terminals lack the
 protocol version field

GenMsgHeader set the 2019 version bit but not VersionDesc, so Encode left
the protocol version byte out and the terminal read every later field one
byte off.
---
 internal/protocol/model/header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/model/header.go b/internal/protocol/model/header.go
index e9c5669..9801d22 100644
--- a/internal/protocol/model/header.go
+++ b/internal/protocol/model/header.go
@@ -213,6 +213,7 @@ func GenMsgHeader(d *Device, msgID, serialNumber uint16) *MsgHeader {
 			PacketFragmented: 0,
 			VersionSign:      versionDecode(d.VersionDesc),
 			Extra:            0,
+			VersionDesc:      d.VersionDesc,
 		},
 		ProtocolVersion: d.ProtocolVersion,
 		PhoneNumber:     d.Phone,
-- 
2.43.0


From 57562a6879f6aad951a7185a2852aa207da3a552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:57 +0000
Subject: [PATCH 14/16] fix: a parameter value longer than its length byte
 corrupts the list

---
 internal/protocol/model/device_params.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 51f89bd..bc3f8af 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/pkg/errors"
@@ -100,6 +101,9 @@ func (p *ParamData) Encode() (pkt []byte, err error) {
 	pkt = hex.WriteDoubleWord(pkt, p.ParamID)
 	if fn, ok := argTable[p.ParamID]; ok {
 		value := fn.encode(p.ParamValue)
+		if len(value) > math.MaxUint8 { // 长度字段只有1字节
+			return nil, ErrEncodeDeviceParams
+		}
 		pkt = hex.WriteByte(pkt, uint8(len(value)))
 		pkt = hex.WriteBytes(pkt, value)
 		return pkt, nil
-- 
2.43.0


From a724ba696bfba223dece52a55e1150ee826a0d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:58 +0000
Subject: [PATCH 15/16] fix: more than 255 parameters are encoded with a
 wrapped count

---
 internal/protocol/model/device_params.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index bc3f8af..65f7480 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -49,6 +49,9 @@ func (p *DeviceParams) Encode() (pkt []byte, err error) {
 			log.Error().Err(err).Str("device", p.DevicePhone).Msg("Fail to encode device param")
 			continue
 		}
+		if cnt == math.MaxUint8 { // 个数字段只有1字节
+			return nil, ErrEncodeDeviceParams
+		}
 		pkt = hex.WriteBytes(pkt, paramBytes)
 		cnt++
 	}
-- 
2.43.0


From b55a152626ce6e232e2371dbcf0916b688ff4d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:17 +0000
Subject: [PATCH 16/16] fix: the sample parameter list overstates the length of
 its last item

---
 internal/protocol/msg_processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 06956c1..e319b76 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -477,7 +477,7 @@ func processMsg8104(_ context.Context, data *model.ProcessData) error {
 			"00000030045A4A6830" +
 			"00000031026C64" +
 			"000000320409302130" +
-			"0000007623030000010100010202000103030001"
+			"000000760F030000010100010202000103030001"
 		_ = out.Parameters.Decode(out.Header.PhoneNumber, uint8(paramCnt), hex.Str2Byte(paramByteStr))
 		paramCache.CacheDeviceParams(out.Parameters)
 	} else {
-- 
2.43.0

