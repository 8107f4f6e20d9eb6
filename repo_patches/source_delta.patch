From 24dc7b69f56f3a3b09e60c35ef5c62dd9dbd0a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 01/65] fix: gop: cap a GOP at maxGop packets (off by one)

---
 gop/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gop/array.go b/gop/array.go
index c299980..be16e06 100755
--- a/gop/array.go
+++ b/gop/array.go
@@ -26,7 +26,7 @@ func (a *array) reset() {
 // 将数据包保存到数组中
 func (a *array) write(p *packet.Packet) error {
 	// 如果关键帧间隔太长, 会导致在有限容量内不能完整存储视频
-	if len(a.packets) > maxGop {
+	if len(a.packets) >= maxGop {
 		return errors.New("the group of picture is too large")
 	}
 
-- 
2.43.0


From 85749a4c0d84b17baabdbc0929450f1cafcaac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 02/65] fix: ts: compute stuffing from the room left after the
 PCR field (key frame of 176..183 PES bytes panicked)

---
 container/ts/muxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index 1509302..9c0317b 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -121,7 +121,7 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 		maxPayloadLen := tsPacketLen - i
 
 		// 计算待填充的长度
-		if pesTotalLen < tsDefaultDataLen {
+		if pesTotalLen < int(maxPayloadLen) {
 			// 除去pes外, 还应填充的无效字节长度
 			remainBytes := maxPayloadLen - byte(pesTotalLen)
 
-- 
2.43.0


From aff37db46ffdd8709f3a8bac178c4c58b4991ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 03/65] fix: ts: wrap PES timestamps modulo 2^33 (was off by
 one after the wrap)

---
 container/ts/table/pes.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/container/ts/table/pes.go b/container/ts/table/pes.go
index 4a86e77..37cd13f 100644
--- a/container/ts/table/pes.go
+++ b/container/ts/table/pes.go
@@ -65,9 +65,7 @@ func (pe *Pes) GeneratePesHeader(mt int, mediaDataLen int, pts, dts int64) int {
 // 33位时间戳编码成40位时间戳
 func (pe *Pes) encodeTs(flag byte, ts int64) [5]byte {
 	var val uint16
-	if ts > 0x1ffffffff {
-		ts -= 0x1ffffffff
-	}
+	ts &= 0x1ffffffff
 
 	var u33 [5]byte
 
-- 
2.43.0


From a9ed4f5e7693518ff4043d3e7d80edb994e8cfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 04/65] fix: ts: compute DTS/PTS in 64 bits (overflow after
 13h) and keep the sign of the composition time

---
 container/ts/mixer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index c6df3cc..a1d2b7b 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -167,11 +167,11 @@ func (m *Mixer) SetTsHeader() error {
 // 视频的PTS=DTS+时间增量
 // 音频的PTS=DTS
 func (m *Mixer) Update(p *packet.Packet, pktTs, avcTs uint32) error {
-	m.dts = int64(pktTs * avcHZ)
+	m.dts = int64(pktTs) * avcHZ
 
 	switch p.Type {
 	case packet.PktVideo:
-		m.pts = m.dts + int64(avcTs*avcHZ)
+		m.pts = m.dts + int64(int32(avcTs))*avcHZ
 	case packet.PktAudio:
 		// 音频采样率
 		sampleRate, err := m.parser.SampleRate()
-- 
2.43.0


From b3f52807a799d92f058a7a302949912b46c73eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 05/65] fix: ts: caching a sequence header no longer consumes
 output continuity counters

---
 container/ts/mixer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index a1d2b7b..4317fd8 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -112,7 +112,8 @@ func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
 	}
 
 	m.cache.avcSeqHdr.Reset()
-	return m.muxer.Mux(p, 0, 0, m.cache.avcSeqHdr)
+	// 仅用于缓存, 不占用输出流的包递增计数器
+	return NewMuxer().Mux(p, 0, 0, m.cache.avcSeqHdr)
 }
 
 // SaveAACHeader 保存AAC序列头（flv->aac sequence header）
@@ -125,7 +126,8 @@ func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
 	}
 
 	m.cache.aacSeqHdr.Reset()
-	return m.muxer.Mux(p, 0, 0, m.cache.aacSeqHdr)
+	// 仅用于缓存, 不占用输出流的包递增计数器
+	return NewMuxer().Mux(p, 0, 0, m.cache.aacSeqHdr)
 }
 
 // SetTsHeader 封装PAT和PMT
-- 
2.43.0


From 32672ab52cc6e1b17f68ee7220910069e7b9ff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 06/65] fix: ts: Mux leaves the shared packet's Media untouched

---
 container/ts/mixer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index 4317fd8..bb55c9a 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -71,6 +71,10 @@ func (m *Mixer) parse(p *packet.Packet, cache *bytes.Buffer) error {
 
 // Mux 转换为ts格式（需要使用p.Media）
 func (m *Mixer) Mux(p *packet.Packet) error {
+	// 包可能被多个消费者共享, 封装完成后还原裸流数据
+	media := p.Media
+	defer func() { p.Media = media }()
+
 	err := m.parse(p, m.cache.media)
 	if err != nil {
 		return err
-- 
2.43.0


From 9e1d2fedd751276f4e315353cb92da8cffc9e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 07/65] fix: ts: advance the continuity counter of repeated SDT
 packets

---
 container/ts/muxer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index 9c0317b..8e6241c 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -24,6 +24,7 @@ const (
 type Muxer struct {
 	videoCc  byte /* 包递增计数器 */
 	audioCc  byte /* 包递增计数器 */
+	sdtCc    byte /* 包递增计数器 */
 	patCc    byte /* 包递增计数器 */
 	pmtCc    byte /* 包递增计数器 */
 	sdt      [tsPacketLen]byte
@@ -189,6 +190,10 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 func (muxer *Muxer) SDT(desc *bytes.Buffer) []byte {
 	sdt := table.NewSdt()
 
+	// 填写包递增计数器, 共4位, 超出则归零
+	sdt.TsHeader[3] |= muxer.sdtCc & 0x0f
+	muxer.sdtCc++
+
 	// 填充TS头
 	i := 0
 	copy(muxer.sdt[i:], sdt.TsHeader)
-- 
2.43.0


From 897cef2a983a0e06c159eaed084c48198557cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 08/65] fix: ts: reject descriptor names that overflow the
 8-bit length field

---
 container/ts/table/descriptor.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/container/ts/table/descriptor.go b/container/ts/table/descriptor.go
index 54c1472..ace02ac 100644
--- a/container/ts/table/descriptor.go
+++ b/container/ts/table/descriptor.go
@@ -3,8 +3,15 @@ package table
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 )
 
+// 描述符长度域只有1个字节
+const maxDescriptorLen = 0xff
+
+// errDescriptorTooLong 描述符内容超出长度域
+var errDescriptorTooLong = errors.New("descriptor is too long")
+
 // Descriptor 描述表
 type Descriptor struct {
 	data *bytes.Buffer
@@ -24,6 +31,10 @@ func (d *Descriptor) GetBuffer() *bytes.Buffer {
 
 // Service serviceType: pmt表的program pid
 func (d *Descriptor) Service(serviceType byte, serviceProviderName string, serviceName string) error {
+	if len(serviceProviderName)+len(serviceName)+3 > maxDescriptorLen {
+		return errDescriptorTooLong
+	}
+
 	serviceProviderNameLen := byte(len(serviceProviderName))
 
 	serviceNameLen := byte(len(serviceName))
@@ -60,6 +71,9 @@ func (d *Descriptor) Service(serviceType byte, serviceProviderName string, servi
 // NetworkName 网络名称
 func (d *Descriptor) NetworkName(name string) error {
 	nameLen := len(name)
+	if nameLen > maxDescriptorLen {
+		return errDescriptorTooLong
+	}
 	descriptorLen := byte(nameLen)
 
 	_, err := d.data.Write([]byte{0x40, descriptorLen})
-- 
2.43.0


From 9441854d01ac038c354689c2ed9c021a0745f779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:26 +0000
Subject: [PATCH 09/65] fix: ts: SaveMetadata rejects names the SDT packet
 cannot hold (SetTsHeader panicked)

---
 container/ts/mixer.go | 6 ++++++
 container/ts/muxer.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index bb55c9a..d354448 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -3,6 +3,7 @@ package ts
 
 import (
 	"bytes"
+	"fmt"
 	"io"
 
 	"github.com/moggle-mog/goav/container/ts/table"
@@ -102,6 +103,11 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 		return err
 	}
 
+	// SDT表需要能放进单个ts包中
+	if desc.GetBuffer().Len() > maxSdtDescLen {
+		return fmt.Errorf("service description is too long,len=%d", desc.GetBuffer().Len())
+	}
+
 	m.cache.metadata = desc.GetBuffer()
 	return nil
 }
diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index 8e6241c..52db388 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -13,6 +13,9 @@ import (
 const (
 	tsDefaultDataLen = 184
 	tsPacketLen      = 188
+
+	// SDT描述信息的最大长度: 除去5字节TS头, 16字节SDT头和4字节CRC32
+	maxSdtDescLen = tsPacketLen - 5 - 16 - 4
 )
 
 const (
-- 
2.43.0


From d21b75053d82c3645db8e911d0f76115b6b32780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:06 +0000
Subject: [PATCH 10/65] fix: flv: decode CompositionTime as a signed 24-bit
 value and do not accumulate it across reuse

---
 container/flv/tag.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/container/flv/tag.go b/container/flv/tag.go
index f369bd1..8367e83 100755
--- a/container/flv/tag.go
+++ b/container/flv/tag.go
@@ -130,10 +130,8 @@ func (tag *Tag) parseVideoHeader(b []byte) (int, error) {
 		// [2] H264包类型
 		tag.media.avcType = b[1]
 
-		// [3:5] 时间戳
-		for i := 2; i < 5; i++ {
-			tag.media.compositionTime = tag.media.compositionTime<<8 + int32(b[i])
-		}
+		// [3:5] 时间戳, SI24(有符号)
+		tag.media.compositionTime = int32(uint32(b[2])<<24|uint32(b[3])<<16|uint32(b[4])<<8) >> 8
 		n += 4
 	}
 
-- 
2.43.0


From 92c982d01c62bc46123c735306556339bc8ba468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 11/65] fix: flv: muxing a metadata packet no longer rewrites
 the shared packet's Data

---
 container/flv/muxer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/container/flv/muxer.go b/container/flv/muxer.go
index ae3d35a..18ee0d9 100755
--- a/container/flv/muxer.go
+++ b/container/flv/muxer.go
@@ -96,6 +96,7 @@ func (m *muxer) metadata(metadata amf.Object) ([]byte, error) {
 // Mux 将数据转换为FLV格式
 func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 	var typeID uint32
+	var tagData = p.Data
 
 	// 数据预处理
 	switch p.Type {
@@ -113,13 +114,13 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 			return err
 		}
 
-		p.Data = data
+		tagData = data
 	default:
 		return fmt.Errorf("unexpected type=%d", p.Type)
 	}
 
 	// Flv data length
-	dataLen := uint32(len(p.Data))
+	dataLen := uint32(len(tagData))
 
 	/* 1字节, [0:1]Reserved, [2]Filter(unencrypted), [3:7]TagType */
 	/* 3字节, DataSize, 其中包含2字节的media header */
@@ -138,7 +139,7 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 	}
 
 	// 长度: dataLen
-	_, err = w.Write(p.Data)
+	_, err = w.Write(tagData)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 42bc30954c2eb346954b6cb6299dad08866091b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:08 +0000
Subject: [PATCH 12/65] fix: flv: reject tag data that overflows the 24-bit
 DataSize

---
 container/flv/muxer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/container/flv/muxer.go b/container/flv/muxer.go
index 18ee0d9..9a84ab8 100755
--- a/container/flv/muxer.go
+++ b/container/flv/muxer.go
@@ -119,6 +119,11 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 		return fmt.Errorf("unexpected type=%d", p.Type)
 	}
 
+	// DataSize只有24位
+	if len(tagData) > 0x00ffffff {
+		return fmt.Errorf("tag data is too long,len=%d", len(tagData))
+	}
+
 	// Flv data length
 	dataLen := uint32(len(tagData))
 
-- 
2.43.0


From 796e35737d51d0c00fafd39b045a9f0d2c8640c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:09 +0000
Subject: [PATCH 13/65] fix: amf: DelMetaHeader strips exactly the bytes the
 @setDataFrame value occupied

---
 amf/metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amf/metadata.go b/amf/metadata.go
index 299f42f..5abfd16 100755
--- a/amf/metadata.go
+++ b/amf/metadata.go
@@ -76,7 +76,7 @@ func DelMetaHeader(p []byte, d Decoder) ([]byte, error) {
 	}
 
 	if vv == SetDataFrame {
-		p = p[len(setFrameFrame):]
+		p = p[len(p)-r.Len():]
 	}
 
 	return p, nil
-- 
2.43.0


From 0cdf2aa523e249ca00e82a0dc1612d175be12b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 14/65] fix: h264: a new sequence header replaces the cached
 SPS/PPS instead of appending to it

---
 parser/h264/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 052869e..5a092ad 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -88,7 +88,7 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 	pps = append(pps, tmpBuf[3:]...)
 
 	// 向specificInfo填充SPS和PPS
-	p.specificInfo = append(p.specificInfo, sps...)
+	p.specificInfo = append(p.specificInfo[:0], sps...)
 	p.specificInfo = append(p.specificInfo, pps...)
 
 	return nil
-- 
2.43.0


From 97c600422bc14a9defa234b7d236f22961a08c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 15/65] fix: h264: take exactly ppsLen bytes as the PPS

---
 parser/h264/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 5a092ad..15a5f5f 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -85,7 +85,7 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 		return errors.New("incomplete pps data")
 	}
 	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:]...)
+	pps = append(pps, tmpBuf[3:(3+seq.ppsLen)]...)
 
 	// 向specificInfo填充SPS和PPS
 	p.specificInfo = append(p.specificInfo[:0], sps...)
-- 
2.43.0


From 4a3dc82e956dd860df3619df3e749fb745e6807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 16/65] fix: aac: a rejected AudioSpecificConfig leaves the
 parser unchanged

---
 parser/aac/parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 3864545..8da2282 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -59,17 +59,17 @@ func (p *Parser) specificInfo(src []byte) error {
 		return errors.New("audio mpeg-specific, len(src)<2")
 	}
 
+	// 兼容性报告
+	if ((src[0]&0x07)<<1)|src[1]>>7 == 0xf {
+		return errors.New("incompatible extension sampling frequency")
+	}
+
 	// 填充数据
 	p.gotSpecific = true
 	p.cfgInfo.objectType = (src[0] >> 3) & 0xff                    /* [0:4]编码类型 */
 	p.cfgInfo.sampleRateIndex = ((src[0] & 0x07) << 1) | src[1]>>7 /* [0:3]音频采样率索引值 */
 	p.cfgInfo.channel = (src[1] >> 3) & 0x0f                       /* [0:3]音频输出声道 */
 
-	// 兼容性报告
-	if p.cfgInfo.sampleRateIndex == 0xf {
-		return errors.New("incompatible extension sampling frequency")
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 81ccff24d8fea4e7a7f24a070ed97b5c91804894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 17/65] fix: aac: reject frames that overflow the 13-bit ADTS
 frame length

---
 parser/aac/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 8da2282..02a9eb8 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -79,6 +79,11 @@ func (p *Parser) addADTSToFrame(src []byte, w io.Writer) error {
 		return fmt.Errorf("audio data invalid, data size(%d), has specific config(%v)", len(src), p.gotSpecific)
 	}
 
+	// 帧长度域只有13位(含adts帧头)
+	if len(src) > 0x1fff-adtsHeaderLen {
+		return fmt.Errorf("audio frame is too long, data size(%d)", len(src))
+	}
+
 	// 音频帧大小
 	aacFrameLen := uint16(len(src))
 
-- 
2.43.0


From 7c595fd634ed22d79f6db02500f842af455f1b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 18/65] fix: amf0: out-of-range reference equal to the table
 size is an error, not a panic

---
 amf/amf0.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 5ecee4d..4dccb4f 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -182,7 +182,7 @@ func (ed *EnDecAMF0) decodeReference(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
-	if int(ref) > len(ed.deRefCache) {
+	if int(ref) >= len(ed.deRefCache) {
 		return nil, fmt.Errorf("bad reference %d (current length %d)", ref, len(ed.deRefCache))
 	}
 
-- 
2.43.0


From 101ff5b8baa6033d3db1b49b3c6933af0c9211b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 19/65] fix: amf: read declared lengths in full, for empty,
 fragmented and oversized inputs

---
 amf/helper.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/amf/helper.go b/amf/helper.go
index da0e6d4..3bc1be1 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -1,10 +1,14 @@
 package amf
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 )
 
+// maxPreallocLen 一次性分配内存的上限
+const maxPreallocLen = 64 * 1024
+
 // Array AMF数组接口
 type Array []interface{}
 
@@ -62,17 +66,21 @@ func readByte(r io.Reader) (byte, error) {
 
 // 读多字节
 func readBytes(r io.Reader, n int) ([]byte, error) {
-	bytes := make([]byte, n)
-	m, err := r.Read(bytes)
-	if err != nil {
-		return bytes, err
+	// 长度来自对端, 不能在收到数据前就按长度分配内存
+	if n > maxPreallocLen {
+		var buf bytes.Buffer
+		m, err := io.CopyN(&buf, r, int64(n))
+		if err == io.EOF && m > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+
+		return buf.Bytes(), err
 	}
 
-	if m != n {
-		return bytes, fmt.Errorf("expected %d bytes, but got %d bytes", m, n)
-	}
+	buf := make([]byte, n)
+	_, err := io.ReadFull(r, buf)
 
-	return bytes, nil
+	return buf, err
 }
 
 // 下一个字节一定是target, 否则返回错误
-- 
2.43.0


From ac295cce74521d409bcfe748710d6226020193f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 20/65] fix: amf3: xml and byte array bodies are read in full
 instead of being zero padded

---
 amf/amf3.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 9f0ae62..091191a 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -437,8 +437,7 @@ func (ed *EnDecAMF3) decodeXmlDoc(r io.Reader) (string, error) {
 	}
 
 	// 按数值取值
-	buf := make([]byte, refVal)
-	_, err = r.Read(buf)
+	buf, err := readBytes(r, int(refVal))
 	if err != nil {
 		return "", err
 	}
@@ -478,8 +477,7 @@ func (ed *EnDecAMF3) decodeByteArray(r io.Reader) ([]byte, error) {
 	}
 
 	// 按数值取值
-	result := make([]byte, refVal)
-	_, err = r.Read(result)
+	result, err := readBytes(r, int(refVal))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 906ccbc22e0950a4f4ce794822aa96ebb5c42c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:46 +0000
Subject: [PATCH 21/65] fix: amf0: input truncated inside a value is
 io.ErrUnexpectedEOF, so DecodeBatch reports it

---
 amf/amf0.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 4dccb4f..70473e8 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -49,12 +49,23 @@ func (ed *EnDecAMF0) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	v, err := ed.decodeValue(marker, r)
+	if err == io.EOF {
+		// 值的中间遇到EOF表示数据被截断, 不是正常结束
+		err = io.ErrUnexpectedEOF
+	}
+
+	return v, err
+}
+
+// 根据marker解析值
+func (ed *EnDecAMF0) decodeValue(marker byte, r io.Reader) (interface{}, error) {
 	switch marker {
 	case numberMarkerOnAMF0:
 		// marker: 1 byte 0x00
 		// format: 8 byte big endian float64
 		var f64 float64
-		err = binary.Read(r, binary.BigEndian, &f64)
+		err := binary.Read(r, binary.BigEndian, &f64)
 		if err != nil {
 			return f64, err
 		}
@@ -63,8 +74,7 @@ func (ed *EnDecAMF0) Decode(r io.Reader) (interface{}, error) {
 	case booleanMarkerOnAMF0:
 		// marker: 1 byte 0x01
 		// format: 1 byte, 0x00 = false, 0x01 = true
-		var flag byte
-		flag, err = readByte(r)
+		flag, err := readByte(r)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From b40434b85101a619037acb76b263bcba94bbc2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 22/65] fix: amf3: input truncated inside a value is
 io.ErrUnexpectedEOF, so DecodeBatch reports it

---
 amf/amf3.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 091191a..b8629dd 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -76,6 +76,17 @@ func (ed *EnDecAMF3) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	v, err := ed.decodeValue(marker, r)
+	if err == io.EOF {
+		// 值的中间遇到EOF表示数据被截断, 不是正常结束
+		err = io.ErrUnexpectedEOF
+	}
+
+	return v, err
+}
+
+// 根据marker解析值
+func (ed *EnDecAMF3) decodeValue(marker byte, r io.Reader) (interface{}, error) {
 	switch marker {
 	case undefinedMarkerOnAMF3, nullMarkerOnAMF3:
 		return nil, nil
@@ -87,7 +98,7 @@ func (ed *EnDecAMF3) Decode(r io.Reader) (interface{}, error) {
 		return ed.readUint29(r)
 	case doubleMarkerOnAMF3:
 		var f64 float64
-		err = binary.Read(r, binary.BigEndian, &f64)
+		err := binary.Read(r, binary.BigEndian, &f64)
 		if err != nil {
 			return f64, err
 		}
-- 
2.43.0


From 3b16db8c0d0b2e31348e999fa5598a5542ddd11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 23/65] fix: amf0: a reference to a strict array resolves to
 its elements

---
 amf/amf0.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index 70473e8..f24ea3c 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -227,6 +227,7 @@ func (ed *EnDecAMF0) decodeStrictArray(r io.Reader) (Array, error) {
 
 	// 初始化数组
 	var result Array
+	slot := len(ed.deRefCache)
 	ed.deRefCache = append(ed.deRefCache, result)
 
 	// 填充数组
@@ -238,6 +239,7 @@ func (ed *EnDecAMF0) decodeStrictArray(r io.Reader) (Array, error) {
 
 		result = append(result, val)
 	}
+	ed.deRefCache[slot] = result
 
 	return result, nil
 }
-- 
2.43.0


From 377eac0c8737a57fc5cbc622d9421b3b176b0dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 24/65] fix: amf0: a typed object occupies one reference slot,
 holding the decoded object

---
 amf/amf0.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index f24ea3c..a2c457a 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -158,6 +158,11 @@ func (ed *EnDecAMF0) decodeObject(r io.Reader) (Object, error) {
 	result := make(Object)
 	ed.deRefCache = append(ed.deRefCache, result)
 
+	return ed.decodeProperties(r, result)
+}
+
+// 解析键值对, 直到结束符
+func (ed *EnDecAMF0) decodeProperties(r io.Reader, result Object) (Object, error) {
 	for {
 		// 读取字符串
 		key, err := ed.decodeString(r)
@@ -277,26 +282,23 @@ func (ed *EnDecAMF0) decodeLongString(r io.Reader) (string, error) {
 }
 
 func (ed *EnDecAMF0) decodeTypedObject(r io.Reader) (TypedObject, error) {
-	// 数组化类型数组
-	var result TypedObject
-	ed.deRefCache = append(ed.deRefCache, result)
-
 	// 读取类型
 	typeVal, err := ed.decodeString(r)
 	if err != nil {
-		return result, err
+		return TypedObject{}, err
 	}
 
-	// 读取对象
-	objectVal, err := ed.decodeObject(r)
-	if err != nil {
-		return result, err
+	// 一个带类型的对象只占用一个引用位
+	result := TypedObject{
+		Type:   typeVal,
+		Object: make(Object),
 	}
+	ed.deRefCache = append(ed.deRefCache, result)
 
-	// 导出返回值
-	result = TypedObject{
-		Type:   typeVal,
-		Object: objectVal,
+	// 读取对象
+	_, err = ed.decodeProperties(r, result.Object)
+	if err != nil {
+		return TypedObject{}, err
 	}
 
 	return result, nil
-- 
2.43.0


From 173320a308909fbe53cf400c5cacab9e6a7fe8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 25/65] fix: amf0: EncodeWithAMF3 and EncodeXmlDocument report
 a failed marker write

---
 amf/amf0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index a2c457a..7461bf9 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -371,7 +371,7 @@ func (ed *EnDecAMF0) EncodeBatch(w io.Writer, args ...interface{}) error {
 func (ed *EnDecAMF0) EncodeWithAMF3(w io.Writer, val interface{}) (int, error) {
 	err := writeByte(w, avmPlusObjectMarkerOnAMF0)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 
 	n, err := ed.EnDecAMF3.Encode(w, val)
@@ -386,7 +386,7 @@ func (ed *EnDecAMF0) EncodeWithAMF3(w io.Writer, val interface{}) (int, error) {
 func (ed *EnDecAMF0) EncodeXmlDocument(w io.Writer, val string) (int, error) {
 	err := writeByte(w, xmlDocumentMarkerOnAMF0)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 
 	n, err := ed.encodeLongString(w, val, false)
-- 
2.43.0


From 82870b87555fd0f604e9730356208aff092be8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 26/65] fix: amf0: a date body is a bare double, without a
 nested number marker

---
 amf/amf0.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 7461bf9..30e00e7 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -619,12 +619,11 @@ func (ed *EnDecAMF0) encodeDate(w io.Writer, val time.Time) (int, error) {
 	}
 	n := 1
 
-	var m = 0
-	m, err = ed.encodeNumber(w, float64(val.Unix())*1000.0)
+	err = binary.Write(w, binary.BigEndian, float64(val.Unix())*1000.0)
 	if err != nil {
 		return 0, err
 	}
-	n += m
+	n += 8
 
 	err = binary.Write(w, binary.BigEndian, int16(0))
 	if err != nil {
-- 
2.43.0


From d9b8145c31ec59d2ea9ee90bde7d1a701342b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 27/65] fix: amf0: reject keys and type names longer than 65535
 bytes instead of truncating their length

---
 amf/amf0.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index 30e00e7..37ccc2d 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -513,6 +513,11 @@ func (ed *EnDecAMF0) encodeString(w io.Writer, val string, encodeMarker bool) (i
 		n++
 	}
 
+	// 短字符串最大长度: 65535(B), 对象的key和类型名只能使用短字符串
+	if len(val) > 65535 {
+		return 0, fmt.Errorf("string is too long,len=%d", len(val))
+	}
+
 	length := uint16(len(val))
 	err = binary.Write(w, binary.BigEndian, length)
 	if err != nil {
-- 
2.43.0


From 4de0eb3431871ce38071b12f9dd4a5aaae6d45f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 28/65] fix: amf0: reject an empty object key, which would end
 the object early

---
 amf/amf0.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index 37ccc2d..b70b953 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -2,6 +2,7 @@ package amf
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 	"reflect"
@@ -548,6 +549,11 @@ func (ed *EnDecAMF0) encodeObject(w io.Writer, val Object, encodeMarker bool) (i
 
 	var m = 0
 	for k, v := range val {
+		// 空key会被当作结束符
+		if k == "" {
+			return 0, errors.New("empty object key")
+		}
+
 		// 数组key
 		m, err = ed.encodeString(w, k, false)
 		if err != nil {
-- 
2.43.0


From 15f1057b97e75e23673469b3064970963b0b4525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 29/65] fix: amf3: recognise externalizable and dynamic traits

---
 amf/amf3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index b8629dd..5f30a17 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -310,10 +310,10 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 		trait = ed.traitTable[index]
 	} else {
 		// Note: no property names are included in the trait information
-		trait.Externalizable = (refVal & 0x02) == 1
+		trait.Externalizable = (refVal & 0x02) != 0
 
 		// Note: another dynamic member follows until the string-type is the empty string.
-		trait.Dynamic = (refVal & 0x04) == 1
+		trait.Dynamic = (refVal & 0x04) != 0
 
 		// Note: use the empty string for anonymous classes
 		trait.Type, err = ed.decodeString(r)
-- 
2.43.0


From b0a5d21bfeafa5a028a8a4c87cbaa3fa951313fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 30/65] fix: amf3: read every flagged field of external
 messages, not only the first

---
 amf/amf3_external.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amf/amf3_external.go b/amf/amf3_external.go
index f3481b2..eab8d67 100755
--- a/amf/amf3_external.go
+++ b/amf/amf3_external.go
@@ -71,7 +71,7 @@ func (ed *EnDecAMF3) decodeExternal(r io.Reader, obj *Object, fieldSets ...[]str
 		// 只有在flagSet里设置为1的值才会被解开
 		for p, field := range fieldNames {
 			flagBit := uint8(math.Exp2(float64(p)))
-			if (flags & flagBit) == 1 {
+			if (flags & flagBit) != 0 {
 				tmp, err := ed.Decode(r)
 				if err != nil {
 					return err
-- 
2.43.0


From dc39287e8f6f110e79e1ac521246cf65204538e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 31/65] fix: amf3: a reference to an array resolves to its
 elements, and a declared length is not preallocated

---
 amf/amf3.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 5f30a17..2cb43cb 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -248,9 +248,9 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 
 	// 初始化数组
 	var result EcmaArrayAMF3
-	ed.deObjTable = append(ed.deObjTable, result)
 	result.associative = make(Object)
-	result.dense = make(Array, refVal)
+	slot := len(ed.deObjTable)
+	ed.deObjTable = append(ed.deObjTable, result)
 
 	// list of assoicative array, terminated by an empty string
 	for key != "" {
@@ -269,11 +269,13 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 
 	// list of dense array
 	for i := uint32(0); i < refVal; i++ {
-		result.dense[i], err = ed.Decode(r)
+		val, err := ed.Decode(r)
 		if err != nil {
 			return EcmaArrayAMF3{}, err
 		}
+		result.dense = append(result.dense, val)
 	}
+	ed.deObjTable[slot] = result
 
 	return result, nil
 }
-- 
2.43.0


From 35f0afb932a3f29c77e0043c748ae90030caa0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 32/65] fix: amf3: a reference to an object resolves to it, and
 an ArrayCollection takes one slot besides its array's

---
 amf/amf3.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 2cb43cb..a423077 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -337,6 +337,7 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 	}
 
 	var result interface{}
+	slot := len(ed.deObjTable)
 	ed.deObjTable = append(ed.deObjTable, result)
 
 	// objects can be externalizable, meaning that the system has no concrete understanding of
@@ -362,8 +363,6 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 				return nil, err
 			}
 
-			// store an extra reference to array collection container
-			ed.deObjTable = append(ed.deObjTable, result)
 		default:
 			// 调用外部函数
 			fn, ok := ed.externalHandlers[trait.Type]
@@ -378,11 +377,13 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 		}
 
 		// 外部函数调用完即可结束
+		ed.deObjTable[slot] = result
 		return result, nil
 	}
 
 	// 解析Properties, Dynamic
 	obj := make(Object)
+	ed.deObjTable[slot] = obj
 
 	// non-externalizable objects have property keys in traits, iterate through them
 	// and add the read values to the object
-- 
2.43.0


From 25df954280ac787604abe0f5e8e1b478ce811ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 33/65] fix: amf3: do not preallocate the declared number of
 trait properties

---
 amf/amf3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index a423077..8acc823 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -325,12 +325,12 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 
 		// Note: traits have property keys, encoded as amf3 strings
 		count := int(refVal >> 3)
-		trait.Properties = make([]string, count)
 		for i := 0; i < count; i++ {
-			trait.Properties[i], err = ed.decodeString(r)
+			prop, err := ed.decodeString(r)
 			if err != nil {
 				return nil, err
 			}
+			trait.Properties = append(trait.Properties, prop)
 		}
 
 		ed.traitTable = append(ed.traitTable, trait)
-- 
2.43.0


From 82c2ddebb22d5753abb50e4144334d646e49c65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 34/65] fix: amf3: RegisterExternalHandler works on a zero
 decoder and on NewEnDecAMF0

---
 amf/amf3.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amf/amf3.go b/amf/amf3.go
index 8acc823..a7742fb 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -66,6 +66,9 @@ func NewEnDecAMF3() *EnDecAMF3 {
 
 // RegisterExternalHandler 注册远程调用
 func (ed *EnDecAMF3) RegisterExternalHandler(name string, f ExternalHandler) {
+	if ed.externalHandlers == nil {
+		ed.externalHandlers = make(map[string]ExternalHandler)
+	}
 	ed.externalHandlers[name] = f
 }
 
-- 
2.43.0


From a91a2b8bf67f5eeba86b4c0ac11dcdc1e69f8fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 35/65] fix: amf3: an empty xml or byte array also takes an
 object reference slot

---
 amf/amf3.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index a7742fb..2eb6cb2 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -448,11 +448,6 @@ func (ed *EnDecAMF3) decodeXmlDoc(r io.Reader) (string, error) {
 		return result, nil
 	}
 
-	// xml字符个数
-	if refVal == 0 {
-		return "", nil
-	}
-
 	// 按数值取值
 	buf, err := readBytes(r, int(refVal))
 	if err != nil {
@@ -488,11 +483,6 @@ func (ed *EnDecAMF3) decodeByteArray(r io.Reader) ([]byte, error) {
 		return result, nil
 	}
 
-	// 字节个数
-	if refVal == 0 {
-		return nil, nil
-	}
-
 	// 按数值取值
 	result, err := readBytes(r, int(refVal))
 	if err != nil {
-- 
2.43.0


From 2373c8a91a2465c14b5361495745cfe36f718ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 36/65] fix: amf3: integers are signed 29-bit values (negative
 ones could not be encoded)

---
 amf/amf3.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 2eb6cb2..51077b8 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -32,6 +32,9 @@ const (
 	dictionaryMarkerOnAMF3   = 0x11
 )
 
+// maxInt29 29位有符号数的最大值
+const maxInt29 = 1<<28 - 1
+
 // TraitAMF3 AMF3特性表
 type TraitAMF3 struct {
 	Type           string
@@ -98,7 +101,7 @@ func (ed *EnDecAMF3) decodeValue(marker byte, r io.Reader) (interface{}, error)
 	case trueMarkerOnAMF3:
 		return true, nil
 	case integerMarkerOnAMF3:
-		return ed.readUint29(r)
+		return ed.decodeInteger(r)
 	case doubleMarkerOnAMF3:
 		var f64 float64
 		err := binary.Read(r, binary.BigEndian, &f64)
@@ -148,6 +151,20 @@ func (ed *EnDecAMF3) DecodeBatch(r io.Reader) ([]interface{}, error) {
 
 // ======================================================================
 
+// 整数是29位有符号数, 负数以补码表示
+func (ed *EnDecAMF3) decodeInteger(r io.Reader) (interface{}, error) {
+	u29, err := ed.readUint29(r)
+	if err != nil {
+		return nil, err
+	}
+
+	if u29 > maxInt29 {
+		return int32(u29) - 1<<29, nil
+	}
+
+	return u29, nil
+}
+
 func (ed *EnDecAMF3) decodeString(r io.Reader) (string, error) {
 	isRef, refVal, err := ed.decodeUint29(r)
 	if err != nil {
@@ -572,13 +589,13 @@ func (ed *EnDecAMF3) Encode(w io.Writer, val interface{}) (int, error) {
 
 		return ed.encodeFalse(w)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
-		if v.Int() >= -536870911 && v.Int() < 536870911 {
-			return ed.encodeInteger(w, uint32(v.Int()))
+		if v.Int() >= -maxInt29-1 && v.Int() <= maxInt29 {
+			return ed.encodeInteger(w, uint32(v.Int())&0x1fffffff)
 		}
 
 		return ed.encodeDouble(w, float64(v.Int()))
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:
-		if v.Uint() < 536870911 {
+		if v.Uint() <= maxInt29 {
 			return ed.encodeInteger(w, uint32(v.Uint()))
 		}
 
-- 
2.43.0


From 761382b757407fe016e71074d41f9807a74d87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 37/65] fix: sips: an empty or lone-quote argument value no
 longer panics

---
 sips/header_args.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index 267ac18..74f9beb 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -29,7 +29,7 @@ func ParseArgsPairs(value string) Args {
 			m[pair] = ""
 		} else {
 			v := pair[i+1:]
-			if v[0] == '"' && v[len(v)-1] == '"' {
+			if len(v) >= 2 && v[0] == '"' && v[len(v)-1] == '"' {
 				v = v[1 : len(v)-1]
 			}
 			m[pair[:i]] = v
-- 
2.43.0


From 8584fbd071f50cdc9066458a06299c7b0e23a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 38/65] fix: sips: a continuation line before any header no
 longer panics

---
 sips/sips.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sips/sips.go b/sips/sips.go
index a3eb121..7c1208a 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -200,8 +200,14 @@ func (s *SIP) ParseHeader(header []byte) {
 	// multiline headers must begin by SP or TAB
 	if header[0] == '\t' || header[0] == ' ' {
 
+		// Nothing to continue
+		values := s.Headers[s.lastHeaderParsed]
+		if len(values) == 0 {
+			return
+		}
+
 		header = bytes.TrimSpace(header)
-		s.Headers[s.lastHeaderParsed][len(s.Headers[s.lastHeaderParsed])-1] += fmt.Sprintf(" %s", string(header))
+		values[len(values)-1] += fmt.Sprintf(" %s", string(header))
 		return
 	}
 
-- 
2.43.0


From 433b74e7db0dd4206f83b7f8809cc20ea9bba7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 39/65] fix: sips: headers sent in compact form are found under
 their long name

---
 sips/header.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/sips/header.go b/sips/header.go
index f19592c..213fcbb 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -50,12 +50,10 @@ func (s SIPHeader) GetAllHeaders() map[string][]string {
 func (s SIPHeader) GetHeader(headerName string) []string {
 	headerName = strings.ToLower(headerName)
 	h := make([]string, 0)
-	if _, ok := s[headerName]; ok {
-		if len(s[headerName]) > 0 {
-			return s[headerName]
-		} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-			return s[compactSipHeadersCorrespondence[headerName]]
-		}
+	if len(s[headerName]) > 0 {
+		return s[headerName]
+	} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
+		return s[compactSipHeadersCorrespondence[headerName]]
 	}
 	return h
 }
@@ -65,12 +63,10 @@ func (s SIPHeader) GetHeader(headerName string) []string {
 // headers with the same name, it returns the first.
 func (s SIPHeader) GetFirstHeader(headerName string) string {
 	headerName = strings.ToLower(headerName)
-	if _, ok := s[headerName]; ok {
-		if len(s[headerName]) > 0 {
-			return s[headerName][0]
-		} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-			return s[compactSipHeadersCorrespondence[headerName]][0]
-		}
+	if len(s[headerName]) > 0 {
+		return s[headerName][0]
+	} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
+		return s[compactSipHeadersCorrespondence[headerName]][0]
 	}
 	return ""
 }
-- 
2.43.0


From 3a7fe13c84c7db69969bff4fe540e1a4765019fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 40/65] fix: sips: setting a header replaces its compact form
 instead of duplicating it

---
 sips/header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sips/header.go b/sips/header.go
index 213fcbb..847b997 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -74,6 +74,9 @@ func (s SIPHeader) GetFirstHeader(headerName string) string {
 // SetFirstHeader sets header with only one value
 func (s SIPHeader) SetFirstHeader(headerName, header string) {
 	headerName = strings.ToLower(headerName)
+	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok {
+		delete(s, compact)
+	}
 	s[headerName] = []string{header}
 }
 
-- 
2.43.0


From 0c1f02585bd8381b8f74484b20bda220fafd3b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 41/65] fix: sips: encode each value of a repeated header on
 its own header line

---
 sips/header.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sips/header.go b/sips/header.go
index 847b997..e3891ad 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -93,13 +93,15 @@ func (s SIPHeader) Bytes() []byte {
 
 	for k, v := range s {
 
-		buf.WriteString(k)
-		buf.WriteString(":")
-		for _, v1 := range v {
+		for i, v1 := range v {
+			// a value that starts with white space continues the previous line
+			if i == 0 || !strings.HasPrefix(v1, " ") && !strings.HasPrefix(v1, "\t") {
+				buf.WriteString(k)
+				buf.WriteString(":")
+			}
 			buf.WriteString(" ")
 			buf.WriteString(v1)
 			buf.WriteString("\r\n")
-			continue
 		}
 	}
 
-- 
2.43.0


From d1d85eddb8c873c70fd69fb800eaaa2293a300e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:40 +0000
Subject: [PATCH 42/65] fix: sips: read exactly Content-Length bytes after the
 separator, neither dropping the body's end nor eating the next message

---
 sips/sips.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index 7c1208a..66eae9d 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -65,7 +65,7 @@ func (s *SIP) fillHeader() {
 	s.Via = s.Headers.GetSIPVia()
 }
 
-func (s *SIP) fillBody(r *bufio.Reader, supplement int) ([]byte, error) {
+func (s *SIP) fillBody(r *bufio.Reader) ([]byte, error) {
 
 	var body []byte
 
@@ -73,12 +73,15 @@ func (s *SIP) fillBody(r *bufio.Reader, supplement int) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	size -= supplement
 
 	for size > 0 {
 
 		// read one block
 		buf := make([]byte, 4*1024)
+		if size < len(buf) {
+			// the rest belongs to the next message
+			buf = buf[:size]
+		}
 
 		n, err := r.Read(buf)
 		if err != nil {
@@ -160,7 +163,7 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 	// header fields and body.  Any Content-Length greater than or equal to
 	// zero is a valid value.  If no body is present in a message, then the
 	// Content-Length header field value MUST be set to zero.
-	body, err := s.fillBody(r, len(buffer)-offset)
+	body, err := s.fillBody(r)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a0cb18f238a51f41eb8b9319d350318fb5264533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 43/65] fix: sips: NewSIPUser parses the display name

---
 sips/user.go | 62 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/sips/user.go b/sips/user.go
index 131d5c5..9eefd02 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -48,13 +48,15 @@ func NewSIPUser(uri string) *SIPUser {
 		Args:    make(Args),
 		Src:     uri,
 	}
-	pos, state := 0, _FieldBase
+	state := _FieldBase
 
-	var name, user, host, port []byte
+	// display name, may contain any character when quoted
+	var user, host, port []byte
+	name, pos := parseDisplayName(uri)
 
 	for pos < len(uri) && uri[pos] != ';' {
 
-		if uri[pos] == '>' || (uri[pos] == ' ' && state != _FieldName) {
+		if uri[pos] == '>' || uri[pos] == ' ' {
 			state = _FieldBase
 			pos++
 			continue
@@ -78,19 +80,6 @@ func NewSIPUser(uri string) *SIPUser {
 				pos = pos + 5
 				continue
 			}
-
-			if uri[pos] == '"' || su.URIType == "" {
-				state = _FieldName
-				continue
-			}
-		case _FieldName:
-
-			if uri[pos] == '"' || uri[pos] == '<' {
-				state = _FieldBase
-				pos++
-				continue
-			}
-			name = append(name, uri[pos])
 		case _FieldUser:
 
 			if uri[pos] == '@' {
@@ -115,15 +104,11 @@ func NewSIPUser(uri string) *SIPUser {
 		pos++
 	}
 
-	su.Name = string(name)
+	su.Name = strings.TrimSpace(name)
 	su.User = string(user)
 	su.Host = string(host)
 	su.Port = string(port)
 
-	if len(su.Name) > 0 {
-		su.Name = strings.TrimSpace(su.Name)
-	}
-
 	if pos < len(uri) {
 		su.Args = ParseArgs(uri[pos:])
 	}
@@ -131,6 +116,41 @@ func NewSIPUser(uri string) *SIPUser {
 	return su
 }
 
+// parseDisplayName extracts the display name in front of the URI, and
+// returns the position where it ends
+func parseDisplayName(uri string) (string, int) {
+
+	pos := 0
+	for pos < len(uri) && uri[pos] == ' ' {
+		pos++
+	}
+
+	// quoted-string
+	if pos < len(uri) && uri[pos] == '"' {
+
+		var name []byte
+		for i := pos + 1; i < len(uri); i++ {
+
+			if uri[i] == '"' {
+				return string(name), i + 1
+			}
+			if uri[i] == '\\' && i+1 < len(uri) {
+				i++
+			}
+			name = append(name, uri[i])
+		}
+
+		return "", pos
+	}
+
+	// token
+	if i := strings.IndexAny(uri, "<:;"); i >= 0 && uri[i] == '<' {
+		return uri[:i], i
+	}
+
+	return "", pos
+}
+
 // Bytes package SIPUser struct into slice
 func (s *SIPUser) Bytes() []byte {
 
-- 
2.43.0


From 667e55bd9838fc5efdb9df71587151cb46cf1b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 44/65] fix: sips: a URI without a user part is a host, and
 encodes without '@'

---
 sips/request.go | 15 ++++++++++++++-
 sips/user.go    | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/sips/request.go b/sips/request.go
index ee83d33..5c28b45 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -48,6 +48,7 @@ func NewSIPRequest(uri string) *SIPRequest {
 	pos, state := 0, _FieldBase
 
 	var user, host, port []byte
+	var hasUser bool
 
 	for pos < len(uri) && uri[pos] != ';' {
 
@@ -72,6 +73,7 @@ func NewSIPRequest(uri string) *SIPRequest {
 		case _FieldUser:
 
 			if uri[pos] == '@' {
+				hasUser = true
 				state = _FieldHost
 				pos++
 				continue
@@ -93,6 +95,15 @@ func NewSIPRequest(uri string) *SIPRequest {
 		pos++
 	}
 
+	// without '@' it is the host part, only a telephone number has no host
+	if !hasUser && sr.URIType != "tel" {
+		hostPort := bytes.SplitN(user, []byte(":"), 2)
+		user, host = nil, hostPort[0]
+		if len(hostPort) > 1 {
+			port = hostPort[1]
+		}
+	}
+
 	sr.User = string(user)
 	sr.Host = string(host)
 	sr.Port = string(port)
@@ -115,7 +126,9 @@ func (s *SIPRequest) Bytes() []byte {
 
 	// user@host
 	buf.WriteString(s.User)
-	buf.WriteString("@")
+	if len(s.User) > 0 && len(s.Host) > 0 {
+		buf.WriteString("@")
+	}
 	buf.WriteString(s.Host)
 
 	if len(s.Port) > 0 {
diff --git a/sips/user.go b/sips/user.go
index 9eefd02..aa392a6 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -52,6 +52,7 @@ func NewSIPUser(uri string) *SIPUser {
 
 	// display name, may contain any character when quoted
 	var user, host, port []byte
+	var hasUser bool
 	name, pos := parseDisplayName(uri)
 
 	for pos < len(uri) && uri[pos] != ';' {
@@ -83,6 +84,7 @@ func NewSIPUser(uri string) *SIPUser {
 		case _FieldUser:
 
 			if uri[pos] == '@' {
+				hasUser = true
 				state = _FieldHost
 				pos++
 				continue
@@ -104,6 +106,15 @@ func NewSIPUser(uri string) *SIPUser {
 		pos++
 	}
 
+	// without '@' it is the host part, only a telephone number has no host
+	if !hasUser && su.URIType != "tel" {
+		hostPort := bytes.SplitN(user, []byte(":"), 2)
+		user, host = nil, hostPort[0]
+		if len(hostPort) > 1 {
+			port = hostPort[1]
+		}
+	}
+
 	su.Name = strings.TrimSpace(name)
 	su.User = string(user)
 	su.Host = string(host)
@@ -171,7 +182,9 @@ func (s *SIPUser) Bytes() []byte {
 	buf.WriteString(s.URIType)
 	buf.WriteString(":")
 	buf.WriteString(s.User)
-	buf.WriteString("@")
+	if len(s.User) > 0 && len(s.Host) > 0 {
+		buf.WriteString("@")
+	}
 	buf.WriteString(s.Host)
 
 	if len(s.Port) > 0 {
-- 
2.43.0


From daa20031dcca6a9104cede9f5a3aef0d86cf4952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 45/65] fix: sips: NewSIPVia keeps any transport token

---
 sips/via.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/sips/via.go b/sips/via.go
index 18c90de..cb0ca91 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -59,19 +59,14 @@ func NewSIPVia(uri string) *SIPVia {
 				state = _FieldHost
 				pos = pos + 8
 
-				str = Substring(uri, pos, pos+3)
-				if str == "UDP" || str == "TCP" || str == "TLS" {
-					sv.Trans = str
-					pos = pos + 3
-					continue
-				}
-
-				str = Substring(uri, pos, pos+4)
-				if str == "SCTP" {
-					sv.Trans = str
-					pos = pos + 4
-					continue
+				// any transport token is allowed: UDP, TCP, TLS, SCTP, WS, TLS-SCTP...
+				end := pos
+				for end < len(uri) && uri[end] != ' ' && uri[end] != ';' {
+					end++
 				}
+				sv.Trans = uri[pos:end]
+				pos = end
+				continue
 			}
 		case _FieldHost:
 
-- 
2.43.0


From 683545a85f1903e5a1af1d2677466345f381de97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 46/65] fix: ts: PTS/DTS prefixes of a PES header with both are
 '0011' and '0001'

---
 container/ts/table/pes.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/container/ts/table/pes.go b/container/ts/table/pes.go
index 37cd13f..21680f1 100644
--- a/container/ts/table/pes.go
+++ b/container/ts/table/pes.go
@@ -37,18 +37,20 @@ func (pe *Pes) GeneratePesHeader(mt int, mediaDataLen int, pts, dts int64) int {
 		return 0
 	}
 
-	// pts
-	ptsB5 := pe.encodeTs(pe.PesHeader[7], pts)
-	copy(pe.PesHeader[9:], ptsB5[:])
+	// 标志位决定了时间戳的前缀: 仅pts('0010'), pts和dts('0011', '0001')
 	if mt == packet.PktVideo && pts != dts {
 		pe.PesHeader[7] |= 0x40
 		pe.PesHeader[8] += 0x05
 
 		// dts
-		dtsB5 := pe.encodeTs(pe.PesHeader[7], dts)
+		dtsB5 := pe.encodeTs(0x40, dts)
 		copy(pe.PesHeader[14:], dtsB5[:])
 	}
 
+	// pts
+	ptsB5 := pe.encodeTs(pe.PesHeader[7], pts)
+	copy(pe.PesHeader[9:], ptsB5[:])
+
 	// pes数据包的长度
 	pesDataLen := int(pe.PesHeader[8])
 	size := 3 + pesDataLen + mediaDataLen
-- 
2.43.0


From c6084db33305797bc42104a998a1dbcf647a390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 47/65] fix: parser: a rejected audio packet does not select
 the codec whose sample rate is reported

---
 parser/parser.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6c6885e..972fc4f 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -50,18 +50,32 @@ func (c *CodecParser) Parse(p *packet.Packet, w io.Writer) error {
 		// 根据音频编码器做不同处理
 		ah := p.Header.(packet.AudioPacketHeader)
 		if ah.IsSoundAAC() {
-			if c.aac == nil {
-				c.aac = aac.NewParser()
+			if c.aac != nil {
+				return c.aac.Parse(p.Media, ah.AACType(), w)
 			}
 
-			return c.aac.Parse(p.Media, ah.AACType(), w)
+			// 首个被接受的包才能决定音频编码
+			a := aac.NewParser()
+			err := a.Parse(p.Media, ah.AACType(), w)
+			if err == nil {
+				c.aac = a
+			}
+
+			return err
 		}
 		if ah.IsSoundMP3() {
-			if c.mp3 == nil {
-				c.mp3 = mp3.NewParser()
+			if c.mp3 != nil {
+				return c.mp3.Parse(p.Media)
+			}
+
+			// 首个被接受的包才能决定音频编码
+			m := mp3.NewParser()
+			err := m.Parse(p.Media)
+			if err == nil {
+				c.mp3 = m
 			}
 
-			return c.mp3.Parse(p.Media)
+			return err
 		}
 
 		// 默认返回错误
-- 
2.43.0


From 2af17a220a108235d3514aaa16d739a5c6c5babc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 48/65] fix: ts: a rejected sequence header does not add its
 stream to the PMT

---
 container/ts/mixer.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index d354448..39decdf 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -114,12 +114,11 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 
 // SaveAVCHeader 保存AVC序列头（flv->avc sequence header）
 func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
-	m.cache.types.IsVideo()
-
 	err := m.parse(p, m.cache.avcSeqHdr)
 	if err != nil {
 		return err
 	}
+	m.cache.types.IsVideo()
 
 	m.cache.avcSeqHdr.Reset()
 	// 仅用于缓存, 不占用输出流的包递增计数器
@@ -128,12 +127,11 @@ func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
 
 // SaveAACHeader 保存AAC序列头（flv->aac sequence header）
 func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
-	m.cache.types.IsAudio()
-
 	err := m.parse(p, m.cache.aacSeqHdr)
 	if err != nil {
 		return err
 	}
+	m.cache.types.IsAudio()
 
 	m.cache.aacSeqHdr.Reset()
 	// 仅用于缓存, 不占用输出流的包递增计数器
-- 
2.43.0


From b31f0f310af18b7a482f2fa1147e9af7468e1ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 49/65] fix: flv: a reused tag keeps no fields of the previous
 packet

---
 container/flv/tag.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/container/flv/tag.go b/container/flv/tag.go
index 8367e83..34cf0d2 100755
--- a/container/flv/tag.go
+++ b/container/flv/tag.go
@@ -119,6 +119,9 @@ func (tag *Tag) parseVideoHeader(b []byte) (int, error) {
 
 	var n int
 
+	// 复用Tag时不保留上一个包的内容
+	tag.media = mediaTag{}
+
 	// [1] 帧类型 和 编码ID
 	flags := b[0]
 	tag.media.frameType = flags >> 4
@@ -146,6 +149,9 @@ func (tag *Tag) parseAudioHeader(b []byte) (int, error) {
 
 	var n int
 
+	// 复用Tag时不保留上一个包的内容
+	tag.media = mediaTag{}
+
 	// [1] 音频格式, 码率, 大小以及声音类型
 	flags := b[0]
 	tag.media.soundFormat = flags >> 4
-- 
2.43.0


From f606493dab24653428fd44bf884b0ee00815a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:50 +0000
Subject: [PATCH 50/65] fix: sips: a header without a name is not the compact
 form of every other one

---
 sips/header.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sips/header.go b/sips/header.go
index e3891ad..49405ef 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -52,8 +52,8 @@ func (s SIPHeader) GetHeader(headerName string) []string {
 	h := make([]string, 0)
 	if len(s[headerName]) > 0 {
 		return s[headerName]
-	} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-		return s[compactSipHeadersCorrespondence[headerName]]
+	} else if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
+		return s[compact]
 	}
 	return h
 }
@@ -65,8 +65,8 @@ func (s SIPHeader) GetFirstHeader(headerName string) string {
 	headerName = strings.ToLower(headerName)
 	if len(s[headerName]) > 0 {
 		return s[headerName][0]
-	} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-		return s[compactSipHeadersCorrespondence[headerName]][0]
+	} else if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
+		return s[compact][0]
 	}
 	return ""
 }
-- 
2.43.0


From e7802fea046ec9dad1fc77dbca98e931f23ea1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:50 +0000
Subject: [PATCH 51/65] fix: sips: tabs around a header's name and value are
 white space

---
 sips/sips.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index 66eae9d..4470baa 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -218,8 +218,8 @@ func (s *SIP) ParseHeader(header []byte) {
 	index := bytes.Index(header, []byte(":"))
 	if index >= 0 {
 
-		headerName := strings.ToLower(string(bytes.Trim(header[:index], " ")))
-		headerValue := string(bytes.Trim(header[index+1:], " "))
+		headerName := strings.ToLower(string(bytes.Trim(header[:index], " \t")))
+		headerValue := string(bytes.Trim(header[index+1:], " \t"))
 
 		// Add header to object
 		s.Headers[headerName] = append(s.Headers[headerName], headerValue)
-- 
2.43.0


From 52f5a43b42a4a9e2b57013997aafdd8439005c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 52/65] fix: sips: a value that starts on a continuation line
 has no leading white space

---
 sips/sips.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sips/sips.go b/sips/sips.go
index 4470baa..6a3d1c5 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -209,8 +209,9 @@ func (s *SIP) ParseHeader(header []byte) {
 			return
 		}
 
+		// the value itself neither starts nor ends with white space
 		header = bytes.TrimSpace(header)
-		values[len(values)-1] += fmt.Sprintf(" %s", string(header))
+		values[len(values)-1] = strings.TrimSpace(fmt.Sprintf("%s %s", values[len(values)-1], string(header)))
 		return
 	}
 
-- 
2.43.0


From 929096628c51e0404ebe128164f08adbed55049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 53/65] fix: sips: the bracket that closes an address is not
 part of a URI parameter

---
 sips/user.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sips/user.go b/sips/user.go
index aa392a6..f74314e 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -53,7 +53,8 @@ func NewSIPUser(uri string) *SIPUser {
 	// display name, may contain any character when quoted
 	var user, host, port []byte
 	var hasUser bool
-	name, pos := parseDisplayName(uri)
+	name, end := parseDisplayName(uri)
+	pos := end
 
 	for pos < len(uri) && uri[pos] != ';' {
 
@@ -121,7 +122,13 @@ func NewSIPUser(uri string) *SIPUser {
 	su.Port = string(port)
 
 	if pos < len(uri) {
-		su.Args = ParseArgs(uri[pos:])
+
+		// URI parameters end at the bracket that closes the URI
+		args := uri[pos:]
+		if strings.Count(uri[end:pos], "<") > strings.Count(uri[end:pos], ">") {
+			args = strings.Replace(args, ">", "", 1)
+		}
+		su.Args = ParseArgs(args)
 	}
 
 	return su
-- 
2.43.0


From 331c26182620137367c6d18ef0a36b4a0483c520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:52 +0000
Subject: [PATCH 54/65] fix: sips: ParseList keeps bytes that are not UTF-8

---
 sips/header_args.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index 74f9beb..a4c071c 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -58,10 +58,11 @@ func (a Args) ParseList(value string) []string {
 	var list []string
 	var escape, quote bool
 	b := new(bytes.Buffer)
-	for _, r := range value {
+	for i := 0; i < len(value); i++ {
+		r := value[i]
 		switch {
 		case escape:
-			b.WriteRune(r)
+			b.WriteByte(r)
 			escape = false
 		case quote:
 			if r == '\\' {
@@ -70,16 +71,16 @@ func (a Args) ParseList(value string) []string {
 				if r == '"' {
 					quote = false
 				}
-				b.WriteRune(r)
+				b.WriteByte(r)
 			}
 		case r == ',' || r == ';' || r == '\n':
 			list = append(list, strings.TrimSpace(b.String()))
 			b.Reset()
 		case r == '"':
 			quote = true
-			b.WriteRune(r)
+			b.WriteByte(r)
 		default:
-			b.WriteRune(r)
+			b.WriteByte(r)
 		}
 	}
 	// Append last part.
-- 
2.43.0


From 3184d2f0b905f591b03656afe5a847e8f42b6ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:53 +0000
Subject: [PATCH 55/65] fix: sips: quoted strings escape only quotes and
 backslashes, so that they read back

---
 sips/header_args.go | 9 +++++++--
 sips/user.go        | 3 +--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index a4c071c..d135c3e 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -4,7 +4,6 @@ package sips
 
 import (
 	"bytes"
-	"strconv"
 	"strings"
 )
 
@@ -130,11 +129,17 @@ func (a Args) CommaString() string {
 
 	var result string
 	for key, value := range a {
-		result += key + "=" + strconv.Quote(value) + ", "
+		result += key + "=" + quoteString(value) + ", "
 	}
 	return result[:len(result)-2]
 }
 
+// quoteString returns a quoted-string, in which only the double quote and the
+// backslash are escaped (RFC 3261 - 25.1).
+func quoteString(value string) string {
+	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(value) + `"`
+}
+
 // CRLFString returns the header arguments as a CRLF separated string.
 func (a Args) CRLFString() string {
 	if len(a) == 0 {
diff --git a/sips/user.go b/sips/user.go
index f74314e..41db741 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -6,7 +6,6 @@ package sips
 
 import (
 	"bytes"
-	"strconv"
 	"strings"
 )
 
@@ -179,7 +178,7 @@ func (s *SIPUser) Bytes() []byte {
 		if s.Name == "Anonymous" {
 			buf.WriteString(s.Name)
 		} else {
-			buf.WriteString(strconv.Quote(s.Name))
+			buf.WriteString(quoteString(s.Name))
 		}
 
 		buf.WriteString(" ")
-- 
2.43.0


From 320870f905ff2e8fe8b269b372bcdef7dcd95561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:53 +0000
Subject: [PATCH 56/65] fix: sips: extra white space before the CSeq method is
 not part of it

---
 sips/cseq.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sips/cseq.go b/sips/cseq.go
index 9e3fbde..89f1d47 100644
--- a/sips/cseq.go
+++ b/sips/cseq.go
@@ -1,6 +1,9 @@
 package sips
 
-import "bytes"
+import (
+	"bytes"
+	"strings"
+)
 
 // SIPCseq The CSeq header field serves as a way to identify and order
 // transactions.  It consists of a sequence number and a method.  The
@@ -49,7 +52,7 @@ func NewSIPCseq(uri string) *SIPCseq {
 	}
 
 	sc.ID = string(id)
-	sc.Method = string(method)
+	sc.Method = strings.TrimSpace(string(method))
 
 	return sc
 }
-- 
2.43.0


From a3c654922dce9db9ea84c513b5b865033293cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:54 +0000
Subject: [PATCH 57/65] fix: sips: an IPv6 reference is a host, its colons do
 not start the port

---
 sips/base.go    |  6 ++++++
 sips/request.go | 12 +++++++-----
 sips/user.go    | 12 +++++++-----
 sips/via.go     |  2 +-
 4 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/sips/base.go b/sips/base.go
index 57e9156..534964e 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -12,6 +12,12 @@ const (
 	_FieldMethod
 )
 
+// inReference tells whether host is the beginning of an IPv6 reference, whose
+// colons do not start the port (RFC 3261 - 25.1).
+func inReference(host []byte) bool {
+	return len(host) > 0 && host[0] == '[' && host[len(host)-1] != ']'
+}
+
 // BaseLayer is a convenience struct which implements the LayerData and
 // LayerPayload functions of the Layer interface.
 type BaseLayer struct {
diff --git a/sips/request.go b/sips/request.go
index 5c28b45..a93b2b7 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -81,7 +81,7 @@ func NewSIPRequest(uri string) *SIPRequest {
 			user = append(user, uri[pos])
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && !inReference(host) {
 				state = _FieldPort
 				pos++
 				continue
@@ -97,10 +97,12 @@ func NewSIPRequest(uri string) *SIPRequest {
 
 	// without '@' it is the host part, only a telephone number has no host
 	if !hasUser && sr.URIType != "tel" {
-		hostPort := bytes.SplitN(user, []byte(":"), 2)
-		user, host = nil, hostPort[0]
-		if len(hostPort) > 1 {
-			port = hostPort[1]
+		host, user = user, nil
+		for i := range host {
+			if host[i] == ':' && !inReference(host[:i]) {
+				host, port = host[:i], host[i+1:]
+				break
+			}
 		}
 	}
 
diff --git a/sips/user.go b/sips/user.go
index 41db741..766960e 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -92,7 +92,7 @@ func NewSIPUser(uri string) *SIPUser {
 			user = append(user, uri[pos])
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && !inReference(host) {
 				state = _FieldPort
 				pos++
 				continue
@@ -108,10 +108,12 @@ func NewSIPUser(uri string) *SIPUser {
 
 	// without '@' it is the host part, only a telephone number has no host
 	if !hasUser && su.URIType != "tel" {
-		hostPort := bytes.SplitN(user, []byte(":"), 2)
-		user, host = nil, hostPort[0]
-		if len(hostPort) > 1 {
-			port = hostPort[1]
+		host, user = user, nil
+		for i := range host {
+			if host[i] == ':' && !inReference(host[:i]) {
+				host, port = host[:i], host[i+1:]
+				break
+			}
 		}
 	}
 
diff --git a/sips/via.go b/sips/via.go
index cb0ca91..1615b80 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -70,7 +70,7 @@ func NewSIPVia(uri string) *SIPVia {
 			}
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && !inReference(host) {
 				state = _FieldPort
 				pos++
 				continue
-- 
2.43.0


From 3fd4e6dbdd08ec479cb3fdab3fb20ae4990650e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:48 +0000
Subject: [PATCH 58/65] fix: take every SPS and PPS of an AVC configuration
 record, not only the first of each

---
 parser/h264/parser.go | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 15a5f5f..d433d9f 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -66,26 +66,39 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 	seq.reserved2 = src[5] >> 5
 
 	// 提取SPS
-	seq.spsNum = src[5] & 0x1f                /* [3:7]SPS数量, 一般为1 */
-	seq.spsLen = int(src[6])<<8 | int(src[7]) /* [0:15]SPS长度 */
-	if len(src[8:]) < seq.spsLen || seq.spsLen <= 0 {
-		return errors.New("incomplete sps data")
+	seq.spsNum = src[5] & 0x1f /* [3:7]SPS数量, 一般为1 */
+	tmpBuf := src[6:]
+	for i := uint8(0); i < seq.spsNum; i++ {
+		if len(tmpBuf) < 2 {
+			return errors.New("incomplete sps header")
+		}
+		seq.spsLen = int(tmpBuf[0])<<8 | int(tmpBuf[1]) /* [0:15]SPS长度 */
+		if len(tmpBuf[2:]) < seq.spsLen || seq.spsLen <= 0 {
+			return errors.New("incomplete sps data")
+		}
+		sps = append(sps, startCode...)
+		sps = append(sps, tmpBuf[2:(2+seq.spsLen)]...)
+		tmpBuf = tmpBuf[(2 + seq.spsLen):]
 	}
-	sps = append(sps, startCode...)
-	sps = append(sps, src[8:(8+seq.spsLen)]...)
 
 	// 提取PPS
-	tmpBuf := src[(8 + seq.spsLen):]
-	if len(tmpBuf) < 4 {
+	if len(tmpBuf) < 1 {
 		return errors.New("incomplete pps header")
 	}
-	seq.ppsNum = tmpBuf[0]                          /* PPS数量 */
-	seq.ppsLen = int(tmpBuf[1])<<8 | int(tmpBuf[2]) /* [0:15]PPS长度 */
-	if len(tmpBuf[3:]) < seq.ppsLen || seq.ppsLen <= 0 {
-		return errors.New("incomplete pps data")
+	seq.ppsNum = tmpBuf[0] /* PPS数量 */
+	tmpBuf = tmpBuf[1:]
+	for i := uint8(0); i < seq.ppsNum; i++ {
+		if len(tmpBuf) < 2 {
+			return errors.New("incomplete pps header")
+		}
+		seq.ppsLen = int(tmpBuf[0])<<8 | int(tmpBuf[1]) /* [0:15]PPS长度 */
+		if len(tmpBuf[2:]) < seq.ppsLen || seq.ppsLen <= 0 {
+			return errors.New("incomplete pps data")
+		}
+		pps = append(pps, startCode...)
+		pps = append(pps, tmpBuf[2:(2+seq.ppsLen)]...)
+		tmpBuf = tmpBuf[(2 + seq.ppsLen):]
 	}
-	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:(3+seq.ppsLen)]...)
 
 	// 向specificInfo填充SPS和PPS
 	p.specificInfo = append(p.specificInfo[:0], sps...)
-- 
2.43.0


From 4be629da934ea9f83e5a123219f38cdf207daed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 59/65] fix: cut AVC packets with the NAL length size of the
 configuration record

---
 parser/h264/parser.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index d433d9f..a43aa4e 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -11,12 +11,14 @@ import (
 type Parser struct {
 	specificInfo []byte        /* {0: sps, 1: pps}, 均包含start code */
 	spsPps       *bytes.Buffer /* sps和pps共用, 均包含start code */
+	lengthSize   int           /* nalu长度字段的字节数, 由序列头给出, 默认为4 */
 }
 
 // NewParser 初始化h264解析器(pps/sps)
 func NewParser() *Parser {
 	return &Parser{
-		spsPps: bytes.NewBuffer(make([]byte, maxSpsPpsLen)),
+		spsPps:     bytes.NewBuffer(make([]byte, maxSpsPpsLen)),
+		lengthSize: naluBytesLen,
 	}
 }
 
@@ -103,6 +105,7 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 	// 向specificInfo填充SPS和PPS
 	p.specificInfo = append(p.specificInfo[:0], sps...)
 	p.specificInfo = append(p.specificInfo, pps...)
+	p.lengthSize = int(seq.naluLen)
 
 	return nil
 }
@@ -118,12 +121,12 @@ func (p *Parser) isStartAtNaluHeader(src []byte) bool {
 
 // [AVCC格式] 提取NALU的长度
 func (p *Parser) naluSize(src []byte) (int, error) {
-	if len(src) < naluBytesLen {
+	if len(src) < p.lengthSize {
 		return 0, errors.New("[hvcc]incomplete nalu data")
 	}
 
-	// [0:31] nalu单元的长度，不包括长度字段
-	buf := src[:naluBytesLen]
+	// nalu单元的长度，不包括长度字段
+	buf := src[:p.lengthSize]
 	l := len(buf)
 
 	var size = 0
@@ -138,7 +141,7 @@ func (p *Parser) naluSize(src []byte) (int, error) {
 func (p *Parser) getAnnexbH264(src []byte, w io.Writer) error {
 	dataSize := len(src)
 
-	if dataSize == 0 || dataSize < naluBytesLen {
+	if dataSize == 0 || dataSize < p.lengthSize {
 		return errors.New("incomplete h264 header")
 	}
 
@@ -167,10 +170,10 @@ func (p *Parser) getAnnexbH264(src []byte, w io.Writer) error {
 			return errors.New("invalid nalu body size")
 		}
 
-		index += naluBytesLen
-		dataSize -= naluBytesLen
+		index += p.lengthSize
+		dataSize -= p.lengthSize
 
-		// 紧跟着 Nalu size 后面的是 NALU 数据，没有四个字节 start code，直接从 h264 头开始
+		// 紧跟着 Nalu size 后面的是 NALU 数据，没有 start code，直接从 h264 头开始
 		if dataSize < nalLen {
 			return errors.New("invalid nalu body")
 		}
-- 
2.43.0


From ec8bfa35bbc838e692dd796629be94c11f604450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:11 +0000
Subject: [PATCH 60/65] fix: recognise the scheme of a SIP address in any
 letter case

---
 sips/request.go | 8 ++++----
 sips/user.go    | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sips/request.go b/sips/request.go
index a93b2b7..5e874d7 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -55,18 +55,18 @@ func NewSIPRequest(uri string) *SIPRequest {
 		switch state {
 		case _FieldBase:
 
-			str := Substring(uri, pos, pos+4)
+			str := strings.ToLower(Substring(uri, pos, pos+4))
 			if str == "sip:" || str == "tel:" {
 				state = _FieldUser
-				sr.URIType = uri[pos : pos+3]
+				sr.URIType = str[:3]
 				pos = pos + 4
 				continue
 			}
 
-			str = Substring(uri, pos, pos+5)
+			str = strings.ToLower(Substring(uri, pos, pos+5))
 			if str == "sips:" {
 				state = _FieldUser
-				sr.URIType = uri[pos : pos+4]
+				sr.URIType = str[:4]
 				pos = pos + 5
 				continue
 			}
diff --git a/sips/user.go b/sips/user.go
index 766960e..3d4de56 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -66,18 +66,18 @@ func NewSIPUser(uri string) *SIPUser {
 		switch state {
 		case _FieldBase:
 
-			str := Substring(uri, pos, pos+4)
+			str := strings.ToLower(Substring(uri, pos, pos+4))
 			if str == "sip:" || str == "tel:" {
 				state = _FieldUser
-				su.URIType = uri[pos : pos+3]
+				su.URIType = str[:3]
 				pos = pos + 4
 				continue
 			}
 
-			str = Substring(uri, pos, pos+5)
+			str = strings.ToLower(Substring(uri, pos, pos+5))
 			if str == "sips:" {
 				state = _FieldUser
-				su.URIType = uri[pos : pos+4]
+				su.URIType = str[:4]
 				pos = pos + 5
 				continue
 			}
-- 
2.43.0


From 2c06e49751a87d27a70eeea7b9fdc5855faf50c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 61/65] fix: keep the cached FLV headers when saving a new one
 is refused

---
 container/flv/mixer.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/container/flv/mixer.go b/container/flv/mixer.go
index 316677a..47a2815 100644
--- a/container/flv/mixer.go
+++ b/container/flv/mixer.go
@@ -48,13 +48,13 @@ func (m *Mixer) Mux(p *packet.Packet, pts uint32) error {
 
 // SaveMetadata 保存元数据
 func (m *Mixer) SaveMetadata(md amf.Object) error {
-	m.cache.metadata.Reset()
-
 	mdPkt, err := m.muxer.metadata(md)
 	if err != nil {
 		return err
 	}
 
+	m.cache.metadata.Reset()
+
 	_, err = m.cache.metadata.Write(mdPkt)
 	if err != nil {
 		return err
@@ -65,20 +65,36 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 
 // SaveAVCHeader 保存AVC序列头
 func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
+	seqHdr := bytes.NewBuffer(make([]byte, 0, 512))
+
+	// 序列头pts为0, 作为视频的开端
+	err := m.muxer.mux(p, 0, seqHdr)
+	if err != nil {
+		return err
+	}
+
+	// 更新缓存
 	m.cache.types.IsVideo()
-	m.cache.avcSeqHdr.Reset()
+	m.cache.avcSeqHdr = seqHdr
 
-	// 复位缓存(序列头pts为0, 作为视频的开端)
-	return m.muxer.mux(p, 0, m.cache.avcSeqHdr)
+	return nil
 }
 
 // SaveAACHeader 保存AAC序列头
 func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
+	seqHdr := bytes.NewBuffer(make([]byte, 0, 512))
+
+	// 序列头pts为0, 作为音频的开端
+	err := m.muxer.mux(p, 0, seqHdr)
+	if err != nil {
+		return err
+	}
+
+	// 更新缓存
 	m.cache.types.IsAudio()
-	m.cache.aacSeqHdr.Reset()
+	m.cache.aacSeqHdr = seqHdr
 
-	// 复位缓存(序列头pts为0, 作为音频的开端)
-	return m.muxer.mux(p, 0, m.cache.aacSeqHdr)
+	return nil
 }
 
 // SetFlvHeader 设置FLV的头部数据，每次调用都会增加TS头部计数
-- 
2.43.0


From d4d87f7157c30daee364f737a00d6aa79f916637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 62/65] fix: recognise the protocol of a Via value in any
 letter case

---
 sips/via.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sips/via.go b/sips/via.go
index 1615b80..748773a 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -1,7 +1,10 @@
 // sips ref https://github.com/marv2097/siprocket/blob/master/sipVia.go
 package sips
 
-import "bytes"
+import (
+	"bytes"
+	"strings"
+)
 
 // SIPVia a single line that is in the format of a Via line
 //
@@ -53,7 +56,7 @@ func NewSIPVia(uri string) *SIPVia {
 			// contain a branch parameter.  This parameter is used to identify the
 			// transaction created by that request.  This parameter is used by both
 			// the client and the server.
-			str := Substring(uri, pos, pos+8)
+			str := strings.ToUpper(Substring(uri, pos, pos+8))
 			if str == "SIP/2.0/" {
 
 				state = _FieldHost
-- 
2.43.0


From b71dfb0ef9e6badc9e7da3b7dfe04176d68adbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 63/65] fix: recognise the status line of a response in any
 letter case

---
 sips/request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/request.go b/sips/request.go
index 5e874d7..dcc03a9 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -186,7 +186,7 @@ func (s *SIP) ParseFirstLine(firstLine []byte) error {
 	}
 
 	// Determine the SIP packet type
-	if strings.HasPrefix(splits[0], "SIP") {
+	if strings.HasPrefix(strings.ToUpper(splits[0]), "SIP") {
 
 		// --> Response
 		s.IsResponse = true
-- 
2.43.0


From 91dd97e4c3ed90fec65efd344e1140a0ca4a878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 64/65] fix: count SIP body bytes that arrive together with a
 read error

---
 sips/sips.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index 6a3d1c5..1ee43f5 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -84,23 +84,17 @@ func (s *SIP) fillBody(r *bufio.Reader) ([]byte, error) {
 		}
 
 		n, err := r.Read(buf)
+
+		// the bytes read count even if they come with an error
+		size -= n
+		body = append(body, buf[:n]...)
 		if err != nil {
-			if err != io.EOF {
+			if err != io.EOF && size > 0 {
 				return nil, err
 			}
 
-			if n == 0 {
-				break
-			}
-
-			// save remain byte
-			size -= n
-			body = append(body, buf[:n]...)
 			break
 		}
-
-		size -= n
-		body = append(body, buf[:n]...)
 	}
 
 	return body, nil
-- 
2.43.0


From b580656d94819949c1cdfc104083e6e3a0205e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 65/65] fix: keep the milliseconds of AMF dates

---
 amf/amf0.go   | 2 +-
 amf/amf3.go   | 9 ++++++---
 amf/helper.go | 6 ++++++
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index b70b953..2183a12 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -630,7 +630,7 @@ func (ed *EnDecAMF0) encodeDate(w io.Writer, val time.Time) (int, error) {
 	}
 	n := 1
 
-	err = binary.Write(w, binary.BigEndian, float64(val.Unix())*1000.0)
+	err = binary.Write(w, binary.BigEndian, unixMilli(val))
 	if err != nil {
 		return 0, err
 	}
diff --git a/amf/amf3.go b/amf/amf3.go
index 51077b8..29e2a54 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 	"sort"
 	"time"
@@ -229,8 +230,10 @@ func (ed *EnDecAMF3) decodeDate(r io.Reader) (time.Time, error) {
 		return time.Time{}, fmt.Errorf("unable to read double: %s", err)
 	}
 
-	// 将毫秒转换为秒
-	result := time.Unix(int64(f64/1000), 0).UTC()
+	// 毫秒由秒和不足一秒的部分组成
+	sec := math.Floor(f64 / 1000)
+	nsec := (f64 - sec*1000) * float64(time.Millisecond)
+	result := time.Unix(int64(sec), int64(nsec)).UTC()
 	ed.deObjTable = append(ed.deObjTable, result)
 
 	return result, nil
@@ -734,7 +737,7 @@ func (ed *EnDecAMF3) encodeDate(w io.Writer, val time.Time) (int, error) {
 	}
 	n++
 
-	u64 := float64(val.Unix()) * 1000.0
+	u64 := unixMilli(val)
 	err = binary.Write(w, binary.BigEndian, &u64)
 	if err != nil {
 		return 0, err
diff --git a/amf/helper.go b/amf/helper.go
index 3bc1be1..79ae27b 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"time"
 )
 
 // maxPreallocLen 一次性分配内存的上限
@@ -33,6 +34,11 @@ type Encoder interface {
 	EncodeBatch(w io.Writer, args ...interface{}) error
 }
 
+// 日期以毫秒表示
+func unixMilli(t time.Time) float64 {
+	return float64(t.Unix())*1000.0 + float64(t.Nanosecond()/int(time.Millisecond))
+}
+
 // 写1字节
 func writeByte(w io.Writer, b byte) error {
 	bytes := make([]byte, 1)
-- 
2.43.0

