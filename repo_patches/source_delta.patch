From c52f739dce4061940010d73bdebfd5c39a33405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 01/47] fix: decode CN2 of EGTS_SR_COUNTERS_DATA into the
 second counter

---
 libs/egts/egts_sr_counters_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index ebae25d..454cdc0 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -65,7 +65,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
-		c.Counter1 = binary.LittleEndian.Uint32(counterVal)
+		c.Counter2 = binary.LittleEndian.Uint32(counterVal)
 	}
 
 	if c.CounterFieldExists3 == "1" {
-- 
2.43.0


From ac2905a5630f46bea4baeb15ac7375917541332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 02/47] fix: encode analog sensor flags of
 EGTS_SR_AD_SENSORS_DATA in the order they are decoded

---
 libs/egts/egts_sr_ad_sensors_data.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 2b7f651..85fa38c 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -234,14 +234,14 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать битовые флаги дискретных выходов: %v", err)
 	}
 
-	flagsBits = e.AnalogSensorFieldExists1 +
-		e.AnalogSensorFieldExists2 +
-		e.AnalogSensorFieldExists3 +
-		e.AnalogSensorFieldExists4 +
-		e.AnalogSensorFieldExists5 +
-		e.AnalogSensorFieldExists6 +
+	flagsBits = e.AnalogSensorFieldExists8 +
 		e.AnalogSensorFieldExists7 +
-		e.AnalogSensorFieldExists8
+		e.AnalogSensorFieldExists6 +
+		e.AnalogSensorFieldExists5 +
+		e.AnalogSensorFieldExists4 +
+		e.AnalogSensorFieldExists3 +
+		e.AnalogSensorFieldExists2 +
+		e.AnalogSensorFieldExists1
 
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов ad_sesor_data: %v", err)
-- 
2.43.0


From 8cd9f8f2af8df8d74c050db67c84d3d2b124cea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 03/47] fix: read three bytes of altitude in EGTS_SR_POS_DATA

---
 libs/egts/egts_sr_pos_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 3f823db..1ddd9c4 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -119,7 +119,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf); err != nil {
+		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
-- 
2.43.0


From 54c763cd47860522583d06ee1c84763c6e8f22ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 04/47] fix: reject packets whose header length does not match
 the header

---
 libs/egts/egts_pkg.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index c40d6cb..59d7554 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -101,6 +101,10 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить crc заголовка: %v", err)
 	}
 
+	if int(p.HeaderLength) != len(content)-buf.Len() {
+		return egtsPcIncHeaderform, fmt.Errorf("Не верная длина заголовка пакета: %d", p.HeaderLength)
+	}
+
 	if p.HeaderCheckSum != crc8(content[:p.HeaderLength-1]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
-- 
2.43.0


From 03e26f7cd3b9a9e43e9d113e5c721cb5f4ac7bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 05/47] fix: do not overflow the end of the body when its
 checksum is verified

---
 libs/egts/egts_pkg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 59d7554..4ce309b 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -134,7 +134,7 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
-	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:uint16(p.HeaderLength)+p.FrameDataLength]) {
+	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:int(p.HeaderLength)+int(p.FrameDataLength)]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
-- 
2.43.0


From ee7b8bfc2df80ce884fdb2168a0ce4959675c380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 06/47] fix: report a wrong body checksum as a data checksum
 error

---
 libs/egts/egts_pkg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 4ce309b..f54cc73 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -135,7 +135,7 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
 	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:int(p.HeaderLength)+int(p.FrameDataLength)]) {
-		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
+		return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
 }
-- 
2.43.0


From b3fd5b821bf78be858a072905d1893b6b3546d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 07/47] fix: reject packets with a truncated body or body
 checksum

---
 libs/egts/egts_pkg.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index f54cc73..50d3c8c 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -109,6 +109,10 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
 
+	if buf.Len() < int(p.FrameDataLength)+2 {
+		return egtsPcIncDataform, fmt.Errorf("Не полное тело пакета: %d байт", buf.Len())
+	}
+
 	dataFrameBytes := make([]byte, p.FrameDataLength)
 	if _, err = buf.Read(dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
-- 
2.43.0


From db8e450995ab4d8b2cde5ae196ab88f88439d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 08/47] fix: reject records and subrecords longer than the data
 they are in

---
 libs/egts/record_data.go          | 6 ++++++
 libs/egts/service_data_records.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index bbcf14d..a6c250c 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -28,11 +28,17 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 			return fmt.Errorf("Не удалось получить тип записи subrecord data: %v", err)
 		}
 
+		if buf.Len() < 2 {
+			return fmt.Errorf("Не полная длина записи subrecord data")
+		}
 		tmpIntBuf := make([]byte, 2)
 		if _, err = buf.Read(tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить длину записи subrecord data: %v", err)
 		}
 		rd.SubrecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
+		if buf.Len() < int(rd.SubrecordLength) {
+			return fmt.Errorf("Длина subrecord data больше оставшихся данных: %d", rd.SubrecordLength)
+		}
 
 		subRecordBytes := buf.Next(int(rd.SubrecordLength))
 
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 7a5b635..b36baf8 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -95,6 +95,9 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		}
 
 		if buf.Len() != 0 {
+			if buf.Len() < int(sdr.RecordLength) {
+				return fmt.Errorf("Длина записи SDR больше оставшихся данных: %d", sdr.RecordLength)
+			}
 			rds := RecordDataSet{}
 			rdsBytes := make([]byte, sdr.RecordLength)
 			if _, err = buf.Read(rdsBytes); err != nil {
-- 
2.43.0


From ec8e0a791c48686b7276cc5245bf3eff688e7a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 09/47] fix: reject subrecords shorter than their fields
 require

---
 libs/egts/record_data.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index a6c250c..ea42338 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -86,12 +86,27 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 		if err = rd.SubrecordData.Decode(subRecordBytes); err != nil {
 			return err
 		}
+
+		if !hasFreeLayout(rd.SubrecordData) && int(rd.SubrecordData.Length()) > len(subRecordBytes) {
+			return fmt.Errorf("Не полные данные подзаписи: %d. Длина: %d. Содержимое: %X", rd.SubrecordType, rd.SubrecordLength, subRecordBytes)
+		}
 		*rds = append(*rds, rd)
 	}
 
 	return err
 }
 
+//hasFreeLayout определяет подзаписи, размер которых не задан их полями
+func hasFreeLayout(data BinaryData) bool {
+	switch d := data.(type) {
+	case *StorageRecord:
+		return true
+	case *SrLiquidLevelSensor:
+		return d.RawDataFlag == "1"
+	}
+	return false
+}
+
 //Encode преобразовывает подзапись в набор байт
 func (rds *RecordDataSet) Encode() ([]byte, error) {
 	var (
-- 
2.43.0


From 15116f51bda4c25ea5d07e3928962e35e3418aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 10/47] fix: report malformed flags when EGTS_SR_TERM_IDENTITY
 is encoded

---
 libs/egts/egts_sr_term_identity.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 9b8fcb3..8f521a0 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -128,6 +128,9 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	flags, err = strconv.ParseUint(e.MNE+e.BSE+e.NIDE+e.SSRA+e.LNGCE+e.IMSIE+e.IMEIE+e.HDIDE, 2, 8)
+	if err != nil {
+		return result, fmt.Errorf("Не удалось сгенерировать байт флагов term identify: %v", err)
+	}
 	if err = buf.WriteByte(uint8(flags)); err != nil {
 		return result, fmt.Errorf("Не удалось записать байт флагов term identify: %v", err)
 	}
-- 
2.43.0


From 9382c7f8d694586a20d5bf41f7a2440e73601f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 11/47] fix: pad the phone number of EGTS_SR_TERM_IDENTITY to
 its fixed width

---
 libs/egts/egts_sr_term_identity.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 8f521a0..bd8ae67 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -182,9 +182,14 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	if e.MNE == "1" {
-		if _, err = buf.Write([]byte(e.MobileNumber)); err != nil {
+		wbb := 0
+		if wbb, err = buf.Write([]byte(e.MobileNumber)); err != nil {
 			return result, fmt.Errorf("Не удалось записать телефонный номер мобильного абонента")
 		}
+		if wbb < 15 {
+			tmp := make([]byte, 15-wbb)
+			buf.Write(tmp)
+		}
 	}
 
 	result = buf.Bytes()
-- 
2.43.0


From 6a6a4e8e3e7e409b6b7c09e7f8261e9d2d4b51f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 12/47] fix: infer the type of EGTS_SR_DISPATCHER_IDENTITY like
 that of other subrecords

---
 libs/egts/record_data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index ea42338..9794e28 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -144,6 +144,8 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 				rd.SubrecordType = SrEgtsPlusDataType
 			case *SrAbsAnSensData:
 				rd.SubrecordType = SrAbsAnSensDataType
+			case *SrDispatcherIdentity:
+				rd.SubrecordType = SrDispatcherIdentityType
 			default:
 				return result, fmt.Errorf("не известен код для данного типа подзаписи")
 			}
-- 
2.43.0


From aa449570834b4268ac01caff53e1d3fdb92ea721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 13/47] fix: refuse to encode sections too long for their
 length fields

---
 libs/egts/egts_pkg.go             | 4 ++++
 libs/egts/record_data.go          | 4 ++++
 libs/egts/service_data_records.go | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 50d3c8c..efb4aa7 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 )
 
@@ -192,6 +193,9 @@ func (p *Package) Encode() ([]byte, error) {
 			return result, err
 		}
 	}
+	if len(sfrd) > math.MaxUint16 {
+		return result, fmt.Errorf("Слишком длинная секция данных: %d байт", len(sfrd))
+	}
 	p.FrameDataLength = uint16(len(sfrd))
 	if err = binary.Write(buf, binary.LittleEndian, p.FrameDataLength); err != nil {
 		return result, fmt.Errorf("Не удалось записать длину секции данных: %v", err)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 9794e28..65b59f1 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 )
 
 //RecordData структура секции подзапси у записи ServiceDataRecord
@@ -166,6 +167,9 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 		if err != nil {
 			return result, err
 		}
+		if len(srd) > math.MaxUint16 {
+			return result, fmt.Errorf("Слишком длинная подзапись: %d байт", len(srd))
+		}
 		buf.Write(srd)
 	}
 
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index b36baf8..7c42c08 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"strconv"
 )
 
@@ -130,6 +131,10 @@ func (s *ServiceDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
+		if len(rd) > math.MaxUint16 {
+			return result, fmt.Errorf("Слишком длинная запись SDR: %d байт", len(rd))
+		}
+
 		if sdr.RecordLength == 0 {
 			sdr.RecordLength = uint16(len(rd))
 		}
-- 
2.43.0


From 46de1f436cc057337e1d6fff94f6e82cbc8a3cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 14/47] fix: do not overflow the packet length computed from
 the header

---
 cli/receiver/server/server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index e21f310..6ece09f 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -94,9 +94,13 @@ func (s *Server) handleConn(conn net.Conn) {
 
 			// вычисляем длину пакета, равную длине заголовка (HL) + длина тела (FDL) + CRC пакета 2 байта если есть FDL из приказа минтранса №285
 			bodyLen := binary.LittleEndian.Uint16(headerBuf[5:7])
-			pkgLen := uint16(headerBuf[3])
+			pkgLen := int(headerBuf[3])
 			if bodyLen > 0 {
-				pkgLen += bodyLen + 2
+				pkgLen += int(bodyLen) + 2
+			}
+			if pkgLen < headerLen {
+				log.WithField("ip", conn.RemoteAddr()).Warn("Не корректная длина пакета ЕГТС. Закрыто соединение")
+				return
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-- 
2.43.0


From ece9a70c9411267c063e22a8eff762ff00d00c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 15/47] fix: send the authorisation result code as a data
 packet

---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 6ece09f..be57f65 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -413,7 +413,7 @@ func createSrResultCode(pid uint16, resultCode uint8) ([]byte, error) {
 		HeaderEncoding:    0,
 		FrameDataLength:   sfd.Length(),
 		PacketIdentifier:  pid + 1,
-		PacketType:        egts.PtResponsePacket,
+		PacketType:        egts.PtAppdataPacket,
 		ServicesFrameData: &sfd,
 	}
 
-- 
2.43.0


From b826041fc96eca793f7e81837968fafc4e3ae413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 16/47] fix: export southern latitudes and western longitudes
 as negative

---
 cli/receiver/server/server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index be57f65..4c69750 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -205,6 +205,14 @@ func (s *Server) handleConn(conn net.Conn) {
 							NavigationDt: subRecData.NavigationTime.Format(time.RFC3339),
 						}
 
+						// в протоколе координаты передаются по модулю, полушарие задано флагами
+						if subRecData.LAHS == "1" {
+							locData.Latitude = -locData.Latitude
+						}
+						if subRecData.LOHS == "1" {
+							locData.Longitude = -locData.Longitude
+						}
+
 						exportPacket.LocStates = append(exportPacket.LocStates, locData)
 						exportPacket.LocStatesCount++
 
-- 
2.43.0


From 2d7158a2bb68ea1ef394bda19d196a351abbd88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 17/47] fix: keep the byte order of the record number sent in
 counters 110 and 111

---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 4c69750..23708f8 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -263,7 +263,7 @@ func (s *Server) handleConn(conn net.Conn) {
 						switch subRecData.CounterNumber {
 						case 110:
 							// Три младших байта номера передаваемой записи (идет вместе с каждой POS_DATA).
-							binary.BigEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
+							binary.LittleEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
 							exportPacket.PacketID = subRecData.CounterValue
 						case 111:
 							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
-- 
2.43.0


From 68ab8145a43d9f66b08fd068b5f22a7d1a861742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 18/47] fix: do not acknowledge telemetry that could not be
 saved

---
 cli/receiver/server/server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 23708f8..3084ced 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -12,8 +12,9 @@ import (
 )
 
 const (
-	egtsPcOk  = 0
-	headerLen = 10
+	egtsPcOk      = 0
+	egtsPcIoError = 155
+	headerLen     = 10
 )
 
 type Server struct {
@@ -305,6 +306,9 @@ func (s *Server) handleConn(conn net.Conn) {
 			if isPkgSave {
 				if err := s.store.Save(&exportPacket); err != nil {
 					log.WithField("err", err).Error("Ошибка сохранения телеметрии")
+					// не подтверждаем записи, чтобы терминал передал их повторно
+					resultCode = egtsPcIoError
+					srResponsesRecord = nil
 				}
 			}
 
-- 
2.43.0


From e9e3cdd228b415ec625ca7e2971134af249c7130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 19/47] fix: return from Run when the server is stopped

---
 cli/receiver/server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 3084ced..a8fdfdd 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 	"net"
 	"time"
@@ -37,6 +38,9 @@ func (s *Server) Run() {
 	log.Infof("Запущен сервер %s...", s.addr)
 	for {
 		conn, err := s.l.Accept()
+		if errors.Is(err, net.ErrClosed) {
+			return
+		}
 		if err != nil {
 			log.WithField("err", err).Errorf("Ошибка соединения")
 		} else {
-- 
2.43.0


From bb2f030d271773b8b9955b90332283c32bb79ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 20/47] fix: close connections that stay idle longer than
 conn_ttl

---
 cli/receiver/server/server.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index a8fdfdd..8807bf7 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -57,6 +57,21 @@ func (s *Server) Stop() error {
 	return nil
 }
 
+// idleReader читает из соединения, ограничивая время ожидания очередных данных
+type idleReader struct {
+	conn net.Conn
+	ttl  time.Duration
+}
+
+func (r *idleReader) Read(b []byte) (int, error) {
+	if r.ttl > 0 {
+		if err := r.conn.SetReadDeadline(time.Now().Add(r.ttl)); err != nil {
+			return 0, err
+		}
+	}
+	return r.conn.Read(b)
+}
+
 func (s *Server) handleConn(conn net.Conn) {
 	defer conn.Close()
 
@@ -73,6 +88,7 @@ func (s *Server) handleConn(conn net.Conn) {
 		return
 	}
 	log.WithField("ip", conn.RemoteAddr()).Info("Установлено соединение")
+	reader := &idleReader{conn: conn, ttl: s.ttl}
 
 	for {
 	Received:
@@ -85,7 +101,7 @@ func (s *Server) handleConn(conn net.Conn) {
 
 		// считываем заголовок пакета
 		headerBuf := make([]byte, headerLen)
-		_, err := io.ReadFull(conn, headerBuf)
+		_, err := io.ReadFull(reader, headerBuf)
 
 		switch err {
 		case nil:
@@ -109,7 +125,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-			if _, err := io.ReadFull(conn, buf); err != nil {
+			if _, err := io.ReadFull(reader, buf); err != nil {
 				log.WithField("err", err).Error("Ошибка при получении тела пакета")
 				return
 			}
-- 
2.43.0


From d03b825bafbc592cfc43562d3d53ed143dac0c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 21/47] fix: offer a record to every store even if one of them
 fails

---
 cli/receiver/storage/store.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/storage/store.go b/cli/receiver/storage/store.go
index a0b0127..1ca5bf1 100644
--- a/cli/receiver/storage/store.go
+++ b/cli/receiver/storage/store.go
@@ -46,12 +46,13 @@ func (r *Repository) AddStore(s Saver) {
 
 //Save сохраняет данные во все установленные хранилища
 func (r *Repository) Save(m interface{ ToBytes() ([]byte, error) }) error {
+	var saveErr error
 	for _, store := range r.storages {
-		if err := store.Save(m); err != nil {
-			return err
+		if err := store.Save(m); err != nil && saveErr == nil {
+			saveErr = err
 		}
 	}
-	return nil
+	return saveErr
 }
 
 //LoadStorages загружает хранилища из структуры конфига
-- 
2.43.0


From 2bf1f233554707887d67cf8f9b2f3cf2c6533a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 22/47] fix: load every usable storage whatever the order of
 the sections

---
 cli/receiver/storage/store.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cli/receiver/storage/store.go b/cli/receiver/storage/store.go
index 1ca5bf1..dd2c0ba 100644
--- a/cli/receiver/storage/store.go
+++ b/cli/receiver/storage/store.go
@@ -61,7 +61,10 @@ func (r *Repository) LoadStorages(storages map[string]map[string]string) error {
 		return InvalidStorage
 	}
 
-	var db Store
+	var (
+		db      Store
+		loadErr error
+	)
 	for store, params := range storages {
 		switch store {
 		case "rabbitmq":
@@ -77,16 +80,18 @@ func (r *Repository) LoadStorages(storages map[string]map[string]string) error {
 		case "redis":
 			db = &redis.Connector{}
 		default:
-			return UnknownStorage
+			loadErr = UnknownStorage
+			continue
 		}
 
 		if err := db.Init(params); err != nil {
-			return err
+			loadErr = err
+			continue
 		}
 
 		r.AddStore(db)
 	}
-	return nil
+	return loadErr
 }
 
 //NewRepository создает пустой репозиторий
-- 
2.43.0


From 3f006f01be5f434606374d0d9dbc105240d74f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 23/47] fix: report a failed redis publish instead of panicking

---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index a7f2ae0..2706701 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -73,7 +73,7 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	}
 
 	if err := c.conn.Publish(context.Background(), c.queue, innerPkg).Err(); err != nil {
-		panic(err)
+		return fmt.Errorf("Не удалось отправить сообщение: %v", err)
 	}
 
 	return nil
-- 
2.43.0


From 570d55e6acb71a896388c0aef8dcc0a0037a4647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 24/47] fix: use redis database 0 when none is configured

---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index 2706701..e732b09 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -39,7 +39,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("не задан адрес redis сервера")
 	}
 
-	configDb, _ := c.config["db"]
+	configDb, ok := c.config["db"]
 	if !ok {
 		configDb = "0"
 	}
-- 
2.43.0


From 3185de05bcf5b6b2a4fe849b79d4f5a889f45a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 25/47] fix: exit with status 0 when the generated packet is
 acknowledged

---
 cli/packet-gen/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index ed73be7..d484199 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -221,5 +221,4 @@ func main() {
 	}
 
 	fmt.Println("Packet sent and processed correct")
-	os.Exit(1)
 }
-- 
2.43.0


From abb5ef78ebd39e0fd468d961d2be8aa29d1673bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 26/47] fix: send the navigation time given to the packet
 generator

---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index d484199..62e8e9e 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -113,7 +113,7 @@ func main() {
 					egts.RecordData{
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
-							NavigationTime:      time.Date(2021, time.February, 20, 0, 30, 40, 0, time.UTC),
+							NavigationTime:      timestamp,
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
-- 
2.43.0


From e600124ae80ccafb938e0c0ca1d88916146d2a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 27/47] fix: wait for the acknowledgement five seconds by
 default as documented

---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 62e8e9e..34b615c 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -58,7 +58,7 @@ func main() {
 	flag.IntVar(&liqLvl, "liquid", 0, "Liquid level for first sensor")
 	flag.Float64Var(&lat, "lat", 0, "Latitude")
 	flag.Float64Var(&lon, "lon", 0, "Longitude")
-	flag.IntVar(&ackTimeout, "timeout", 0, "Ack waiting time in seconds, Default: 5")
+	flag.IntVar(&ackTimeout, "timeout", 5, "Ack waiting time in seconds, Default: 5")
 	flag.StringVar(&server, "server", "localhost:5555", "Egts server address in format <ip>:<port>")
 
 	flag.Parse()
-- 
2.43.0


From e0ababd5f9ee5d0e23e87af60a2317af3867e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 28/47] fix: do not crash on a response without record statuses

---
 cli/packet-gen/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 34b615c..d545aa6 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -207,7 +207,12 @@ func main() {
 		os.Exit(1)
 	}
 
-	for _, rec := range *ack.SDR.(*egts.ServiceDataSet) {
+	records, ok := ack.SDR.(*egts.ServiceDataSet)
+	if !ok {
+		records = &egts.ServiceDataSet{}
+	}
+
+	for _, rec := range *records {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
 				if response, ok := subRec.SubrecordData.(*egts.SrResponse); ok {
-- 
2.43.0


From 73097426e30c5229b39be9121476ae114372dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 29/47] fix: send negative coordinates with the hemisphere
 flags of the protocol

---
 cli/packet-gen/main.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index d545aa6..b7bd428 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"github.com/ElectroUnion/egts-gate/libs/egts"
+	"math"
 	"net"
 	"os"
 	"time"
@@ -41,6 +42,14 @@ Example
 Created by Igor Kuznetsov
 */
 
+// hemisphere returns flag of southern or western hemisphere for coordinate
+func hemisphere(coordinate float64) string {
+	if coordinate < 0 {
+		return "1"
+	}
+	return "0"
+}
+
 func main() {
 
 	pid := 0
@@ -114,11 +123,11 @@ func main() {
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
 							NavigationTime:      timestamp,
-							Latitude:            lat,
-							Longitude:           lon,
+							Latitude:            math.Abs(lat),
+							Longitude:           math.Abs(lon),
 							ALTE:                "1",
-							LOHS:                "0",
-							LAHS:                "0",
+							LOHS:                hemisphere(lon),
+							LAHS:                hemisphere(lat),
 							MV:                  "1",
 							BB:                  "1",
 							CS:                  "0",
-- 
2.43.0


From 54872071db1121c3a8c1d18521e4fbbbea8a3b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 30/47] fix: read the whole acknowledgement when it arrives in
 several segments

---
 cli/packet-gen/main.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index b7bd428..dade9cb 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"encoding/binary"
 	"flag"
 	"fmt"
 	"github.com/ElectroUnion/egts-gate/libs/egts"
@@ -50,6 +51,14 @@ func hemisphere(coordinate float64) string {
 	return "0"
 }
 
+// ackPacketLen returns length of ack packet by its received part
+func ackPacketLen(received []byte) int {
+	if len(received) < egts.DEFAULT_HEADER_LEN {
+		return egts.DEFAULT_HEADER_LEN
+	}
+	return int(received[3]) + int(binary.LittleEndian.Uint16(received[5:7])) + 2
+}
+
 func main() {
 
 	pid := 0
@@ -186,10 +195,14 @@ func main() {
 	ackBuf := make([]byte, 1024)
 
 	_ = conn.SetReadDeadline(time.Now().Add(time.Duration(ackTimeout) * time.Second))
-	ackLen, err := conn.Read(ackBuf)
-	if err != nil {
-		fmt.Println("Read from server failed:", err)
-		os.Exit(1)
+	ackLen := 0
+	for ackLen < ackPacketLen(ackBuf[:ackLen]) && ackLen < len(ackBuf) {
+		n, err := conn.Read(ackBuf[ackLen:])
+		if err != nil {
+			fmt.Println("Read from server failed:", err)
+			os.Exit(1)
+		}
+		ackLen += n
 	}
 
 	ackPacket := egts.Package{}
-- 
2.43.0


From cc219bda21c74559d3e27291bcef6d693efb269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 31/47] fix: use the conn_ttl key the receiver reads in the
 example configuration

---
 README.md             | 2 +-
 configs/receiver.yaml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 41fe106..6ebb9d1 100644
--- a/README.md
+++ b/README.md
@@ -77,7 +77,7 @@ services:
 ```yaml
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
diff --git a/configs/receiver.yaml b/configs/receiver.yaml
index 943dc2a..c720f90 100644
--- a/configs/receiver.yaml
+++ b/configs/receiver.yaml
@@ -1,6 +1,6 @@
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
-- 
2.43.0


From 2d2a70e334cd9320bf81da6ee0f68d25b97dba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 32/47] fix: keep the object identifier when a later record of
 the packet omits it

---
 cli/receiver/server/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 8807bf7..05a05af 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -187,7 +187,9 @@ func (s *Server) handleConn(conn net.Conn) {
 				serviceType = rec.SourceServiceType
 				log.Info("Тип сервиса ", serviceType)
 
-				exportPacket.ClientID = rec.ObjectIdentifier
+				if rec.ObjectIDFieldExists == "1" {
+					exportPacket.ClientID = rec.ObjectIdentifier
+				}
 
 				for _, subRec := range rec.RecordDataSet {
 					switch subRecData := subRec.SubrecordData.(type) {
-- 
2.43.0


From 776dd9157e6b1435b1f0ad438925fd37670c897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 33/47] fix: accept acknowledgements longer than 1024 bytes

---
 cli/packet-gen/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index dade9cb..77694a2 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -43,6 +43,9 @@ Example
 Created by Igor Kuznetsov
 */
 
+// maxAckLen is the greatest length of header, frame data and its checksum
+const maxAckLen = math.MaxUint8 + math.MaxUint16 + 2
+
 // hemisphere returns flag of southern or western hemisphere for coordinate
 func hemisphere(coordinate float64) string {
 	if coordinate < 0 {
@@ -192,7 +195,7 @@ func main() {
 		os.Exit(1)
 	}
 
-	ackBuf := make([]byte, 1024)
+	ackBuf := make([]byte, maxAckLen)
 
 	_ = conn.SetReadDeadline(time.Now().Add(time.Duration(ackTimeout) * time.Second))
 	ackLen := 0
-- 
2.43.0


From 030563210a57c7ccd19a85afee03a0c59fd3250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 34/47] fix: refuse packet generator arguments the packet
 cannot hold

---
 cli/packet-gen/main.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 77694a2..3cd3383 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -104,6 +104,32 @@ func main() {
 		os.Exit(1)
 	}
 
+	if pid < 0 || pid > math.MaxUint16 {
+		fmt.Println("Packet identifier is out of range: ", pid)
+		os.Exit(1)
+	}
+
+	if oid < 0 || int64(oid) > math.MaxUint32 {
+		fmt.Println("Client identifier is out of range: ", oid)
+		os.Exit(1)
+	}
+
+	navTime := timestamp.Unix() - time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC).Unix()
+	if navTime < 0 || navTime > math.MaxUint32 {
+		fmt.Println("Timestamp is out of range: ", timestamp)
+		os.Exit(1)
+	}
+
+	if !(math.Abs(lat) <= 90) || !(math.Abs(lon) <= 180) {
+		fmt.Println("Coordinates are out of range: ", lat, lon)
+		os.Exit(1)
+	}
+
+	if liqLvl < 0 || int64(liqLvl) > math.MaxUint32 {
+		fmt.Println("Liquid level is out of range: ", liqLvl)
+		os.Exit(1)
+	}
+
 	egtsSendPacket := egts.Package{
 		ProtocolVersion:  1,
 		SecurityKeyID:    0,
-- 
2.43.0


From 9108ff7136a83fb28dc7984beccc9cb485151e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 35/47] fix: report a nats message the server did not take

---
 cli/receiver/storage/store/nats/connector.go | 22 ++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/cli/receiver/storage/store/nats/connector.go b/cli/receiver/storage/store/nats/connector.go
index 54a6dab..dcd7819 100644
--- a/cli/receiver/storage/store/nats/connector.go
+++ b/cli/receiver/storage/store/nats/connector.go
@@ -13,11 +13,13 @@ topic = "receiver"
 import (
 	"fmt"
 	natsLib "github.com/nats-io/nats.go"
+	"sync"
 )
 
 type Connector struct {
 	connection *natsLib.Conn
 	config     map[string]string
+	mu         sync.Mutex
 }
 
 func (c *Connector) Init(cfg map[string]string) error {
@@ -31,6 +33,9 @@ func (c *Connector) Init(cfg map[string]string) error {
 
 	var options = make([]natsLib.Option, 3)
 
+	// без соединения с сервером сообщения не накапливаются, а возвращается ошибка
+	options = append(options, natsLib.ReconnectBufSize(-1))
+
 	options = append(options, natsLib.Name(fmt.Sprintf("EGTS handler, topic: %s", c.config["topic"])))
 
 	if user, uOk := c.config["user"]; uOk {
@@ -55,9 +60,26 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		return fmt.Errorf("Ошибка сериализации  пакета: %v", err)
 	}
 
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	lastErr, reconnects := c.connection.LastError(), c.connection.Stats().Reconnects
 	if err = c.connection.Publish(c.config["topic"], innerPkg); err != nil {
 		return fmt.Errorf("Не удалось отправить сообщение в топик: %v", err)
 	}
+
+	// Publish только ставит сообщение в очередь на отправку, дожидаемся его обработки сервером
+	if err = c.connection.Flush(); err != nil {
+		return fmt.Errorf("Не удалось отправить сообщение в топик: %v", err)
+	}
+
+	if c.connection.Stats().Reconnects != reconnects {
+		return fmt.Errorf("Не удалось отправить сообщение в топик: соединение было разорвано")
+	}
+
+	if err = c.connection.LastError(); err != nil && err != lastErr {
+		return fmt.Errorf("Сервер не принял сообщение: %v", err)
+	}
 	return nil
 }
 
-- 
2.43.0


From 2cd439a8669a458b8b1a132dc664028d60326631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 36/47] fix: pass postgresql settings with spaces and quotes as
 configured

---
 cli/receiver/storage/store/postgresql/connector.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index 6db4bad..34ba357 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -19,8 +19,14 @@ import (
 	"database/sql"
 	"fmt"
 	_ "github.com/lib/pq"
+	"strings"
 )
 
+// connValue экранирует значение параметра для строки подключения
+func connValue(value string) string {
+	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(value) + "'"
+}
+
 type Connector struct {
 	connection *sql.DB
 	config     map[string]string
@@ -35,7 +41,8 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 	c.config = cfg
 	connStr := fmt.Sprintf("dbname=%s host=%s port=%s user=%s password=%s sslmode=%s",
-		c.config["database"], c.config["host"], c.config["port"], c.config["user"], c.config["password"], c.config["sslmode"])
+		connValue(c.config["database"]), connValue(c.config["host"]), connValue(c.config["port"]),
+		connValue(c.config["user"]), connValue(c.config["password"]), connValue(c.config["sslmode"]))
 	if c.connection, err = sql.Open("postgres", connStr); err != nil {
 		return fmt.Errorf("Ошибка подключения к postgresql: %v", err)
 	}
-- 
2.43.0


From 6be6d19fc0692412fb26aebdd962ef01d4679b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 37/47] fix: refuse nats, nsq, postgresql and tarantool
 settings without a destination

---
 cli/receiver/storage/store/nats/connector.go            | 4 ++++
 cli/receiver/storage/store/nsq/connector.go             | 7 +++++++
 cli/receiver/storage/store/postgresql/connector.go      | 5 +++++
 cli/receiver/storage/store/tarantool_queue/connector.go | 4 ++++
 4 files changed, 20 insertions(+)

diff --git a/cli/receiver/storage/store/nats/connector.go b/cli/receiver/storage/store/nats/connector.go
index dcd7819..15c46c2 100644
--- a/cli/receiver/storage/store/nats/connector.go
+++ b/cli/receiver/storage/store/nats/connector.go
@@ -31,6 +31,10 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 	c.config = cfg
 
+	if c.config["topic"] == "" {
+		return fmt.Errorf("Не задан топик nats")
+	}
+
 	var options = make([]natsLib.Option, 3)
 
 	// без соединения с сервером сообщения не накапливаются, а возвращается ошибка
diff --git a/cli/receiver/storage/store/nsq/connector.go b/cli/receiver/storage/store/nsq/connector.go
index 7468673..1f8298d 100644
--- a/cli/receiver/storage/store/nsq/connector.go
+++ b/cli/receiver/storage/store/nsq/connector.go
@@ -31,6 +31,13 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 	c.config = cfg
 
+	if c.config["server"] == "" {
+		return fmt.Errorf("Не задан адрес nsq сервера")
+	}
+	if c.config["topic"] == "" {
+		return fmt.Errorf("Не задан топик nsq")
+	}
+
 	log.Info("Connect to NSQ server:", c.config["server"])
 
 	config := nsq.NewConfig()
diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index 34ba357..2df663a 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -40,6 +40,11 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("Не корректная ссылка на конфигурацию")
 	}
 	c.config = cfg
+
+	if c.config["table"] == "" {
+		return fmt.Errorf("Не задана таблица postgresql")
+	}
+
 	connStr := fmt.Sprintf("dbname=%s host=%s port=%s user=%s password=%s sslmode=%s",
 		connValue(c.config["database"]), connValue(c.config["host"]), connValue(c.config["port"]),
 		connValue(c.config["user"]), connValue(c.config["password"]), connValue(c.config["sslmode"]))
diff --git a/cli/receiver/storage/store/tarantool_queue/connector.go b/cli/receiver/storage/store/tarantool_queue/connector.go
index 8c01b2e..ed06166 100644
--- a/cli/receiver/storage/store/tarantool_queue/connector.go
+++ b/cli/receiver/storage/store/tarantool_queue/connector.go
@@ -35,6 +35,10 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 
 	c.config = cfg
+	if c.config["queue"] == "" {
+		return fmt.Errorf("Не задана очередь tarantool")
+	}
+
 	conStr := fmt.Sprintf("%s:%s", c.config["host"], c.config["port"])
 
 	maxRecons, err := strconv.Atoi(c.config["max_recons"])
-- 
2.43.0


From cc8ea15887e0959e0ae38400bef73e130d151054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 38/47] fix: wait for rabbitmq to confirm a published record

---
 cli/receiver/storage/store/rabbitmq/connector.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 68da009..4be4455 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -16,12 +16,15 @@ exchange_type = "topic"
 import (
 	"fmt"
 	"github.com/streadway/amqp"
+	"sync"
 )
 
 type Connector struct {
 	connection *amqp.Connection
 	channel    *amqp.Channel
+	confirms   chan amqp.Confirmation
 	config     map[string]string
+	mu         sync.Mutex
 }
 
 func (c *Connector) Init(cfg map[string]string) error {
@@ -42,6 +45,11 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("Ошибка открытия канала RabbitMQ: %v", err)
 	}
 
+	if err = c.channel.Confirm(false); err != nil {
+		return fmt.Errorf("Ошибка включения подтверждений RabbitMQ: %v", err)
+	}
+	c.confirms = c.channel.NotifyPublish(make(chan amqp.Confirmation, 1))
+
 	return err
 }
 
@@ -55,6 +63,9 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		return fmt.Errorf("Ошибка сериализации  пакета: %v", err)
 	}
 
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
 	if err = c.channel.Publish(
 		c.config["exchange"],
 		c.config["key"],
@@ -66,6 +77,10 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		}); err != nil {
 		return fmt.Errorf("Ошибка отправки сырого пакета в RabbitMQ: %v", err)
 	}
+
+	if confirm, ok := <-c.confirms; !ok || !confirm.Ack {
+		return fmt.Errorf("RabbitMQ не подтвердил получение пакета")
+	}
 	return nil
 }
 
-- 
2.43.0


From 33c423df27cd64fe584de6dca2eaad550f8faf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 39/47] fix: escape rabbitmq credentials in the connection
 address

---
 cli/receiver/storage/store/rabbitmq/connector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 4be4455..35da75a 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -16,6 +16,7 @@ exchange_type = "topic"
 import (
 	"fmt"
 	"github.com/streadway/amqp"
+	"net/url"
 	"sync"
 )
 
@@ -36,7 +37,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 
 	c.config = cfg
-	conStr := fmt.Sprintf("amqp://%s:%s@%s:%s/", c.config["user"], c.config["password"], c.config["host"], c.config["port"])
+	conStr := fmt.Sprintf("amqp://%s@%s:%s/", url.UserPassword(c.config["user"], c.config["password"]), c.config["host"], c.config["port"])
 	if c.connection, err = amqp.Dial(conStr); err != nil {
 		return fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
 	}
-- 
2.43.0


From 9db36b35a66441053c3ee9cd9abc53acb03baa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 40/47] fix: compute the header length on every encoding of a
 packet

---
 libs/egts/egts_pkg.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index efb4aa7..df113d0 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -171,11 +171,10 @@ func (p *Package) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать флаги: %v", err)
 	}
 
-	if p.HeaderLength == 0 {
-		p.HeaderLength = DEFAULT_HEADER_LEN
-		if p.Route == "1" {
-			p.HeaderLength += 5
-		}
+	// состав заголовка зависит только от наличия полей маршрутизации
+	p.HeaderLength = DEFAULT_HEADER_LEN
+	if p.Route == "1" {
+		p.HeaderLength += 5
 	}
 
 	if err = buf.WriteByte(p.HeaderLength); err != nil {
-- 
2.43.0


From 8c849dcb3fa78c764903ae8a79ef9e7696348770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 41/47] fix: redis connector published a record again when the
 answer to it was lost

---
 cli/receiver/storage/store/redis/connector.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index e732b09..5dc9de5 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -49,10 +49,12 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("не корретное имя redis бд: %v", err)
 	}
 
+	// ответ на отправку может потеряться, повторная отправка продублирует сообщение
 	c.conn = redis.NewClient(&redis.Options{
-		Addr:     addr,
-		Password: c.config["password"],
-		DB:       db,
+		Addr:       addr,
+		Password:   c.config["password"],
+		DB:         db,
+		MaxRetries: -1,
 	})
 
 	c.queue, ok = c.config["queue"]
-- 
2.43.0


From 3d88f8fc5a524867d23f0bc15f578c0f1fa5542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 42/47] fix: postgresql connector inserted a record again when
 the answer to it was lost

---
 cli/receiver/storage/store/postgresql/connector.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index 2df663a..7d6920d 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -16,6 +16,7 @@ sslmode = "disable"
 */
 
 import (
+	"context"
 	"database/sql"
 	"fmt"
 	_ "github.com/lib/pq"
@@ -68,8 +69,15 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		return fmt.Errorf("Ошибка сериализации  пакета: %v", err)
 	}
 
+	// запрос через пул соединений при потере ответа повторяется и дублирует запись
+	conn, err := c.connection.Conn(context.Background())
+	if err != nil {
+		return fmt.Errorf("Не удалось получить соединение: %v", err)
+	}
+	defer conn.Close()
+
 	insertQuery := fmt.Sprintf("INSERT INTO %s (point) VALUES ($1)", c.config["table"])
-	if _, err = c.connection.Exec(insertQuery, innerPkg); err != nil {
+	if _, err = conn.ExecContext(context.Background(), insertQuery, innerPkg); err != nil {
 		return fmt.Errorf("Не удалось вставить запись: %v", err)
 	}
 	return nil
-- 
2.43.0


From f8c0e2f026390aaf086c554b6ade7cf5f9efd479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:32 +0000
Subject: [PATCH 43/47] fix: nats storage gives up reconnecting after an outage
 of two minutes

---
 cli/receiver/storage/store/nats/connector.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cli/receiver/storage/store/nats/connector.go b/cli/receiver/storage/store/nats/connector.go
index 15c46c2..9469617 100644
--- a/cli/receiver/storage/store/nats/connector.go
+++ b/cli/receiver/storage/store/nats/connector.go
@@ -40,6 +40,9 @@ func (c *Connector) Init(cfg map[string]string) error {
 	// без соединения с сервером сообщения не накапливаются, а возвращается ошибка
 	options = append(options, natsLib.ReconnectBufSize(-1))
 
+	// соединение восстанавливается и после долгой недоступности сервера
+	options = append(options, natsLib.MaxReconnects(-1))
+
 	options = append(options, natsLib.Name(fmt.Sprintf("EGTS handler, topic: %s", c.config["topic"])))
 
 	if user, uOk := c.config["user"]; uOk {
-- 
2.43.0


From ca0486e57a4d99ed3f70e23a86a1e1b650e45b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:32 +0000
Subject: [PATCH 44/47] fix: rabbitmq storage never reconnects after its
 connection or channel is lost

---
 .../storage/store/rabbitmq/connector.go       | 43 +++++++++++++++----
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 35da75a..591ca5f 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -29,29 +29,43 @@ type Connector struct {
 }
 
 func (c *Connector) Init(cfg map[string]string) error {
-	var (
-		err error
-	)
 	if cfg == nil {
 		return fmt.Errorf("Не корректная ссылка на конфигурацию")
 	}
 
 	c.config = cfg
+	return c.connect()
+}
+
+// connect устанавливает соединение и открывает канал
+func (c *Connector) connect() error {
 	conStr := fmt.Sprintf("amqp://%s@%s:%s/", url.UserPassword(c.config["user"], c.config["password"]), c.config["host"], c.config["port"])
-	if c.connection, err = amqp.Dial(conStr); err != nil {
+	connection, err := amqp.Dial(conStr)
+	if err != nil {
 		return fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
 	}
 
-	if c.channel, err = c.connection.Channel(); err != nil {
+	channel, err := connection.Channel()
+	if err != nil {
+		go connection.Close()
 		return fmt.Errorf("Ошибка открытия канала RabbitMQ: %v", err)
 	}
 
-	if err = c.channel.Confirm(false); err != nil {
+	if err = channel.Confirm(false); err != nil {
+		go connection.Close()
 		return fmt.Errorf("Ошибка включения подтверждений RabbitMQ: %v", err)
 	}
-	c.confirms = c.channel.NotifyPublish(make(chan amqp.Confirmation, 1))
 
-	return err
+	c.connection, c.channel = connection, channel
+	c.confirms = channel.NotifyPublish(make(chan amqp.Confirmation, 1))
+
+	return nil
+}
+
+// reset отказывается от неисправного соединения, следующее сохранение установит новое
+func (c *Connector) reset() {
+	go c.connection.Close()
+	c.connection, c.channel = nil, nil
 }
 
 func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
@@ -67,6 +81,12 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
+	if c.channel == nil {
+		if err = c.connect(); err != nil {
+			return err
+		}
+	}
+
 	if err = c.channel.Publish(
 		c.config["exchange"],
 		c.config["key"],
@@ -76,10 +96,15 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 			ContentType: "text/plain",
 			Body:        innerPkg,
 		}); err != nil {
+		c.reset()
 		return fmt.Errorf("Ошибка отправки сырого пакета в RabbitMQ: %v", err)
 	}
 
-	if confirm, ok := <-c.confirms; !ok || !confirm.Ack {
+	confirm, ok := <-c.confirms
+	if !ok {
+		c.reset()
+	}
+	if !confirm.Ack {
 		return fmt.Errorf("RabbitMQ не подтвердил получение пакета")
 	}
 	return nil
-- 
2.43.0


From 37585fd9529775448d5ed9ec3586cc09f90ab6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 45/47] fix: nats storage stays closed for good after an error
 of the server that ends the connection

---
 cli/receiver/storage/store/nats/connector.go | 22 +++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/cli/receiver/storage/store/nats/connector.go b/cli/receiver/storage/store/nats/connector.go
index 9469617..ea42992 100644
--- a/cli/receiver/storage/store/nats/connector.go
+++ b/cli/receiver/storage/store/nats/connector.go
@@ -23,9 +23,6 @@ type Connector struct {
 }
 
 func (c *Connector) Init(cfg map[string]string) error {
-	var (
-		err error
-	)
 	if cfg == nil {
 		return fmt.Errorf("Не корректная ссылка на конфигурацию")
 	}
@@ -35,6 +32,11 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("Не задан топик nats")
 	}
 
+	return c.connect()
+}
+
+// connect устанавливает соединение с сервером
+func (c *Connector) connect() error {
 	var options = make([]natsLib.Option, 3)
 
 	// без соединения с сервером сообщения не накапливаются, а возвращается ошибка
@@ -51,10 +53,13 @@ func (c *Connector) Init(cfg map[string]string) error {
 		}
 	}
 
-	if c.connection, err = natsLib.Connect(c.config["servers"], options...); err != nil {
+	connection, err := natsLib.Connect(c.config["servers"], options...)
+	if err != nil {
 		return fmt.Errorf("Ошибка подключения к nats шине: %v", err)
 	}
-	return err
+
+	c.connection = connection
+	return nil
 }
 
 func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
@@ -70,6 +75,13 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
+	// после некоторых ошибок сервера соединение закрывается окончательно
+	if c.connection.IsClosed() {
+		if err = c.connect(); err != nil {
+			return err
+		}
+	}
+
 	lastErr, reconnects := c.connection.LastError(), c.connection.Stats().Reconnects
 	if err = c.connection.Publish(c.config["topic"], innerPkg); err != nil {
 		return fmt.Errorf("Не удалось отправить сообщение в топик: %v", err)
-- 
2.43.0


From 3bece8b5f70cf9f840b53473ae936d0301dda568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:49 +0000
Subject: [PATCH 46/47] fix: nats, a save refused right before the connection
 breaks is not reported as done

---
 cli/receiver/storage/store/nats/connector.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/storage/store/nats/connector.go b/cli/receiver/storage/store/nats/connector.go
index ea42992..95d466e 100644
--- a/cli/receiver/storage/store/nats/connector.go
+++ b/cli/receiver/storage/store/nats/connector.go
@@ -92,11 +92,13 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		return fmt.Errorf("Не удалось отправить сообщение в топик: %v", err)
 	}
 
-	if c.connection.Stats().Reconnects != reconnects {
+	// при разрыве соединения ошибка сервера сбрасывается, поэтому состояние проверяется после нее
+	err = c.connection.LastError()
+	if !c.connection.IsConnected() || c.connection.Stats().Reconnects != reconnects {
 		return fmt.Errorf("Не удалось отправить сообщение в топик: соединение было разорвано")
 	}
 
-	if err = c.connection.LastError(); err != nil && err != lastErr {
+	if err != nil && err != lastErr {
 		return fmt.Errorf("Сервер не принял сообщение: %v", err)
 	}
 	return nil
-- 
2.43.0


From 24ea89a18cca810e3f340f6e48d1361c0129950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:39 +0000
Subject: [PATCH 47/47] fix: rabbitmq, the connection is closed even if the
 server has closed the channel before

---
 cli/receiver/storage/store/rabbitmq/connector.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 591ca5f..1c533ff 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -114,13 +114,12 @@ func (c *Connector) Close() error {
 	var err error
 	if c != nil {
 		if c.channel != nil {
-			if err = c.channel.Close(); err != nil {
-				return err
-			}
+			err = c.channel.Close()
 		}
+		// канал мог быть уже закрыт сервером, соединение закрывается в любом случае
 		if c.connection != nil {
-			if err = c.connection.Close(); err != nil {
-				return err
+			if connErr := c.connection.Close(); connErr != nil {
+				return connErr
 			}
 		}
 	}
-- 
2.43.0

