From a76f74aaa304d11872b99626004ebde8809df8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 01/29] fix: keep utc_splice_time values past 2106 from
 wrapping around

---
 pkg/scte35/scte35.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index c8fab99..2a0256d 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -125,7 +125,7 @@ func (bb *Bytes) UnmarshalText(b []byte) error {
 // from GPS Epoch (01 Jan 1980, 00:00:00 UTC)
 func NewUTCSpliceTime(sec uint32) UTCSpliceTime {
 	return UTCSpliceTime{
-		time.Unix(int64(sec+unixEpochToGPSEpoch), 0),
+		time.Unix(int64(sec)+int64(unixEpochToGPSEpoch), 0),
 	}
 }
 
-- 
2.43.0


From ea99a3024232dd54642d405d127982166bf5700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 02/29] fix: convert between ticks and durations without
 floating point error

---
 pkg/scte35/scte35.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index 2a0256d..9b33e16 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -23,7 +23,6 @@ import (
 	"encoding/hex"
 	"errors"
 	"log"
-	"math"
 	"strings"
 	"time"
 
@@ -85,13 +84,14 @@ func DecodeHex(s string) (*SpliceInfoSection, error) {
 
 // DurationToTicks converts a duration to 90MhZ ticks.
 func DurationToTicks(d time.Duration) uint64 {
-	return uint64(math.Ceil(float64(d) * TicksPerSecond / float64(time.Second)))
+	s, ns := d/time.Second, d%time.Second
+	return uint64(s*TicksPerSecond + (ns*TicksPerSecond+time.Second-1)/time.Second)
 }
 
 // TicksToDuration converts 90MhZ ticks to a duration.
 func TicksToDuration(ticks uint64) time.Duration {
-	s := float64(ticks) / float64(TicksPerSecond)
-	return time.Duration(int64(s * float64(time.Second)))
+	s, rem := ticks/TicksPerSecond, ticks%TicksPerSecond
+	return time.Duration(s)*time.Second + time.Duration(rem)*time.Second/TicksPerSecond
 }
 
 // BreakDuration specifies the duration of the commercial break(s). It may be
-- 
2.43.0


From 3b31ae2c6d15fed7cac57de74c20ce766a4cf94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 03/29] fix: keep a private_command when decoding XML

---
 pkg/scte35/splice_info_section.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index a392c95..135244d 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -436,6 +436,9 @@ func (i *iSIS) SpliceCommand() SpliceCommand {
 	if i.BandwidthReservation != nil {
 		return i.BandwidthReservation
 	}
+	if i.PrivateCommand != nil {
+		return i.PrivateCommand
+	}
 
 	// no valid splice_command?
 	if i.SpliceCommandRaw == nil {
-- 
2.43.0


From a0245c67b0b85e893f9c150042a14f98edbb3a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 04/29] fix: decode cancelled splice_insert commands

---
 pkg/scte35/splice_insert.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index 30af225..b101c2d 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -162,10 +162,10 @@ func (cmd *SpliceInsert) decode(b []byte) error {
 			r.Skip(6) // reserved
 			cmd.BreakDuration.Duration = r.Uint64(33)
 		}
+		cmd.UniqueProgramID = r.Uint32(16)
+		cmd.AvailNum = r.Uint32(8)
+		cmd.AvailsExpected = r.Uint32(8)
 	}
-	cmd.UniqueProgramID = r.Uint32(16)
-	cmd.AvailNum = r.Uint32(8)
-	cmd.AvailsExpected = r.Uint32(8)
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_insert: %w", err)
-- 
2.43.0


From 131c75cb23debd2098e5324b8144f3fb7d0ad8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 05/29] fix: encode and decode cancelled splice_schedule events

---
 pkg/scte35/splice_schedule.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index ef47b7a..487a34a 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -81,10 +81,10 @@ func (cmd *SpliceSchedule) decode(b []byte) error {
 				r.Skip(6) // reserved
 				e.BreakDuration.Duration = r.Uint64(33)
 			}
+			e.UniqueProgramID = r.Uint32(16)
+			e.AvailNum = r.Uint32(8)
+			e.AvailsExpected = r.Uint32(8)
 		}
-		e.UniqueProgramID = r.Uint32(16)
-		e.AvailNum = r.Uint32(8)
-		e.AvailsExpected = r.Uint32(8)
 		cmd.Events[i] = e
 	}
 
@@ -124,10 +124,10 @@ func (cmd *SpliceSchedule) encode() ([]byte, error) {
 				iow.PutUint32(6, Reserved)
 				iow.PutUint64(33, e.BreakDuration.Duration)
 			}
+			iow.PutUint32(16, e.UniqueProgramID)
+			iow.PutUint32(8, e.AvailNum)
+			iow.PutUint32(8, e.AvailsExpected)
 		}
-		iow.PutUint32(16, e.UniqueProgramID)
-		iow.PutUint32(8, e.AvailNum)
-		iow.PutUint32(8, e.AvailsExpected)
 	}
 
 	err := iow.Flush()
-- 
2.43.0


From f45911548ca570f5b84520ccd5bc8eac406701fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 06/29] fix: encode audio_count as 4 bits and flush the
 audio_descriptor

---
 pkg/scte35/audio_descriptor.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index 4ad6c18..78df1e3 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -81,7 +81,7 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 	iow.PutUint32(8, AudioDescriptorTag)
 	iow.PutUint32(8, uint32(length))
 	iow.PutUint32(32, CUEIdentifier)
-	iow.PutUint32(8, uint32(len(sd.AudioChannels)))
+	iow.PutUint32(4, uint32(len(sd.AudioChannels)))
 	iow.PutUint32(4, Reserved)
 	for _, ad := range sd.AudioChannels {
 		iow.PutUint32(8, ad.ComponentTag)
@@ -90,7 +90,9 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 		iow.PutUint32(4, ad.NumChannels)
 		iow.PutBit(ad.FullSrvcAudio)
 	}
-	return buf, nil
+
+	err := iow.Flush()
+	return buf, err
 }
 
 // descriptorLength returns the descriptor_length
-- 
2.43.0


From 6f9410cfe0fb97f0a35f752a3241a170770176c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 07/29] fix: do not panic marshalling a section without a
 splice_command to JSON

---
 pkg/scte35/splice_info_section.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 135244d..8d9d36c 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -286,7 +286,9 @@ func (sis *SpliceInfoSection) Table(prefix, indent string) string {
 func (sis *SpliceInfoSection) MarshalJSON() ([]byte, error) {
 	// ensure JSONTypes are all set before marshalling. These are included in
 	// each SpliceCommand.Type() and SpliceDescriptor.Tag() implementation.
-	sis.SpliceCommand.Type()
+	if sis.SpliceCommand != nil {
+		sis.SpliceCommand.Type()
+	}
 	for i := range sis.SpliceDescriptors {
 		sis.SpliceDescriptors[i].Tag()
 	}
-- 
2.43.0


From 9fd15f709fd58acaef16ea71fc9f3320216c35ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 08/29] fix: do not panic on an MPU upid without a
 format_identifier

---
 pkg/scte35/segmentation_upid.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 5e26ccc..5db03f4 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -250,9 +250,17 @@ func (upid *SegmentationUPID) eidrTypeName() string {
 
 // formatIdentifierString returns the format identifier as a string
 func (upid *SegmentationUPID) formatIdentifierString() string {
+	return string(upid.formatIdentifierBytes())
+}
+
+// formatIdentifierBytes returns the format identifier as a byte array. A missing
+// format identifier is encoded as 0.
+func (upid *SegmentationUPID) formatIdentifierBytes() []byte {
 	b := make([]byte, 4)
-	binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
-	return string(b)
+	if upid.FormatIdentifier != nil {
+		binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
+	}
+	return b
 }
 
 // valueBytes returns the value as a byte array.
@@ -274,8 +282,7 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 		return b
 	// MPU - custom
 	case SegmentationUPIDTypeMPU:
-		b := make([]byte, 4)
-		binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
+		b := upid.formatIdentifierBytes()
 		v, err := base64.StdEncoding.DecodeString(upid.Value)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
-- 
2.43.0


From 87d18622e11b29c85acc50ebe9f8d1aa01e9d8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 09/29] fix: reject null splice_descriptors in JSON

---
 pkg/scte35/splice_descriptor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index 655d728..a52a7f8 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -103,6 +103,9 @@ func (sds *SpliceDescriptors) UnmarshalJSON(data []byte) error {
 		if err := json.Unmarshal(items[i], &sd); err != nil {
 			return err
 		}
+		if sd == nil {
+			return fmt.Errorf("unsupported splice_descriptor: null")
+		}
 
 		results[i] = sd
 	}
-- 
2.43.0


From 9b1cafc143e6c6c0c1ed34a722fd3382a803c288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 10/29] fix: decode compact EIDR values which contain the byte
 0x2F

---
 pkg/scte35/segmentation_upid.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 5db03f4..59ce3ef 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -310,13 +310,13 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 
 // canonicalEIDR returns a canonical EIDR.
 func canonicalEIDR(b []byte) string {
-	// already canonical
-	if bytes.Contains(b, []byte("/")) {
-		return string(b)
-	}
-
-	// dunno what this is
 	if len(b) != 12 {
+		// already canonical
+		if bytes.Contains(b, []byte("/")) {
+			return string(b)
+		}
+
+		// dunno what this is
 		Logger.Printf("Unexpected eidr value received: %s", b)
 		return ""
 	}
-- 
2.43.0


From e7f28c4524a137babd4f52626c7994a666d2bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 11/29] fix: accept legacy splice_null and
 bandwidth_reservation commands

---
 pkg/scte35/bandwidth_reservation.go | 2 +-
 pkg/scte35/splice_null.go           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/bandwidth_reservation.go b/pkg/scte35/bandwidth_reservation.go
index c6607f7..c14c258 100644
--- a/pkg/scte35/bandwidth_reservation.go
+++ b/pkg/scte35/bandwidth_reservation.go
@@ -52,7 +52,7 @@ func (cmd *BandwidthReservation) Type() uint32 {
 // decode a binary bandwidth_reservation.
 func (cmd *BandwidthReservation) decode(b []byte) error {
 	if len(b) > 0 {
-		return fmt.Errorf("bandwidth_reservation: %w", ErrBufferOverflow)
+		return fmt.Errorf("bandwidth_reservation: %w", ErrBufferUnderflow)
 	}
 	return nil
 }
diff --git a/pkg/scte35/splice_null.go b/pkg/scte35/splice_null.go
index 6ac71cf..7edf6af 100644
--- a/pkg/scte35/splice_null.go
+++ b/pkg/scte35/splice_null.go
@@ -46,7 +46,7 @@ func (cmd *SpliceNull) Type() uint32 {
 // decode a binary splice_null.
 func (cmd *SpliceNull) decode(b []byte) error {
 	if len(b) > 0 {
-		return fmt.Errorf("splice_null: %w", ErrBufferOverflow)
+		return fmt.Errorf("splice_null: %w", ErrBufferUnderflow)
 	}
 	return nil
 }
-- 
2.43.0


From 6b757341278c36bdc6916d5f0561902985327c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 12/29] fix: do not keep parts of a previously decoded section

---
 pkg/scte35/splice_info_section.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 8d9d36c..7af9d96 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -80,6 +80,13 @@ func (sis *SpliceInfoSection) Base64() string {
 
 // Decode the contents of a byte array into this SpliceInfoSection.
 func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
+	// discard the results of any previous decoding
+	sis.SpliceCommand = nil
+	sis.SpliceDescriptors = nil
+	sis.alignmentStuffing = nil
+	sis.ecrc32 = nil
+	sis.crc32 = nil
+
 	r := iobit.NewReader(b)
 	r.Skip(8) // table_id (shall be 0xFC)
 	r.Skip(1) // section_syntax_indicator (shall be 0)
-- 
2.43.0


From 264c2a382489ec8db293b3e7e757296df654728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 13/29] fix: do not share memory with the decoded buffer

---
 pkg/scte35/private_command.go     | 2 +-
 pkg/scte35/private_descriptor.go  | 2 +-
 pkg/scte35/splice_info_section.go | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/scte35/private_command.go b/pkg/scte35/private_command.go
index bb62457..b21e393 100644
--- a/pkg/scte35/private_command.go
+++ b/pkg/scte35/private_command.go
@@ -60,7 +60,7 @@ func (cmd *PrivateCommand) decode(b []byte) error {
 	r := iobit.NewReader(b)
 
 	cmd.Identifier = r.Uint32(32)
-	cmd.PrivateBytes = r.LeftBytes()
+	cmd.PrivateBytes = append(Bytes{}, r.LeftBytes()...)
 	// LeftBytes doesnt advance position
 	r.Skip(uint(len(cmd.PrivateBytes) * 8))
 
diff --git a/pkg/scte35/private_descriptor.go b/pkg/scte35/private_descriptor.go
index 7a3985c..5b0e14a 100644
--- a/pkg/scte35/private_descriptor.go
+++ b/pkg/scte35/private_descriptor.go
@@ -54,7 +54,7 @@ func (sd *PrivateDescriptor) decode(b []byte) error {
 	sd.PrivateTag = r.Uint32(8)
 	r.Skip(8) // descriptor_length
 	sd.Identifier = r.Uint32(32)
-	sd.PrivateBytes = r.LeftBytes()
+	sd.PrivateBytes = append(Bytes{}, r.LeftBytes()...)
 	// LeftBytes doesnt advance position
 	r.Skip(uint(len(sd.PrivateBytes) * 8))
 
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 7af9d96..55bc31d 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -129,13 +129,13 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 	if encryptedPacket {
 		stuffedBytes := (int(r.LeftBits()) - 64) / 8
 		if stuffedBytes > 0 {
-			sis.alignmentStuffing = r.Bytes(stuffedBytes)
+			sis.alignmentStuffing = append([]byte{}, r.Bytes(stuffedBytes)...)
 		}
 		sis.ecrc32 = r.Bytes(4)
 	} else {
 		stuffedBytes := (int(r.LeftBits()) - 32) / 8
 		if stuffedBytes > 0 {
-			sis.alignmentStuffing = r.Bytes(stuffedBytes)
+			sis.alignmentStuffing = append([]byte{}, r.Bytes(stuffedBytes)...)
 		}
 	}
 	sis.crc32 = r.Bytes(4)
-- 
2.43.0


From eeea43eb08ad55d94a0c99c4b8de64d7ea90a1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 14/29] fix: show the sub-segment fields in tables

---
 pkg/scte35/segmentation_descriptor.go | 8 ++++++--
 pkg/scte35/table.go                   | 5 +++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index d4611c0..e925c35 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -602,10 +602,14 @@ func (sd *SegmentationDescriptor) writeTo(t *table) {
 	t.row(1, "segment_num", sd.SegmentNum)
 	t.row(1, "segments_expected", sd.SegmentsExpected)
 	switch sd.SegmentationTypeID {
-	case SegmentationTypeProviderPOStart,
+	case SegmentationTypeProviderAdStart,
+		SegmentationTypeDistributorAdStart,
+		SegmentationTypeProviderPOStart,
 		SegmentationTypeDistributorPOStart,
 		SegmentationTypeProviderOverlayPOStart,
-		SegmentationTypeDistributorOverlayPOStart:
+		SegmentationTypeDistributorOverlayPOStart,
+		SegmentationTypeProviderAdBlockStart,
+		SegmentationTypeDistributorAdBlockStart:
 		if sd.SubSegmentNum != nil {
 			t.row(1, "sub_segment_num", sd.SubSegmentNum)
 		}
diff --git a/pkg/scte35/table.go b/pkg/scte35/table.go
index 702e16e..23feb3b 100644
--- a/pkg/scte35/table.go
+++ b/pkg/scte35/table.go
@@ -69,6 +69,11 @@ func valueString(value any) string {
 		return strconv.FormatUint(uint64(vt), 10)
 	case uint64:
 		return strconv.FormatUint(vt, 10)
+	case *uint32:
+		if vt == nil {
+			return ""
+		}
+		return strconv.FormatUint(uint64(*vt), 10)
 	case *uint64:
 		if vt == nil {
 			return ""
-- 
2.43.0


From d2525ce9acb665c7294c66d53b12a8eaa221d587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 15/29] fix: show the tenths of a dtmf_descriptor preroll in
 tables

---
 pkg/scte35/dtmf_descriptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 2183bd8..94e8938 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -45,7 +45,7 @@ func (sd *DTMFDescriptor) writeTo(t *table) {
 	t.row(1, "splice_descriptor_tag", fmt.Sprintf("%#02x", DTMFDescriptorTag))
 	t.row(1, "descriptor_length", sd.length())
 	t.row(1, "identifier", fmt.Sprintf("%#08x (%s)", CUEIdentifier, CUEIASCII))
-	t.row(1, "preroll", float32(sd.Preroll/10))
+	t.row(1, "preroll", float32(sd.Preroll)/10)
 	t.row(1, "dtmf_count", len(sd.DTMFChars))
 	t.row(1, "dtmf_chars", sd.DTMFChars)
 	t.row(0, "}", nil)
-- 
2.43.0


From 8086e41532d68b36a6d5ff44eaa89e41f15ce030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 16/29] fix: keep preRollMilliSeconds when decoding XML

---
 pkg/scte35/splice_info_section.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 55bc31d..1351409 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -353,6 +353,7 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	} else {
 		sis.SAPType = SAPTypeNotSpecified
 	}
+	sis.PreRollMilliSeconds = tmp.PreRollMilliSeconds
 	sis.PTSAdjustment = tmp.PTSAdjustment
 	sis.ProtocolVersion = tmp.ProtocolVersion
 	sis.Tier = tmp.Tier
@@ -422,6 +423,7 @@ type iSIS struct {
 	PrivateCommand       *PrivateCommand       `xml:"http://www.scte.org/schemas/35 PrivateCommand" json:"-"`
 	SpliceDescriptors    SpliceDescriptors     `xml:",any" json:"spliceDescriptors"`
 	SAPType              *uint32               `xml:"sapType,attr" json:"sapType,omitempty"`
+	PreRollMilliSeconds  uint32                `xml:"preRollMilliSeconds,attr" json:"-"`
 	PTSAdjustment        uint64                `xml:"ptsAdjustment,attr" json:"ptsAdjustment"`
 	ProtocolVersion      uint32                `xml:"protocolVersion,attr" json:"protocolVersion"`
 	Tier                 uint32                `xml:"tier,attr" json:"tier"`
-- 
2.43.0


From 13eb476975d0d47ad6f8665878f145d68ddf51bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 17/29] fix: keep line breaks of documents read from stdin

---
 cmd/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/encode.go b/cmd/encode.go
index cd3850d..72f442c 100644
--- a/cmd/encode.go
+++ b/cmd/encode.go
@@ -49,7 +49,7 @@ func encodeCommand() *cobra.Command {
 			} else {
 				scanner := bufio.NewScanner(os.Stdin)
 				for scanner.Scan() {
-					input += scanner.Text()
+					input += scanner.Text() + "\n"
 				}
 				err = scanner.Err()
 				if err != nil {
-- 
2.43.0


From 40be6035c5b4b6620ed6ef1f9d4e78c50975dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 18/29] fix: report a descriptor_loop_length which exceeds the
 section

---
 pkg/scte35/splice_info_section.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 1351409..a6bfa15 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -138,7 +138,9 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 			sis.alignmentStuffing = append([]byte{}, r.Bytes(stuffedBytes)...)
 		}
 	}
-	sis.crc32 = r.Bytes(4)
+	if sis.crc32 = r.Bytes(4); len(sis.crc32) < 4 {
+		return fmt.Errorf("splice_info_section: %w", ErrBufferOverflow)
+	}
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_info_section: %w", err)
-- 
2.43.0


From 51573dab8620b48ed5fa2906117443c2b0e75bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 19/29] fix: report a descriptor_length which exceeds the
 descriptor loop

---
 pkg/scte35/splice_descriptor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index a52a7f8..33a7490 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -171,9 +171,12 @@ func decodeSpliceDescriptors(b []byte) ([]SpliceDescriptor, error) {
 		// Decode the full splice_descriptor (including splice_descriptor_tag
 		// and descriptor_length).
 		sd := NewSpliceDescriptor(identifier, spliceDescriptorTag)
-		if derr := sd.decode(r.Bytes(descriptorLength + 2)); derr != nil {
+		sdb := r.Bytes(descriptorLength + 2)
+		if derr := sd.decode(sdb); derr != nil {
 			// Store the error but continue decoding the rest of the signal.
 			err = derr
+		} else if len(sdb) < descriptorLength+2 {
+			err = fmt.Errorf("splice_descriptor: %w", ErrBufferOverflow)
 		}
 		sds = append(sds, sd)
 	}
-- 
2.43.0


From da2b2d657406e39fed01c4c5c6c08abc17b60342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 20/29] fix: report a dtmf_count which exceeds the
 dtmf_descriptor

---
 pkg/scte35/dtmf_descriptor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 94e8938..b4ea386 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -67,7 +67,9 @@ func (sd *DTMFDescriptor) decode(b []byte) error {
 	sd.Preroll = r.Uint32(8)
 	dtmfCount := int(r.Uint32(3))
 	r.Skip(5) // reserved
-	sd.DTMFChars = r.String(dtmfCount)
+	if sd.DTMFChars = r.String(dtmfCount); len(sd.DTMFChars) < dtmfCount {
+		return fmt.Errorf("dtmf_descriptor: %w", ErrBufferOverflow)
+	}
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("dtmf_descriptor: %w", err)
-- 
2.43.0


From 1be2ae91f2113fc50cbd834d1b832dc60997b247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 21/29] fix: do not encode a section without a splice_command
 as a malformed one

---
 pkg/scte35/splice_info_section.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index a6bfa15..6915af5 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -177,6 +177,9 @@ func (sis *SpliceInfoSection) Duration() time.Duration {
 // byte array.
 func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 	buf := make([]byte, sis.length())
+	if sis.SpliceCommand == nil {
+		return buf, fmt.Errorf("splice_info_section: missing splice_command")
+	}
 
 	iow := iobit.NewWriter(buf)
 	iow.PutUint32(8, TableID)
@@ -192,16 +195,14 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 	iow.PutUint32(8, sis.EncryptedPacket.CWIndex)
 	iow.PutUint32(12, sis.Tier)
 
-	if sis.SpliceCommand != nil {
-		iow.PutUint32(12, uint32(sis.SpliceCommand.length()))
-		iow.PutUint32(8, sis.SpliceCommand.Type())
-		sc, err := sis.SpliceCommand.encode()
-		if err != nil {
-			return buf, err
-		}
-		if _, err = iow.Write(sc); err != nil {
-			return buf, err
-		}
+	iow.PutUint32(12, uint32(sis.SpliceCommand.length()))
+	iow.PutUint32(8, sis.SpliceCommand.Type())
+	sc, err := sis.SpliceCommand.encode()
+	if err != nil {
+		return buf, err
+	}
+	if _, err = iow.Write(sc); err != nil {
+		return buf, err
 	}
 
 	iow.PutUint32(16, uint32(sis.descriptorLoopLength()))
@@ -226,7 +227,7 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 	// Re-calculate CRC_32 to ensure correctness
 	iow.PutUint32(32, calculateCRC32(buf[:iow.Index()/8])) // CRC_32
 
-	err := iow.Flush()
+	err = iow.Flush()
 	return buf, err
 }
 
-- 
2.43.0


From ba704aff757775805a7b2c21f216afa19e9a47e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 22/29] fix: report content which does not fit its count or
 length field when encoding

---
 pkg/scte35/audio_descriptor.go    | 6 ++++++
 pkg/scte35/dtmf_descriptor.go     | 3 +++
 pkg/scte35/splice_info_section.go | 6 ++++++
 pkg/scte35/splice_insert.go       | 3 +++
 pkg/scte35/splice_schedule.go     | 6 ++++++
 5 files changed, 24 insertions(+)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index 78df1e3..398ec42 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -74,6 +74,9 @@ func (sd *AudioDescriptor) decode(b []byte) error {
 // encode this SpliceDescriptor to binary.
 func (sd *AudioDescriptor) encode() ([]byte, error) {
 	length := sd.length()
+	if len(sd.AudioChannels) > 0xF {
+		return nil, fmt.Errorf("audio_descriptor: audio_count exceeds 4 bits")
+	}
 
 	// add 2 bytes to contain splice_descriptor_tag & descriptor_length
 	buf := make([]byte, length+2)
@@ -85,6 +88,9 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 	iow.PutUint32(4, Reserved)
 	for _, ad := range sd.AudioChannels {
 		iow.PutUint32(8, ad.ComponentTag)
+		if len(ad.ISOCode) != 3 {
+			return nil, fmt.Errorf("audio_descriptor: iso_code is not 3 characters long")
+		}
 		_, _ = iow.Write([]byte(ad.ISOCode))
 		iow.PutUint32(3, ad.BitStreamMode)
 		iow.PutUint32(4, ad.NumChannels)
diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index b4ea386..ed9e339 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -80,6 +80,9 @@ func (sd *DTMFDescriptor) decode(b []byte) error {
 // encode this splice_descriptor to binary.
 func (sd *DTMFDescriptor) encode() ([]byte, error) {
 	length := sd.length()
+	if len(sd.DTMFChars) > 7 {
+		return nil, fmt.Errorf("dtmf_descriptor: dtmf_count exceeds 3 bits")
+	}
 
 	// add 2 bytes to contain splice_descriptor_tag & descriptor_length
 	buf := make([]byte, length+2)
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 6915af5..4147de1 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -180,6 +180,9 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 	if sis.SpliceCommand == nil {
 		return buf, fmt.Errorf("splice_info_section: missing splice_command")
 	}
+	if sis.sectionLength() > 0xFFF {
+		return buf, fmt.Errorf("splice_info_section: section_length exceeds 12 bits")
+	}
 
 	iow := iobit.NewWriter(buf)
 	iow.PutUint32(8, TableID)
@@ -207,6 +210,9 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 
 	iow.PutUint32(16, uint32(sis.descriptorLoopLength()))
 	for _, sd := range sis.SpliceDescriptors {
+		if sd.length() > 0xFF {
+			return buf, fmt.Errorf("splice_descriptor: descriptor_length exceeds 8 bits")
+		}
 		sde, err := sd.encode()
 		if err != nil {
 			return buf, err
diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index b101c2d..b5b06ff 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -198,6 +198,9 @@ func (cmd *SpliceInsert) encode() ([]byte, error) {
 			}
 		}
 		if !cmd.ProgramSpliceFlag() {
+			if len(cmd.Components) > 0xFF {
+				return nil, fmt.Errorf("splice_insert: component_count exceeds 8 bits")
+			}
 			iow.PutUint32(8, uint32(len(cmd.Components)))
 			for _, c := range cmd.Components {
 				iow.PutUint32(8, c.Tag)
diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index 487a34a..09b77c2 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -99,6 +99,9 @@ func (cmd *SpliceSchedule) encode() ([]byte, error) {
 	buf := make([]byte, cmd.length())
 	iow := iobit.NewWriter(buf)
 
+	if len(cmd.Events) > 0xFF {
+		return nil, fmt.Errorf("splice_schedule: splice_count exceeds 8 bits")
+	}
 	iow.PutUint32(8, uint32(len(cmd.Events)))
 	for _, e := range cmd.Events {
 		iow.PutUint32(32, e.SpliceEventID)
@@ -113,6 +116,9 @@ func (cmd *SpliceSchedule) encode() ([]byte, error) {
 			if e.ProgramSpliceFlag() {
 				iow.PutUint32(32, e.Program.UTCSpliceTime.GPSSeconds())
 			} else {
+				if len(e.Components) > 0xFF {
+					return nil, fmt.Errorf("splice_schedule: component_count exceeds 8 bits")
+				}
 				iow.PutUint32(8, uint32(len(e.Components)))
 				for _, c := range e.Components {
 					iow.PutUint32(8, c.Tag)
-- 
2.43.0


From a18607b780140aa6787894b9ebe35b7f0d2a7e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:25 +0000
Subject: [PATCH 23/29] fix: include E_CRC_32 in the CRC_32 of sections with an
 encryption_algorithm

---
 pkg/scte35/splice_info_section.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 4147de1..af22629 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -228,6 +228,10 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 	// Encoding encrypted signals is untested.
 	if sis.EncryptedPacket.EncryptionAlgorithm != EncryptionAlgorithmNone {
 		iow.PutUint32(32, calculateCRC32(buf[:iow.Index()/8])) // E_CRC_32
+		// CRC_32 covers E_CRC_32, make sure it has reached the buffer
+		if err = iow.Flush(); err != nil {
+			return buf, err
+		}
 	}
 
 	// Re-calculate CRC_32 to ensure correctness
-- 
2.43.0


From 20b472a6978400bb6f2dcbea31baf72e46da3ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 24/29] fix: encode sub-segment fields only as a pair and only
 for types which have them

---
 pkg/scte35/segmentation_descriptor.go | 37 +++++++++++++++++++++------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index e925c35..e0176a7 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -495,11 +495,16 @@ func (sd *SegmentationDescriptor) encode() ([]byte, error) {
 		iow.PutUint32(8, sd.SegmentNum)
 		iow.PutUint32(8, sd.SegmentsExpected)
 
-		if sd.SubSegmentNum != nil {
-			iow.PutUint32(8, *sd.SubSegmentNum)
-		}
-		if sd.SubSegmentsExpected != nil {
-			iow.PutUint32(8, *sd.SubSegmentsExpected)
+		if sd.hasSubSegments() {
+			n, e := uint32(0), uint32(0)
+			if sd.SubSegmentNum != nil {
+				n = *sd.SubSegmentNum
+			}
+			if sd.SubSegmentsExpected != nil {
+				e = *sd.SubSegmentsExpected
+			}
+			iow.PutUint32(8, n)
+			iow.PutUint32(8, e)
 		}
 	}
 
@@ -543,10 +548,8 @@ func (sd *SegmentationDescriptor) length() int {
 		length += 8                               // segment_num
 		length += 8                               // segments_expected
 
-		if sd.SubSegmentNum != nil {
+		if sd.hasSubSegments() {
 			length += 8 // sub_segment_num
-		}
-		if sd.SubSegmentsExpected != nil {
 			length += 8 // sub_segments_expected
 		}
 	}
@@ -554,6 +557,24 @@ func (sd *SegmentationDescriptor) length() int {
 	return length / 8
 }
 
+// hasSubSegments returns true if sub_segment_num and sub_segments_expected are
+// part of the encoded descriptor. They only exist, as a pair, for some of the
+// segmentation_type_ids.
+func (sd *SegmentationDescriptor) hasSubSegments() bool {
+	switch sd.SegmentationTypeID {
+	case SegmentationTypeProviderAdStart,
+		SegmentationTypeDistributorAdStart,
+		SegmentationTypeProviderPOStart,
+		SegmentationTypeDistributorPOStart,
+		SegmentationTypeProviderOverlayPOStart,
+		SegmentationTypeDistributorOverlayPOStart,
+		SegmentationTypeProviderAdBlockStart,
+		SegmentationTypeDistributorAdBlockStart:
+		return sd.SubSegmentNum != nil || sd.SubSegmentsExpected != nil
+	}
+	return false
+}
+
 // table returns the tabular description of this SegmentationDescriptor.
 func (sd *SegmentationDescriptor) writeTo(t *table) {
 	t.row(0, "segmentation_descriptor() {", nil)
-- 
2.43.0


From f66eea8841476426ec4f1e0ea41174168a07dd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 25/29] fix: name the kind of an EIDR by its whole prefix

Prefixes such as 52370 were taken for 5237 and the like.
---
 pkg/scte35/segmentation_upid.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 59ce3ef..0f3d3ce 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -233,16 +233,20 @@ func (upid *SegmentationUPID) compressEIDR(s string) []byte {
 
 // eidrTypeName returns the EIDR type name.
 func (upid *SegmentationUPID) eidrTypeName() string {
-	if strings.HasPrefix(upid.Value, "10.5237") {
-		return "Party ID"
+	parts := strings.FieldsFunc(upid.Value, func(r rune) bool {
+		return r == '.' || r == '/'
+	})
+	if len(parts) < 2 || parts[0] != "10" {
+		return ""
 	}
-	if strings.HasPrefix(upid.Value, "10.5238") {
+	switch parts[1] {
+	case "5237":
+		return "Party ID"
+	case "5238":
 		return "User ID"
-	}
-	if strings.HasPrefix(upid.Value, "10.5239") {
+	case "5239":
 		return "Service ID"
-	}
-	if strings.HasPrefix(upid.Value, "10.5240") {
+	case "5240":
 		return "Content ID"
 	}
 	return ""
-- 
2.43.0


From bb5efb8e320a3ce7a16f543075565917166c4db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:23 +0000
Subject: [PATCH 26/29] fix: read documents with long lines from stdin

A section may need more than 64 KB on one line, which bufio.Scanner refuses.
---
 cmd/encode.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cmd/encode.go b/cmd/encode.go
index 72f442c..9dbab3a 100644
--- a/cmd/encode.go
+++ b/cmd/encode.go
@@ -17,10 +17,10 @@
 package cmd
 
 import (
-	"bufio"
 	"encoding/json"
 	"encoding/xml"
 	"fmt"
+	"io"
 	"os"
 	"strings"
 
@@ -47,11 +47,9 @@ func encodeCommand() *cobra.Command {
 			if len(args) == 1 {
 				input = args[0]
 			} else {
-				scanner := bufio.NewScanner(os.Stdin)
-				for scanner.Scan() {
-					input += scanner.Text() + "\n"
-				}
-				err = scanner.Err()
+				var b []byte
+				b, err = io.ReadAll(os.Stdin)
+				input = string(b)
 				if err != nil {
 					_, _ = fmt.Fprintf(os.Stderr, "Error: %s\n", err)
 					return
-- 
2.43.0


From e0e7d47550931de8d292891390c94c29a4fc9015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:35 +0000
Subject: [PATCH 27/29] fix: report a JSON splice_command which cannot be read
 instead of dropping it

---
 pkg/scte35/splice_info_section.go | 38 +++++++++++++++++++------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index af22629..2961220 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -338,8 +338,13 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 		return err
 	}
 
+	sc, err := tmp.SpliceCommand()
+	if err != nil {
+		return err
+	}
+
 	sis.EncryptedPacket = tmp.EncryptedPacket
-	sis.SpliceCommand = tmp.SpliceCommand()
+	sis.SpliceCommand = sc
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
 	if tmp.SAPType != nil {
 		sis.SAPType = *tmp.SAPType
@@ -358,8 +363,13 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	if err := d.DecodeElement(&tmp, &start); err != nil {
 		return err
 	}
+	sc, err := tmp.SpliceCommand()
+	if err != nil {
+		return err
+	}
+
 	sis.EncryptedPacket = tmp.EncryptedPacket
-	sis.SpliceCommand = tmp.SpliceCommand()
+	sis.SpliceCommand = sc
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
 	if tmp.SAPType != nil {
 		sis.SAPType = *tmp.SAPType
@@ -443,30 +453,30 @@ type iSIS struct {
 }
 
 // SpliceCommand returns the polymorphic splice_command.
-func (i *iSIS) SpliceCommand() SpliceCommand {
+func (i *iSIS) SpliceCommand() (SpliceCommand, error) {
 	// xml unmarshalls to the corresponding struct
 	if i.SpliceNull != nil {
-		return i.SpliceNull
+		return i.SpliceNull, nil
 	}
 	if i.SpliceSchedule != nil {
-		return i.SpliceSchedule
+		return i.SpliceSchedule, nil
 	}
 	if i.SpliceInsert != nil {
-		return i.SpliceInsert
+		return i.SpliceInsert, nil
 	}
 	if i.TimeSignal != nil {
-		return i.TimeSignal
+		return i.TimeSignal, nil
 	}
 	if i.BandwidthReservation != nil {
-		return i.BandwidthReservation
+		return i.BandwidthReservation, nil
 	}
 	if i.PrivateCommand != nil {
-		return i.PrivateCommand
+		return i.PrivateCommand, nil
 	}
 
 	// no valid splice_command?
 	if i.SpliceCommandRaw == nil {
-		return nil
+		return nil, nil
 	}
 
 	// struct to determine the splice command's type
@@ -477,16 +487,14 @@ func (i *iSIS) SpliceCommand() SpliceCommand {
 	// get the type
 	var st sctype
 	if err := json.Unmarshal(i.SpliceCommandRaw, &st); err != nil {
-		Logger.Printf("error unmarshalling splice command type: %s", err)
-		return nil
+		return nil, err
 	}
 
 	// and decode it
 	sc := NewSpliceCommand(st.Type)
 	if err := json.Unmarshal(i.SpliceCommandRaw, sc); err != nil {
-		Logger.Printf("error unmarshalling splice command: %s", err)
-		return nil
+		return nil, err
 	}
 
-	return sc
+	return sc, nil
 }
-- 
2.43.0


From 5d8065911e14e23bf25beb0ef530909ad7b200c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:10 +0000
Subject: [PATCH 28/29] fix: open the parts of tables with a brace and indent
 event fields as such

---
 pkg/scte35/splice_insert.go   |  2 +-
 pkg/scte35/splice_schedule.go | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index b5b06ff..c2a1675 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -87,7 +87,7 @@ func (cmd *SpliceInsert) writeTo(t *table) {
 		if !cmd.ProgramSpliceFlag() {
 			t.row(1, "component_count", len(cmd.Components))
 			for i, c := range cmd.Components {
-				t.row(1, "component["+strconv.Itoa(i)+"]", nil)
+				t.row(1, "component["+strconv.Itoa(i)+"] {", nil)
 				t.row(2, "component_tag", c.Tag)
 				if !cmd.SpliceImmediateFlag {
 					t.row(2, "time_specified_flag", c.TimeSpecifiedFlag())
diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index 09b77c2..f624e60 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -192,7 +192,7 @@ func (cmd *SpliceSchedule) writeTo(t *table) {
 	t.row(0, "splice_schedule() {", nil)
 	t.row(1, "splice_count", strconv.Itoa(len(cmd.Events)))
 	for i, e := range cmd.Events {
-		t.row(1, "event["+strconv.Itoa(i)+"]", nil)
+		t.row(1, "event["+strconv.Itoa(i)+"] {", nil)
 		t.row(2, "splice_event_id", e.SpliceEventID)
 		t.row(2, "splice_event_cancel_indicator", e.SpliceEventCancelIndicator)
 		t.row(2, "event_id_compliance_flag", e.EventIDComplianceFlag)
@@ -205,19 +205,19 @@ func (cmd *SpliceSchedule) writeTo(t *table) {
 			} else {
 				t.row(2, "component_count", len(e.Components))
 				for j, c := range e.Components {
-					t.row(2, "component["+strconv.Itoa(j)+"]", nil)
+					t.row(2, "component["+strconv.Itoa(j)+"] {", nil)
 					t.row(3, "component_tag", c.Tag)
 					t.row(3, "utc_splice_time", c.UTCSpliceTime)
 					t.row(2, "}", nil)
 				}
 			}
 			if e.DurationFlag() {
-				t.row(1, "auto_return", e.BreakDuration.AutoReturn)
-				t.row(1, "duration", e.BreakDuration.Duration)
+				t.row(2, "auto_return", e.BreakDuration.AutoReturn)
+				t.row(2, "duration", e.BreakDuration.Duration)
 			}
-			t.row(1, "unique_program_id", e.UniqueProgramID)
-			t.row(1, "avail_num", e.AvailNum)
-			t.row(1, "avails_expected", e.AvailsExpected)
+			t.row(2, "unique_program_id", e.UniqueProgramID)
+			t.row(2, "avail_num", e.AvailNum)
+			t.row(2, "avails_expected", e.AvailsExpected)
 		}
 		t.row(1, "}", nil)
 	}
-- 
2.43.0


From 615fac11bca67ab374b8e37db69c41d043939d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:56 +0000
Subject: [PATCH 29/29] fix: report a section which ends within a sub-segment
 as such

---
 pkg/scte35/splice_descriptor.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index 33a7490..a3655a2 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -172,11 +172,13 @@ func decodeSpliceDescriptors(b []byte) ([]SpliceDescriptor, error) {
 		// and descriptor_length).
 		sd := NewSpliceDescriptor(identifier, spliceDescriptorTag)
 		sdb := r.Bytes(descriptorLength + 2)
-		if derr := sd.decode(sdb); derr != nil {
+		derr := sd.decode(sdb)
+		if len(sdb) < descriptorLength+2 {
+			derr = fmt.Errorf("splice_descriptor: %w", ErrBufferOverflow)
+		}
+		if derr != nil {
 			// Store the error but continue decoding the rest of the signal.
 			err = derr
-		} else if len(sdb) < descriptorLength+2 {
-			err = fmt.Errorf("splice_descriptor: %w", ErrBufferOverflow)
 		}
 		sds = append(sds, sd)
 	}
-- 
2.43.0

