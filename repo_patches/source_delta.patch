From 545edc8fa09adc095dd109349bcf8e1a1d66844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 01/38] fix: decode a cancelled splice_insert, which carries
 nothing after the cancel indicator

---
 pkg/scte35/splice_insert.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index 30af225..b5330b5 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -117,6 +117,13 @@ func (cmd *SpliceInsert) decode(b []byte) error {
 	cmd.SpliceEventID = r.Uint32(32)
 	cmd.SpliceEventCancelIndicator = r.Bit()
 	r.Skip(7) // reserved
+	if cmd.SpliceEventCancelIndicator {
+		// a cancelled event carries nothing else
+		if err := readerError(r); err != nil {
+			return fmt.Errorf("splice_insert: %w", err)
+		}
+		return nil
+	}
 	if !cmd.SpliceEventCancelIndicator {
 		cmd.OutOfNetworkIndicator = r.Bit()
 		programSpliceFlag := r.Bit()
-- 
2.43.0


From 34d10185f075ce8c63cda7cff9f023d1e424f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 02/38] fix: encode and decode cancelled splice_schedule events
 without trailing fields

---
 pkg/scte35/splice_schedule.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index ef47b7a..ef79068 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -57,6 +57,11 @@ func (cmd *SpliceSchedule) decode(b []byte) error {
 		e.SpliceEventCancelIndicator = r.Bit()
 		e.EventIDComplianceFlag = !r.Bit() // event_id_compliance_flag has inverted semantics
 		r.Skip(6)                          // reserved
+		if e.SpliceEventCancelIndicator {
+			// a cancelled event carries nothing else
+			cmd.Events[i] = e
+			continue
+		}
 		if !e.SpliceEventCancelIndicator {
 			e.OutOfNetworkIndicator = r.Bit()
 			programSpliceFlag := r.Bit()
@@ -105,6 +110,9 @@ func (cmd *SpliceSchedule) encode() ([]byte, error) {
 		iow.PutBit(e.SpliceEventCancelIndicator)
 		iow.PutBit(!e.EventIDComplianceFlag) // event_id_compliance_flag has inverted semantics
 		iow.PutUint32(6, Reserved)           // reserved
+		if e.SpliceEventCancelIndicator {
+			continue // a cancelled event carries nothing else
+		}
 		if !e.SpliceEventCancelIndicator {
 			iow.PutBit(e.OutOfNetworkIndicator)
 			iow.PutBit(e.ProgramSpliceFlag())
-- 
2.43.0


From 0f414eefc6b4cfa2cfeeec8caca1fcafdf3cf161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 03/38] fix: encode audio_count in 4 bits and flush the
 audio_descriptor

---
 pkg/scte35/audio_descriptor.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index 4ad6c18..1228dd1 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -81,7 +81,7 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 	iow.PutUint32(8, AudioDescriptorTag)
 	iow.PutUint32(8, uint32(length))
 	iow.PutUint32(32, CUEIdentifier)
-	iow.PutUint32(8, uint32(len(sd.AudioChannels)))
+	iow.PutUint32(4, uint32(len(sd.AudioChannels)))
 	iow.PutUint32(4, Reserved)
 	for _, ad := range sd.AudioChannels {
 		iow.PutUint32(8, ad.ComponentTag)
@@ -90,7 +90,8 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 		iow.PutUint32(4, ad.NumChannels)
 		iow.PutBit(ad.FullSrvcAudio)
 	}
-	return buf, nil
+	err := iow.Flush()
+	return buf, err
 }
 
 // descriptorLength returns the descriptor_length
-- 
2.43.0


From 1c04db3076867b27d7e2e8e9d6117cbf04a83811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 04/38] fix: calculate E_CRC_32 over the encrypted portion and
 include it in CRC_32

---
 pkg/scte35/splice_info_section.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index a392c95..aac6ddc 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -211,7 +211,9 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 
 	// Encoding encrypted signals is untested.
 	if sis.EncryptedPacket.EncryptionAlgorithm != EncryptionAlgorithmNone {
-		iow.PutUint32(32, calculateCRC32(buf[:iow.Index()/8])) // E_CRC_32
+		// the encrypted portion starts with splice_command_type
+		iow.PutUint32(32, calculateCRC32(buf[13:iow.Index()/8])) // E_CRC_32
+		_ = iow.Flush()
 	}
 
 	// Re-calculate CRC_32 to ensure correctness
-- 
2.43.0


From 714b491d43f070f600a1189819071f7477d16420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 05/38] fix: keep the private_command when unmarshalling XML

---
 pkg/scte35/splice_info_section.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index aac6ddc..8716c6d 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -438,6 +438,9 @@ func (i *iSIS) SpliceCommand() SpliceCommand {
 	if i.BandwidthReservation != nil {
 		return i.BandwidthReservation
 	}
+	if i.PrivateCommand != nil {
+		return i.PrivateCommand
+	}
 
 	// no valid splice_command?
 	if i.SpliceCommandRaw == nil {
-- 
2.43.0


From a1cff36213ef550e7707dac86a73d279094b4221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 06/38] fix: keep preRollMilliSeconds when (un)marshalling JSON
 and XML

---
 pkg/scte35/splice_info_section.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 8716c6d..3d87cb3 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -305,6 +305,9 @@ func (sis *SpliceInfoSection) MarshalJSON() ([]byte, error) {
 	if sis.PTSAdjustment > 0 {
 		m["ptsAdjustment"] = sis.PTSAdjustment
 	}
+	if sis.PreRollMilliSeconds > 0 {
+		m["preRollMilliSeconds"] = sis.PreRollMilliSeconds
+	}
 	if len(sis.SpliceDescriptors) > 0 {
 		m["spliceDescriptors"] = sis.SpliceDescriptors
 	}
@@ -326,6 +329,7 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 	} else {
 		sis.SAPType = SAPTypeNotSpecified
 	}
+	sis.PreRollMilliSeconds = tmp.PreRollMilliSeconds
 	sis.PTSAdjustment = tmp.PTSAdjustment
 	sis.ProtocolVersion = tmp.ProtocolVersion
 	sis.Tier = tmp.Tier
@@ -346,6 +350,7 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	} else {
 		sis.SAPType = SAPTypeNotSpecified
 	}
+	sis.PreRollMilliSeconds = tmp.PreRollMilliSeconds
 	sis.PTSAdjustment = tmp.PTSAdjustment
 	sis.ProtocolVersion = tmp.ProtocolVersion
 	sis.Tier = tmp.Tier
@@ -415,6 +420,7 @@ type iSIS struct {
 	PrivateCommand       *PrivateCommand       `xml:"http://www.scte.org/schemas/35 PrivateCommand" json:"-"`
 	SpliceDescriptors    SpliceDescriptors     `xml:",any" json:"spliceDescriptors"`
 	SAPType              *uint32               `xml:"sapType,attr" json:"sapType,omitempty"`
+	PreRollMilliSeconds  uint32                `xml:"preRollMilliSeconds,attr" json:"preRollMilliSeconds"`
 	PTSAdjustment        uint64                `xml:"ptsAdjustment,attr" json:"ptsAdjustment"`
 	ProtocolVersion      uint32                `xml:"protocolVersion,attr" json:"protocolVersion"`
 	Tier                 uint32                `xml:"tier,attr" json:"tier"`
-- 
2.43.0


From 4735ce20170b8aa8c90d6d238c5e881f10866d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 07/38] fix: do not panic marshalling a section without a
 splice_command to JSON

---
 pkg/scte35/splice_info_section.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 3d87cb3..4642f79 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -288,7 +288,9 @@ func (sis *SpliceInfoSection) Table(prefix, indent string) string {
 func (sis *SpliceInfoSection) MarshalJSON() ([]byte, error) {
 	// ensure JSONTypes are all set before marshalling. These are included in
 	// each SpliceCommand.Type() and SpliceDescriptor.Tag() implementation.
-	sis.SpliceCommand.Type()
+	if sis.SpliceCommand != nil {
+		sis.SpliceCommand.Type()
+	}
 	for i := range sis.SpliceDescriptors {
 		sis.SpliceDescriptors[i].Tag()
 	}
-- 
2.43.0


From 4dfd9c97816a66a7008df123c3f47e373554fd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 08/38] fix: do not panic on an MPU without a format identifier

---
 pkg/scte35/segmentation_upid.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 5e26ccc..9e0defb 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -250,6 +250,9 @@ func (upid *SegmentationUPID) eidrTypeName() string {
 
 // formatIdentifierString returns the format identifier as a string
 func (upid *SegmentationUPID) formatIdentifierString() string {
+	if upid.FormatIdentifier == nil {
+		return ""
+	}
 	b := make([]byte, 4)
 	binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
 	return string(b)
@@ -275,7 +278,9 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 	// MPU - custom
 	case SegmentationUPIDTypeMPU:
 		b := make([]byte, 4)
-		binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
+		if upid.FormatIdentifier != nil {
+			binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
+		}
 		v, err := base64.StdEncoding.DecodeString(upid.Value)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
-- 
2.43.0


From eb7cbe13d437ec05cc52a38299c6e3fc3e78b934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 09/38] fix: do not mistake a binary EIDR containing 0x2F for a
 canonical one

---
 pkg/scte35/segmentation_upid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 9e0defb..11dd13a 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -309,7 +309,7 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 // canonicalEIDR returns a canonical EIDR.
 func canonicalEIDR(b []byte) string {
 	// already canonical
-	if bytes.Contains(b, []byte("/")) {
+	if len(b) != 12 && bytes.Contains(b, []byte("/")) {
 		return string(b)
 	}
 
-- 
2.43.0


From b4adbffdafe2322ecf12b2da17b51c3cc94df457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 10/38] fix: do not modify the UPID while encoding it

---
 pkg/scte35/segmentation_upid.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 11dd13a..2e7eb9a 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -260,6 +260,8 @@ func (upid *SegmentationUPID) formatIdentifierString() string {
 
 // valueBytes returns the value as a byte array.
 func (upid *SegmentationUPID) valueBytes() []byte {
+	cp := *upid // leave the caller's UPID untouched
+	upid = &cp
 	upid.Value = strings.TrimSpace(upid.Value)
 
 	// this switch should align with the constructor above
-- 
2.43.0


From 303434192e6cf6b8a4f99e7646232a7337af69de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 11/38] fix: do not overflow converting GPS seconds to a
 UTCSpliceTime

---
 pkg/scte35/scte35.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index c8fab99..2a0256d 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -125,7 +125,7 @@ func (bb *Bytes) UnmarshalText(b []byte) error {
 // from GPS Epoch (01 Jan 1980, 00:00:00 UTC)
 func NewUTCSpliceTime(sec uint32) UTCSpliceTime {
 	return UTCSpliceTime{
-		time.Unix(int64(sec+unixEpochToGPSEpoch), 0),
+		time.Unix(int64(sec)+int64(unixEpochToGPSEpoch), 0),
 	}
 }
 
-- 
2.43.0


From 82dc21e3579f759b428323b84ad54425893f00fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 12/38] fix: print sub-segment values in the table, for every
 type which carries them

---
 pkg/scte35/segmentation_descriptor.go | 6 +++++-
 pkg/scte35/table.go                   | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index d4611c0..8600b93 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -602,7 +602,11 @@ func (sd *SegmentationDescriptor) writeTo(t *table) {
 	t.row(1, "segment_num", sd.SegmentNum)
 	t.row(1, "segments_expected", sd.SegmentsExpected)
 	switch sd.SegmentationTypeID {
-	case SegmentationTypeProviderPOStart,
+	case SegmentationTypeProviderAdStart,
+		SegmentationTypeDistributorAdStart,
+		SegmentationTypeProviderAdBlockStart,
+		SegmentationTypeDistributorAdBlockStart,
+		SegmentationTypeProviderPOStart,
 		SegmentationTypeDistributorPOStart,
 		SegmentationTypeProviderOverlayPOStart,
 		SegmentationTypeDistributorOverlayPOStart:
diff --git a/pkg/scte35/table.go b/pkg/scte35/table.go
index 702e16e..23feb3b 100644
--- a/pkg/scte35/table.go
+++ b/pkg/scte35/table.go
@@ -69,6 +69,11 @@ func valueString(value any) string {
 		return strconv.FormatUint(uint64(vt), 10)
 	case uint64:
 		return strconv.FormatUint(vt, 10)
+	case *uint32:
+		if vt == nil {
+			return ""
+		}
+		return strconv.FormatUint(uint64(*vt), 10)
 	case *uint64:
 		if vt == nil {
 			return ""
-- 
2.43.0


From 49777cf13a69d79c20b8a7509f0fcffcc9110192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 13/38] fix: keep the tenths of the dtmf_descriptor preroll in
 the table

---
 pkg/scte35/dtmf_descriptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 2183bd8..94e8938 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -45,7 +45,7 @@ func (sd *DTMFDescriptor) writeTo(t *table) {
 	t.row(1, "splice_descriptor_tag", fmt.Sprintf("%#02x", DTMFDescriptorTag))
 	t.row(1, "descriptor_length", sd.length())
 	t.row(1, "identifier", fmt.Sprintf("%#08x (%s)", CUEIdentifier, CUEIASCII))
-	t.row(1, "preroll", float32(sd.Preroll/10))
+	t.row(1, "preroll", float32(sd.Preroll)/10)
 	t.row(1, "dtmf_count", len(sd.DTMFChars))
 	t.row(1, "dtmf_chars", sd.DTMFChars)
 	t.row(0, "}", nil)
-- 
2.43.0


From d60b7830bbf51c8125fa73e36d4a9abd09ad0b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 14/38] fix: discard the previous contents when decoding into a
 section again

---
 pkg/scte35/splice_info_section.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 4642f79..ae17536 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -80,6 +80,8 @@ func (sis *SpliceInfoSection) Base64() string {
 
 // Decode the contents of a byte array into this SpliceInfoSection.
 func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
+	*sis = SpliceInfoSection{} // discard anything previously decoded
+
 	r := iobit.NewReader(b)
 	r.Skip(8) // table_id (shall be 0xFC)
 	r.Skip(1) // section_syntax_indicator (shall be 0)
@@ -323,6 +325,7 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 		return err
 	}
 
+	*sis = SpliceInfoSection{} // discard anything previously decoded
 	sis.EncryptedPacket = tmp.EncryptedPacket
 	sis.SpliceCommand = tmp.SpliceCommand()
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
@@ -344,6 +347,7 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	if err := d.DecodeElement(&tmp, &start); err != nil {
 		return err
 	}
+	*sis = SpliceInfoSection{} // discard anything previously decoded
 	sis.EncryptedPacket = tmp.EncryptedPacket
 	sis.SpliceCommand = tmp.SpliceCommand()
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
-- 
2.43.0


From 4737f5722b40e5b254af7e6119c257eafaf1c450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 15/38] fix: do not retain the decoded buffer, which the caller
 may reuse

---
 pkg/scte35/splice_info_section.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index ae17536..5ff1e65 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -82,6 +82,7 @@ func (sis *SpliceInfoSection) Base64() string {
 func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 	*sis = SpliceInfoSection{} // discard anything previously decoded
 
+	b = append([]byte(nil), b...) // never retain the caller's buffer
 	r := iobit.NewReader(b)
 	r.Skip(8) // table_id (shall be 0xFC)
 	r.Skip(1) // section_syntax_indicator (shall be 0)
-- 
2.43.0


From f63e969ed9fe89ef4dd319b9b863e4a34d3b4aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 16/38] fix: keep line breaks and long lines when encoding from
 stdin

---
 cmd/encode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/encode.go b/cmd/encode.go
index cd3850d..83d3567 100644
--- a/cmd/encode.go
+++ b/cmd/encode.go
@@ -21,6 +21,7 @@ import (
 	"encoding/json"
 	"encoding/xml"
 	"fmt"
+	"math"
 	"os"
 	"strings"
 
@@ -48,8 +49,9 @@ func encodeCommand() *cobra.Command {
 				input = args[0]
 			} else {
 				scanner := bufio.NewScanner(os.Stdin)
+				scanner.Buffer(nil, math.MaxInt32)
 				for scanner.Scan() {
-					input += scanner.Text()
+					input += scanner.Text() + "\n"
 				}
 				err = scanner.Err()
 				if err != nil {
-- 
2.43.0


From eac1f52229fd989c9cbe2ddd871a80cb4ae0b0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 17/38] fix: report a buffer underflow when splice_null or
 bandwidth_reservation bytes are left over

---
 pkg/scte35/bandwidth_reservation.go | 2 +-
 pkg/scte35/splice_null.go           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/bandwidth_reservation.go b/pkg/scte35/bandwidth_reservation.go
index c6607f7..c14c258 100644
--- a/pkg/scte35/bandwidth_reservation.go
+++ b/pkg/scte35/bandwidth_reservation.go
@@ -52,7 +52,7 @@ func (cmd *BandwidthReservation) Type() uint32 {
 // decode a binary bandwidth_reservation.
 func (cmd *BandwidthReservation) decode(b []byte) error {
 	if len(b) > 0 {
-		return fmt.Errorf("bandwidth_reservation: %w", ErrBufferOverflow)
+		return fmt.Errorf("bandwidth_reservation: %w", ErrBufferUnderflow)
 	}
 	return nil
 }
diff --git a/pkg/scte35/splice_null.go b/pkg/scte35/splice_null.go
index 6ac71cf..7edf6af 100644
--- a/pkg/scte35/splice_null.go
+++ b/pkg/scte35/splice_null.go
@@ -46,7 +46,7 @@ func (cmd *SpliceNull) Type() uint32 {
 // decode a binary splice_null.
 func (cmd *SpliceNull) decode(b []byte) error {
 	if len(b) > 0 {
-		return fmt.Errorf("splice_null: %w", ErrBufferOverflow)
+		return fmt.Errorf("splice_null: %w", ErrBufferUnderflow)
 	}
 	return nil
 }
-- 
2.43.0


From fe86dfc33b281f59a4b5093b54867cc1f49e69a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 18/38] fix: report a buffer overflow for signals cut short

---
 pkg/scte35/dtmf_descriptor.go     | 3 +++
 pkg/scte35/splice_descriptor.go   | 3 +++
 pkg/scte35/splice_info_section.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 94e8938..482f075 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -68,6 +68,9 @@ func (sd *DTMFDescriptor) decode(b []byte) error {
 	dtmfCount := int(r.Uint32(3))
 	r.Skip(5) // reserved
 	sd.DTMFChars = r.String(dtmfCount)
+	if len(sd.DTMFChars) < dtmfCount {
+		return fmt.Errorf("dtmf_descriptor: %w", ErrBufferOverflow)
+	}
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("dtmf_descriptor: %w", err)
diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index 655d728..c8a75a0 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -168,6 +168,9 @@ func decodeSpliceDescriptors(b []byte) ([]SpliceDescriptor, error) {
 		// Decode the full splice_descriptor (including splice_descriptor_tag
 		// and descriptor_length).
 		sd := NewSpliceDescriptor(identifier, spliceDescriptorTag)
+		if int(r.LeftBits()/8) < descriptorLength+2 {
+			err = fmt.Errorf("splice_descriptor: %w", ErrBufferOverflow)
+		}
 		if derr := sd.decode(r.Bytes(descriptorLength + 2)); derr != nil {
 			// Store the error but continue decoding the rest of the signal.
 			err = derr
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 5ff1e65..811875a 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -139,6 +139,9 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_info_section: %w", err)
 	}
+	if len(sis.crc32) < 4 {
+		return fmt.Errorf("splice_info_section: %w", ErrBufferOverflow)
+	}
 
 	if err = verifyCRC32(b); err != nil {
 		return fmt.Errorf("splice_info_section: %w", err)
-- 
2.43.0


From 90d356c19deb97183a998ca82f4ce18074bbadce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 19/38] fix: report an error when a section cannot be
 represented in binary

---
 pkg/scte35/audio_descriptor.go    |  6 ++++++
 pkg/scte35/dtmf_descriptor.go     |  3 +++
 pkg/scte35/splice_info_section.go | 14 ++++++++++++++
 pkg/scte35/splice_insert.go       |  3 +++
 pkg/scte35/splice_schedule.go     |  6 ++++++
 5 files changed, 32 insertions(+)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index 1228dd1..b15494e 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -73,6 +73,9 @@ func (sd *AudioDescriptor) decode(b []byte) error {
 
 // encode this SpliceDescriptor to binary.
 func (sd *AudioDescriptor) encode() ([]byte, error) {
+	if len(sd.AudioChannels) > 15 {
+		return nil, fmt.Errorf("audio_descriptor: audio_count %d exceeds 15", len(sd.AudioChannels))
+	}
 	length := sd.length()
 
 	// add 2 bytes to contain splice_descriptor_tag & descriptor_length
@@ -84,6 +87,9 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 	iow.PutUint32(4, uint32(len(sd.AudioChannels)))
 	iow.PutUint32(4, Reserved)
 	for _, ad := range sd.AudioChannels {
+		if len(ad.ISOCode) != 3 {
+			return nil, fmt.Errorf("audio_descriptor: iso_code %q is not 3 bytes long", ad.ISOCode)
+		}
 		iow.PutUint32(8, ad.ComponentTag)
 		_, _ = iow.Write([]byte(ad.ISOCode))
 		iow.PutUint32(3, ad.BitStreamMode)
diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 482f075..cb87be4 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -80,6 +80,9 @@ func (sd *DTMFDescriptor) decode(b []byte) error {
 
 // encode this splice_descriptor to binary.
 func (sd *DTMFDescriptor) encode() ([]byte, error) {
+	if len(sd.DTMFChars) > 7 {
+		return nil, fmt.Errorf("dtmf_descriptor: dtmf_count %d exceeds 7", len(sd.DTMFChars))
+	}
 	length := sd.length()
 
 	// add 2 bytes to contain splice_descriptor_tag & descriptor_length
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 811875a..216f3bc 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -36,6 +36,11 @@ const (
 	// PrivateIndicator is a 1-bit flag that shall be set to 0.
 	PrivateIndicator = false
 
+	// maxSectionLength is the largest section_length which can be signaled.
+	maxSectionLength = 4093
+	// maxUint8 is the largest count or length an 8-bit field can signal.
+	maxUint8 = 0xFF
+
 	// SAPType1 indicates closed GOP with no leading pictures.
 	SAPType1 = uint32(0x0)
 	// SAPType2 indicates closed GOP with leading pictures.
@@ -173,6 +178,12 @@ func (sis *SpliceInfoSection) Duration() time.Duration {
 // Encode returns the binary representation of this SpliceInfoSection as a
 // byte array.
 func (sis *SpliceInfoSection) Encode() ([]byte, error) {
+	if sis.SpliceCommand == nil {
+		return nil, errors.New("splice_info_section: no splice_command")
+	}
+	if sis.sectionLength() > maxSectionLength {
+		return nil, fmt.Errorf("splice_info_section: section_length %d exceeds %d", sis.sectionLength(), maxSectionLength)
+	}
 	buf := make([]byte, sis.length())
 
 	iow := iobit.NewWriter(buf)
@@ -207,6 +218,9 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 		if err != nil {
 			return buf, err
 		}
+		if sd.length() > maxUint8 {
+			return buf, fmt.Errorf("splice_descriptor: descriptor_length %d exceeds %d", sd.length(), maxUint8)
+		}
 		if _, err = iow.Write(sde); err != nil {
 			return buf, err
 		}
diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index b5330b5..8d7014e 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -182,6 +182,9 @@ func (cmd *SpliceInsert) decode(b []byte) error {
 
 // encode this splice_insert to binary.
 func (cmd *SpliceInsert) encode() ([]byte, error) {
+	if len(cmd.Components) > maxUint8 {
+		return nil, fmt.Errorf("splice_insert: component_count %d exceeds %d", len(cmd.Components), maxUint8)
+	}
 	buf := make([]byte, cmd.length())
 
 	iow := iobit.NewWriter(buf)
diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index ef79068..6880766 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -101,11 +101,17 @@ func (cmd *SpliceSchedule) decode(b []byte) error {
 
 // encode this splice_schedule to binary.
 func (cmd *SpliceSchedule) encode() ([]byte, error) {
+	if len(cmd.Events) > maxUint8 {
+		return nil, fmt.Errorf("splice_schedule: splice_count %d exceeds %d", len(cmd.Events), maxUint8)
+	}
 	buf := make([]byte, cmd.length())
 	iow := iobit.NewWriter(buf)
 
 	iow.PutUint32(8, uint32(len(cmd.Events)))
 	for _, e := range cmd.Events {
+		if len(e.Components) > maxUint8 {
+			return nil, fmt.Errorf("splice_schedule: component_count %d exceeds %d", len(e.Components), maxUint8)
+		}
 		iow.PutUint32(32, e.SpliceEventID)
 		iow.PutBit(e.SpliceEventCancelIndicator)
 		iow.PutBit(!e.EventIDComplianceFlag) // event_id_compliance_flag has inverted semantics
-- 
2.43.0


From 38038d24012e5d90a984d92c2712f7100abfb66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 20/38] fix: report malformed JSON splice commands and null
 splice descriptors

---
 pkg/scte35/splice_descriptor.go   | 3 +++
 pkg/scte35/splice_info_section.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index c8a75a0..3b35bab 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -94,6 +94,9 @@ func (sds *SpliceDescriptors) UnmarshalJSON(data []byte) error {
 
 	// decode each item
 	for i := range items {
+		if string(items[i]) == "null" {
+			return fmt.Errorf("invalid splice_descriptor: null")
+		}
 		sdt := sdtype{Identifier: CUEIdentifier}
 		if err := json.Unmarshal(items[i], &sdt); err != nil {
 			return err
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 216f3bc..e5266cb 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -356,6 +356,9 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 	sis.PTSAdjustment = tmp.PTSAdjustment
 	sis.ProtocolVersion = tmp.ProtocolVersion
 	sis.Tier = tmp.Tier
+	if sis.SpliceCommand == nil && tmp.SpliceCommandRaw != nil && string(tmp.SpliceCommandRaw) != "null" {
+		return errors.New("invalid spliceCommand")
+	}
 	return nil
 }
 
@@ -473,7 +476,7 @@ func (i *iSIS) SpliceCommand() SpliceCommand {
 	}
 
 	// no valid splice_command?
-	if i.SpliceCommandRaw == nil {
+	if i.SpliceCommandRaw == nil || string(i.SpliceCommandRaw) == "null" {
 		return nil
 	}
 
-- 
2.43.0


From d713c1ca8d98631194e6224711f7d8e446e6471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 21/38] fix: keep whitespace surrounding a text UPID when
 encoding it

---
 pkg/scte35/segmentation_upid.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 2e7eb9a..a72f0c3 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -21,6 +21,7 @@ import (
 	"encoding/base64"
 	"encoding/binary"
 	"encoding/hex"
+	"encoding/xml"
 	"fmt"
 	"strconv"
 	"strings"
@@ -139,6 +140,17 @@ type SegmentationUPID struct {
 	Value            string  `xml:",chardata" json:"value"`
 }
 
+// UnmarshalXML decodes a SegmentationUPID from XML, where whitespace surrounding
+// the value is formatting.
+func (upid *SegmentationUPID) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	type plain SegmentationUPID
+	if err := d.DecodeElement((*plain)(upid), &start); err != nil {
+		return err
+	}
+	upid.Value = strings.TrimSpace(upid.Value)
+	return nil
+}
+
 // Name returns the name for the segmentation_upid_type.
 func (upid *SegmentationUPID) Name() string {
 	switch upid.Type {
@@ -260,7 +272,8 @@ func (upid *SegmentationUPID) formatIdentifierString() string {
 
 // valueBytes returns the value as a byte array.
 func (upid *SegmentationUPID) valueBytes() []byte {
-	cp := *upid // leave the caller's UPID untouched
+	text := upid.Value // whitespace is significant in text values
+	cp := *upid        // leave the caller's UPID untouched
 	upid = &cp
 	upid.Value = strings.TrimSpace(upid.Value)
 
@@ -303,7 +316,7 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 	// everything else - plain text
 	default:
 		// encode UTF8 values as Latin1 (reversing the Decode above)
-		b, _ := charmap.ISO8859_1.NewEncoder().Bytes([]byte(upid.Value))
+		b, _ := charmap.ISO8859_1.NewEncoder().Bytes([]byte(text))
 		return b
 	}
 }
-- 
2.43.0


From 21297155ed7417c28af719bdca38f0732779af9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 22/38] fix: name an EIDR by its whole prefix

---
 pkg/scte35/segmentation_upid.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index a72f0c3..3d9d89c 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -245,16 +245,15 @@ func (upid *SegmentationUPID) compressEIDR(s string) []byte {
 
 // eidrTypeName returns the EIDR type name.
 func (upid *SegmentationUPID) eidrTypeName() string {
-	if strings.HasPrefix(upid.Value, "10.5237") {
+	prefix, _, _ := strings.Cut(upid.Value, "/")
+	switch prefix {
+	case "10.5237":
 		return "Party ID"
-	}
-	if strings.HasPrefix(upid.Value, "10.5238") {
+	case "10.5238":
 		return "User ID"
-	}
-	if strings.HasPrefix(upid.Value, "10.5239") {
+	case "10.5239":
 		return "Service ID"
-	}
-	if strings.HasPrefix(upid.Value, "10.5240") {
+	case "10.5240":
 		return "Content ID"
 	}
 	return ""
-- 
2.43.0


From 5f9782fa95abce98a0810a4ec3c14d08bdf74069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 23/38] fix: convert between ticks and durations exactly

---
 pkg/scte35/scte35.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index 2a0256d..14ad017 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -23,7 +23,6 @@ import (
 	"encoding/hex"
 	"errors"
 	"log"
-	"math"
 	"strings"
 	"time"
 
@@ -85,13 +84,14 @@ func DecodeHex(s string) (*SpliceInfoSection, error) {
 
 // DurationToTicks converts a duration to 90MhZ ticks.
 func DurationToTicks(d time.Duration) uint64 {
-	return uint64(math.Ceil(float64(d) * TicksPerSecond / float64(time.Second)))
+	const n, per = 9, 100000 // 9 ticks take exactly 100000ns
+	return uint64(d/per*n + (d%per*n+per-1)/per)
 }
 
 // TicksToDuration converts 90MhZ ticks to a duration.
 func TicksToDuration(ticks uint64) time.Duration {
-	s := float64(ticks) / float64(TicksPerSecond)
-	return time.Duration(int64(s * float64(time.Second)))
+	const n, per = 9, 100000 // 9 ticks take exactly 100000ns
+	return time.Duration(ticks/n*per + ticks%n*per/n)
 }
 
 // BreakDuration specifies the duration of the commercial break(s). It may be
-- 
2.43.0


From 43bac19d47170cccba8d147197adbf4a18b190d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 24/38] fix: do not share memory between the private bytes of a
 section

---
 pkg/scte35/private_command.go    | 2 +-
 pkg/scte35/private_descriptor.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/private_command.go b/pkg/scte35/private_command.go
index bb62457..0eb964f 100644
--- a/pkg/scte35/private_command.go
+++ b/pkg/scte35/private_command.go
@@ -60,7 +60,7 @@ func (cmd *PrivateCommand) decode(b []byte) error {
 	r := iobit.NewReader(b)
 
 	cmd.Identifier = r.Uint32(32)
-	cmd.PrivateBytes = r.LeftBytes()
+	cmd.PrivateBytes = append(Bytes{}, r.LeftBytes()...) // never share memory
 	// LeftBytes doesnt advance position
 	r.Skip(uint(len(cmd.PrivateBytes) * 8))
 
diff --git a/pkg/scte35/private_descriptor.go b/pkg/scte35/private_descriptor.go
index 7a3985c..751730e 100644
--- a/pkg/scte35/private_descriptor.go
+++ b/pkg/scte35/private_descriptor.go
@@ -54,7 +54,7 @@ func (sd *PrivateDescriptor) decode(b []byte) error {
 	sd.PrivateTag = r.Uint32(8)
 	r.Skip(8) // descriptor_length
 	sd.Identifier = r.Uint32(32)
-	sd.PrivateBytes = r.LeftBytes()
+	sd.PrivateBytes = append(Bytes{}, r.LeftBytes()...) // never share memory
 	// LeftBytes doesnt advance position
 	r.Skip(uint(len(sd.PrivateBytes) * 8))
 
-- 
2.43.0


From fc527d81f338faad369b473c7052eeb32be500e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:06 +0000
Subject: [PATCH 25/38] fix: write FullSrvcAudio as 0 or 1 in XML

The SCTE 35 XML Schema declares AudioChannel/@FullSrvcAudio as an
xsd:unsignedByte no greater than 1, so true and false are not valid.
---
 pkg/scte35/audio_descriptor.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index b15494e..41f8b2f 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -139,6 +139,19 @@ type AudioChannel struct {
 	FullSrvcAudio bool   `xml:"FullSrvcAudio,attr" json:"fullSrvcAudio"`
 }
 
+// MarshalXML encodes an AudioChannel to XML, where FullSrvcAudio is 0 or 1.
+func (ac AudioChannel) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	type plain AudioChannel
+	tmp := struct {
+		plain
+		FullSrvcAudio uint32 `xml:"FullSrvcAudio,attr"`
+	}{plain: plain(ac)}
+	if ac.FullSrvcAudio {
+		tmp.FullSrvcAudio = 1
+	}
+	return e.EncodeElement(tmp, start)
+}
+
 // length returns audio_channel length.
 func (ac *AudioChannel) length() int {
 	length := 8  // component_tag
-- 
2.43.0


From 81c539adcb3ae0335ec0286d182e390407fc39c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:10 +0000
Subject: [PATCH 26/38] fix: accept the Ext element of a SpliceInfoSection in
 XML

The SCTE 35 XML Schema allows an Ext element in a SpliceInfoSection, which
was taken for an unsupported splice_descriptor.
---
 pkg/scte35/splice_descriptor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index 3b35bab..ed08e80 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -137,6 +137,9 @@ func (sds *SpliceDescriptors) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 		sd = &SegmentationDescriptor{}
 	case "TimeDescriptor":
 		sd = &TimeDescriptor{}
+	case "Ext":
+		// the schema's extensibility element, which carries nothing of ours
+		return d.Skip()
 	default:
 		return fmt.Errorf("unsupported splice_descriptor tag: %s", start.Name.Local)
 	}
-- 
2.43.0


From 8826443948d8bad500e9920caa740ce3f37c92a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:45 +0000
Subject: [PATCH 27/38] fix: honour segmentationUpidFormat when reading XML

The SCTE 35 XML Schema allows a UPID to be given as hexbinary or base-64
whatever its type; such values were taken for text, and other bytes encoded.
---
 pkg/scte35/segmentation_upid.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 3d9d89c..290c764 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -148,9 +148,38 @@ func (upid *SegmentationUPID) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 		return err
 	}
 	upid.Value = strings.TrimSpace(upid.Value)
+
+	// the schema allows any value to be given in binary, which is then presented
+	// in the form of its type
+	var b []byte
+	var err error
+	switch {
+	case upid.Format == "hexbinary":
+		b, err = hex.DecodeString(upid.Value)
+	case upid.Format == SegmentationUPIDFormatBase64 && !upid.isBase64():
+		b, err = base64.StdEncoding.DecodeString(upid.Value)
+	default:
+		return nil
+	}
+	if err != nil {
+		return fmt.Errorf("invalid %s segmentation_upid: %w", upid.Format, err)
+	}
+	if upid.Type == SegmentationUPIDTypeMPU && upid.FormatIdentifier != nil {
+		b = append(binary.BigEndian.AppendUint32(nil, *upid.FormatIdentifier), b...)
+	}
+	*upid = NewSegmentationUPID(upid.Type, b)
 	return nil
 }
 
+// isBase64 returns true if values of this type are presented in base64.
+func (upid *SegmentationUPID) isBase64() bool {
+	switch upid.Type {
+	case SegmentationUPIDTypeISAN, SegmentationUPIDTypeISANDeprecated, SegmentationUPIDTypeMPU:
+		return true
+	}
+	return false
+}
+
 // Name returns the name for the segmentation_upid_type.
 func (upid *SegmentationUPID) Name() string {
 	switch upid.Type {
-- 
2.43.0


From 4efe28b922e2f3ad5203b8d99df116f757871d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 28/38] fix: read PrivateBytes and descriptorTag in XML

The SCTE 35 XML Schema carries private bytes in a PrivateBytes element and the
tag of a PrivateDescriptor in descriptorTag. Both were ignored, which lost the
content of conforming documents. The form written so far is still read.
---
 pkg/scte35/private_command.go    | 17 +++++++++++++++++
 pkg/scte35/private_descriptor.go | 24 ++++++++++++++++++++++++
 pkg/scte35/scte35.go             |  9 +++++++++
 3 files changed, 50 insertions(+)

diff --git a/pkg/scte35/private_command.go b/pkg/scte35/private_command.go
index 0eb964f..b5cbebe 100644
--- a/pkg/scte35/private_command.go
+++ b/pkg/scte35/private_command.go
@@ -48,6 +48,23 @@ func (cmd *PrivateCommand) IdentifierString() string {
 	return string(b)
 }
 
+// UnmarshalXML decodes a PrivateCommand from XML. The bytes are the element's
+// character data, or its PrivateBytes element as in the SCTE 35 XML Schema.
+func (cmd *PrivateCommand) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	var tmp struct {
+		XMLName      xml.Name `xml:"http://www.scte.org/schemas/35 PrivateCommand"`
+		Identifier   uint32   `xml:"identifier,attr"`
+		PrivateBytes string   `xml:"http://www.scte.org/schemas/35 PrivateBytes"`
+		CharData     string   `xml:",chardata"`
+	}
+	if err := d.DecodeElement(&tmp, &start); err != nil {
+		return err
+	}
+	cmd.XMLName = tmp.XMLName
+	cmd.Identifier = tmp.Identifier
+	return cmd.PrivateBytes.unmarshalXML(tmp.PrivateBytes, tmp.CharData)
+}
+
 // Type returns the splice_command_type.
 func (cmd *PrivateCommand) Type() uint32 {
 	// ensure JSONType is set
diff --git a/pkg/scte35/private_descriptor.go b/pkg/scte35/private_descriptor.go
index 751730e..8e17d2c 100644
--- a/pkg/scte35/private_descriptor.go
+++ b/pkg/scte35/private_descriptor.go
@@ -40,6 +40,30 @@ func (sd *PrivateDescriptor) IdentifierString() string {
 	return string(b)
 }
 
+// UnmarshalXML decodes a PrivateDescriptor from XML. The tag and bytes are the
+// tag attribute and the element's character data, or the descriptorTag attribute
+// and the PrivateBytes element as in the SCTE 35 XML Schema.
+func (sd *PrivateDescriptor) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	var tmp struct {
+		XMLName       xml.Name `xml:"http://www.scte.org/schemas/35 PrivateDescriptor"`
+		PrivateTag    uint32   `xml:"tag,attr"`
+		DescriptorTag *uint32  `xml:"descriptorTag,attr"`
+		Identifier    uint32   `xml:"identifier,attr"`
+		PrivateBytes  string   `xml:"http://www.scte.org/schemas/35 PrivateBytes"`
+		CharData      string   `xml:",chardata"`
+	}
+	if err := d.DecodeElement(&tmp, &start); err != nil {
+		return err
+	}
+	sd.XMLName = tmp.XMLName
+	sd.PrivateTag = tmp.PrivateTag
+	if tmp.DescriptorTag != nil {
+		sd.PrivateTag = *tmp.DescriptorTag
+	}
+	sd.Identifier = tmp.Identifier
+	return sd.PrivateBytes.unmarshalXML(tmp.PrivateBytes, tmp.CharData)
+}
+
 // Tag returns the splice_descriptor_tag.
 func (sd *PrivateDescriptor) Tag() uint32 {
 	// ensure JSONType is set
diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index 14ad017..adb7e9e 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -121,6 +121,15 @@ func (bb *Bytes) UnmarshalText(b []byte) error {
 	return nil
 }
 
+// unmarshalXML decodes private bytes given as the content of a PrivateBytes
+// element or, otherwise, as the character data of the enclosing one.
+func (bb *Bytes) unmarshalXML(element, charData string) error {
+	if element = strings.TrimSpace(element); element == "" {
+		element = strings.TrimSpace(charData)
+	}
+	return bb.UnmarshalText([]byte(element))
+}
+
 // NewUTCSpliceTime creates a UTCSpliceTime representing the number of seconds
 // from GPS Epoch (01 Jan 1980, 00:00:00 UTC)
 func NewUTCSpliceTime(sec uint32) UTCSpliceTime {
-- 
2.43.0


From 0dbd6755cf5cbb8bb01852c2fcfdbd71172cb1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:46 +0000
Subject: [PATCH 29/38] fix: leave out empty DTMF chars in XML

The SCTE 35 XML Schema requires at least one character in DTMFDescriptor/@chars,
which is optional.
---
 pkg/scte35/dtmf_descriptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index cb87be4..098e5c9 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -36,7 +36,7 @@ type DTMFDescriptor struct {
 	XMLName   xml.Name `xml:"http://www.scte.org/schemas/35 DTMFDescriptor" json:"-"`
 	JSONType  uint32   `xml:"-" json:"type"`
 	Preroll   uint32   `xml:"preroll,attr" json:"preroll"`
-	DTMFChars string   `xml:"chars,attr" json:"chars"`
+	DTMFChars string   `xml:"chars,attr,omitempty" json:"chars"`
 }
 
 // writeTo the given table.
-- 
2.43.0


From 17e6a97786a59668c02a39077cb9b8d8d50ac414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 30/38] fix: ignore attributes of other namespaces in XML

---
 pkg/scte35/splice_info_section.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index e5266cb..621f298 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -365,7 +365,7 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 // UnmarshalXML decodes a SpliceInfoSection from XML.
 func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	var tmp iSIS
-	if err := d.DecodeElement(&tmp, &start); err != nil {
+	if err := xml.NewTokenDecoder(&ownTokens{d: d, start: &start}).Decode(&tmp); err != nil {
 		return err
 	}
 	*sis = SpliceInfoSection{} // discard anything previously decoded
@@ -384,6 +384,35 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	return nil
 }
 
+// ownTokens reads an element without the attributes of other namespaces (and
+// namespace declarations), which are not ours whatever their local name.
+type ownTokens struct {
+	d     *xml.Decoder
+	start *xml.StartElement
+}
+
+// Token returns the next token.
+func (t *ownTokens) Token() (xml.Token, error) {
+	var tok xml.Token
+	var err error
+	if t.start != nil {
+		tok, t.start = *t.start, nil
+	} else if tok, err = t.d.Token(); err != nil {
+		return nil, err
+	}
+	if se, ok := tok.(xml.StartElement); ok {
+		var attrs []xml.Attr
+		for _, a := range se.Attr {
+			if a.Name.Space == "" || a.Name.Space == se.Name.Space {
+				attrs = append(attrs, a)
+			}
+		}
+		se.Attr = attrs
+		tok = se
+	}
+	return tok, nil
+}
+
 // length returns the expected length of the encoded splice_info_section, in
 // bytes.
 func (sis *SpliceInfoSection) length() int {
-- 
2.43.0


From 23c45a7707c188bb5c627cca32829efe28ffa562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 31/38] fix: accept a utcSpliceTime without an offset in XML

---
 pkg/scte35/scte35.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index adb7e9e..f680452 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -21,6 +21,7 @@ package scte35
 import (
 	"encoding/base64"
 	"encoding/hex"
+	"encoding/xml"
 	"errors"
 	"log"
 	"strings"
@@ -143,6 +144,17 @@ type UTCSpliceTime struct {
 	time.Time
 }
 
+// UnmarshalXMLAttr decodes an xsd:dateTime, which is in UTC unless it has an
+// offset.
+func (t *UTCSpliceTime) UnmarshalXMLAttr(attr xml.Attr) error {
+	s := strings.TrimSpace(attr.Value)
+	err := t.Time.UnmarshalText([]byte(s))
+	if err != nil && t.Time.UnmarshalText([]byte(s+"Z")) == nil {
+		return nil
+	}
+	return err
+}
+
 // GPSSeconds returns the seconds since GPS Epoch
 func (t UTCSpliceTime) GPSSeconds() uint32 {
 	return uint32(t.Time.Unix()) - unixEpochToGPSEpoch
-- 
2.43.0


From feb8fd9e3eed0e6cb415c1cb72655f9e2bdadebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 32/38] fix: show utc_splice_time in UTC whatever zone the
 machine or the value is in

---
 pkg/scte35/scte35.go          | 2 +-
 pkg/scte35/splice_schedule.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index f680452..836c306 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -135,7 +135,7 @@ func (bb *Bytes) unmarshalXML(element, charData string) error {
 // from GPS Epoch (01 Jan 1980, 00:00:00 UTC)
 func NewUTCSpliceTime(sec uint32) UTCSpliceTime {
 	return UTCSpliceTime{
-		time.Unix(int64(sec)+int64(unixEpochToGPSEpoch), 0),
+		time.Unix(int64(sec)+int64(unixEpochToGPSEpoch), 0).UTC(),
 	}
 }
 
diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index 6880766..115063c 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -209,13 +209,13 @@ func (cmd *SpliceSchedule) writeTo(t *table) {
 			t.row(2, "program_splice_flag", e.ProgramSpliceFlag())
 			t.row(2, "duration_flag", e.DurationFlag())
 			if e.ProgramSpliceFlag() {
-				t.row(2, "utc_splice_time", e.Program.UTCSpliceTime)
+				t.row(2, "utc_splice_time", e.Program.UTCSpliceTime.UTC())
 			} else {
 				t.row(2, "component_count", len(e.Components))
 				for j, c := range e.Components {
 					t.row(2, "component["+strconv.Itoa(j)+"]", nil)
 					t.row(3, "component_tag", c.Tag)
-					t.row(3, "utc_splice_time", c.UTCSpliceTime)
+					t.row(3, "utc_splice_time", c.UTCSpliceTime.UTC())
 					t.row(2, "}", nil)
 				}
 			}
-- 
2.43.0


From f52df431a9c3768a8a0292c5b551d45e44746e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:24 +0000
Subject: [PATCH 33/38] fix: read xsd:dateTime values which give midnight as
 T24:00:00

---
 pkg/scte35/scte35.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index 836c306..8ff3a83 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -23,6 +23,7 @@ import (
 	"encoding/hex"
 	"encoding/xml"
 	"errors"
+	"fmt"
 	"log"
 	"strings"
 	"time"
@@ -148,6 +149,18 @@ type UTCSpliceTime struct {
 // offset.
 func (t *UTCSpliceTime) UnmarshalXMLAttr(attr xml.Attr) error {
 	s := strings.TrimSpace(attr.Value)
+	if date, rest, ok := strings.Cut(s, "T24:00:00"); ok {
+		// midnight, as the end of the previous day
+		attr.Value = date + "T00:00:00" + rest
+		if err := t.UnmarshalXMLAttr(attr); err != nil {
+			return err
+		}
+		if t.Time.Nanosecond() != 0 {
+			return fmt.Errorf("invalid utcSpliceTime: %s", s)
+		}
+		t.Time = t.Time.Add(24 * time.Hour)
+		return nil
+	}
 	err := t.Time.UnmarshalText([]byte(s))
 	if err != nil && t.Time.UnmarshalText([]byte(s+"Z")) == nil {
 		return nil
-- 
2.43.0


From 53f8f4aad9fed80c8d4710f9725e43b2d3ea54f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:48 +0000
Subject: [PATCH 34/38] fix: scte35 encode printed empty encodings, besides the
 error, for a section that cannot be encoded

---
 cmd/encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/encode.go b/cmd/encode.go
index 83d3567..f1548e7 100644
--- a/cmd/encode.go
+++ b/cmd/encode.go
@@ -72,6 +72,10 @@ func encodeCommand() *cobra.Command {
 				_, _ = fmt.Fprintf(os.Stderr, "Error: %s\n", err)
 				return
 			}
+			if _, err = sis.Encode(); err != nil {
+				_, _ = fmt.Fprintf(os.Stderr, "Error: %s\n", err)
+				return
+			}
 
 			_, _ = fmt.Fprintf(os.Stdout, "Base64: %s\n", sis.Base64())
 			_, _ = fmt.Fprintf(os.Stdout, "Hex   : %s\n", sis.Hex())
-- 
2.43.0


From f9ffff2203ae989cc819c648252559a66c7cb360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:30 +0000
Subject: [PATCH 35/38] fix: an instant in a time zone whose offset has seconds
 was marshalled to JSON and XML as another instant

---
 pkg/scte35/scte35.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index 8ff3a83..af467cc 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -145,6 +145,16 @@ type UTCSpliceTime struct {
 	time.Time
 }
 
+// MarshalJSON encodes the instant in UTC.
+func (t UTCSpliceTime) MarshalJSON() ([]byte, error) {
+	return t.Time.UTC().MarshalJSON()
+}
+
+// MarshalText encodes the instant in UTC.
+func (t UTCSpliceTime) MarshalText() ([]byte, error) {
+	return t.Time.UTC().MarshalText()
+}
+
 // UnmarshalXMLAttr decodes an xsd:dateTime, which is in UTC unless it has an
 // offset.
 func (t *UTCSpliceTime) UnmarshalXMLAttr(attr xml.Attr) error {
-- 
2.43.0


From 2268cc63e257a3bb02ca8f3305c214a0e87cd1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:49 +0000
Subject: [PATCH 36/38] fix: a SpliceInfoSection held by value was marshalled
 to JSON that cannot be read

---
 pkg/scte35/splice_info_section.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 621f298..e75c9a0 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -305,7 +305,7 @@ func (sis *SpliceInfoSection) Table(prefix, indent string) string {
 }
 
 // MarshalJSON encodes a SpliceInfoSection to JSON.
-func (sis *SpliceInfoSection) MarshalJSON() ([]byte, error) {
+func (sis SpliceInfoSection) MarshalJSON() ([]byte, error) {
 	// ensure JSONTypes are all set before marshalling. These are included in
 	// each SpliceCommand.Type() and SpliceDescriptor.Tag() implementation.
 	if sis.SpliceCommand != nil {
-- 
2.43.0


From a7e760a068f864069e97559fd434d24cb575c3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:50 +0000
Subject: [PATCH 37/38] fix: a list of descriptors marshalled to JSON on its
 own lost the kinds of its descriptors

---
 pkg/scte35/splice_descriptor.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index ed08e80..b7918b3 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -75,6 +75,17 @@ type SpliceDescriptor interface {
 // SpliceDescriptors is a slice of SpliceDescriptor.
 type SpliceDescriptors []SpliceDescriptor
 
+// MarshalJSON encodes a slice of SpliceDescriptors to a JSON array.
+func (sds SpliceDescriptors) MarshalJSON() ([]byte, error) {
+	// ensure JSONTypes are all set before marshalling.
+	for _, sd := range sds {
+		if sd != nil {
+			sd.Tag()
+		}
+	}
+	return json.Marshal([]SpliceDescriptor(sds))
+}
+
 // UnmarshalJSON decodes a JSON array into a slice of SpliceDescriptors.
 func (sds *SpliceDescriptors) UnmarshalJSON(data []byte) error {
 	// split the array into individual JSON objects
-- 
2.43.0


From ab30bcc755753551bf8533bcbb7ee5e2808e7728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:50 +0000
Subject: [PATCH 38/38] fix: a UPID beginning or ending with a no-break space
 lost it through XML

---
 pkg/scte35/segmentation_upid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 290c764..4f25283 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -147,7 +147,7 @@ func (upid *SegmentationUPID) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	if err := d.DecodeElement((*plain)(upid), &start); err != nil {
 		return err
 	}
-	upid.Value = strings.TrimSpace(upid.Value)
+	upid.Value = strings.Trim(upid.Value, " \t\r\n")
 
 	// the schema allows any value to be given in binary, which is then presented
 	// in the form of its type
-- 
2.43.0

