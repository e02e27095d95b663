From 3ac4811a115706ec27355465d1de046850606596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 01/26] fix: keep the unaligned block loops of Ui8tof32,
 Ui8toc64 and I8tof32 inside the output

---
 dsp/conversion_amd64.s      | 2 ++
 dsp/conversion_avo_amd64.go | 2 ++
 dsp/conversion_avo_amd64.s  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/dsp/conversion_amd64.s b/dsp/conversion_amd64.s
index db943df..5eb6cdf 100644
--- a/dsp/conversion_amd64.s
+++ b/dsp/conversion_amd64.s
@@ -354,7 +354,9 @@ i8tof32_align:
 i8tof32_aligned:
 
 	MOVQ CX, DX
+	SUBQ AX, DX
 	ANDQ $(~15), DX
+	ADDQ AX, DX
 	CMPQ AX, DX
 	JGE  i8tof32_stepper
 
diff --git a/dsp/conversion_avo_amd64.go b/dsp/conversion_avo_amd64.go
index 3e589d5..ace8e74 100644
--- a/dsp/conversion_avo_amd64.go
+++ b/dsp/conversion_avo_amd64.go
@@ -47,7 +47,9 @@ func main() {
 	Label("ui8tof32_aligned")
 	n := GP64()
 	MOVQ(inputLen, n)
+	SUBQ(index, n)
 	ANDQ(U32(^uint32(15)), n)
+	ADDQ(index, n)
 	CMPQ(index, n)
 	JGE(LabelRef("ui8tof32_stepper"))
 
diff --git a/dsp/conversion_avo_amd64.s b/dsp/conversion_avo_amd64.s
index 4735153..c0bcd3b 100644
--- a/dsp/conversion_avo_amd64.s
+++ b/dsp/conversion_avo_amd64.s
@@ -44,7 +44,9 @@ ui8tof32_align:
 
 ui8tof32_aligned:
 	MOVQ   CX, SI
+	SUBQ   BX, SI
 	ANDQ   $0xfffffff0, SI
+	ADDQ   BX, SI
 	CMPQ   BX, SI
 	JGE    ui8tof32_stepper
 	CMPB   ·useSSE4+0(SB), $0x01
-- 
2.43.0


From 88fd4b5e325441fe8a0d3db678008bb7278db5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 02/26] fix: scale the whole tail in the amd64 VScaleF32 vector
 paths

---
 dsp/math32_amd64.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/math32_amd64.s b/dsp/math32_amd64.s
index 6d5aff0..6ec4c2c 100644
--- a/dsp/math32_amd64.s
+++ b/dsp/math32_amd64.s
@@ -314,7 +314,7 @@ vscalef32_scalar_loop:
 	INCQ  AX
 	ADDQ  $4, SI
 	ADDQ  $4, DI
-	CMPQ  AX, CX
+	CMPQ  AX, DX
 	JLT   vscalef32_scalar_loop
 
 vscalef32_done:
-- 
2.43.0


From 3224059a69914dbc8e165c4f3c06f92ce7d29c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 03/26] fix: accept empty slices in VScaleC64, VAbsC64 and the
 portable Ui8tof32

---
 dsp/conversion.go | 2 +-
 dsp/math32.go     | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsp/conversion.go b/dsp/conversion.go
index 1943d4a..99236fe 100644
--- a/dsp/conversion.go
+++ b/dsp/conversion.go
@@ -43,7 +43,7 @@ func ui8tof32(input []byte, output []float32) {
 	if len(output) < n {
 		n = len(output)
 	}
-	_ = output[n-1] // eliminate bounds check
+	output = output[:n] // eliminate bounds check
 	for i, v := range input[:n] {
 		output[i] = float32(int(v) - 128)
 	}
diff --git a/dsp/math32.go b/dsp/math32.go
index 8e69271..0580b6d 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -61,6 +61,9 @@ func VAddC64(input, output []complex64) {
 }
 
 func VScaleC64(input, output []complex64, scale float32) {
+	if len(input) == 0 || len(output) == 0 {
+		return
+	}
 	in := (*[2 << 25]float32)(unsafe.Pointer(&input[0]))[:len(input)*2]
 	out := (*[2 << 25]float32)(unsafe.Pointer(&output[0]))[:len(output)*2]
 	VScaleF32(in, out, scale)
@@ -83,7 +86,7 @@ func vAbsC64(input []complex64, output []float32) {
 	if len(output) < n {
 		n = len(output)
 	}
-	_ = output[n-1] // eliminate bounds check
+	output = output[:n] // eliminate bounds check
 	for i, v := range input[:n] {
 		output[i] = float32(math.Sqrt(float64(real(v)*real(v) + imag(v)*imag(v))))
 	}
-- 
2.43.0


From 294690269a9a30402ecf3dccf4f0e90b58fa0c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 04/26] fix: define I16ToBLE and VMinF32 on 386, arm and arm64

---
 dsp/conversion_386.s   | 3 +++
 dsp/conversion_arm.s   | 3 +++
 dsp/conversion_arm64.s | 3 +++
 dsp/math32_386.s       | 3 +++
 dsp/math32_arm.s       | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/dsp/conversion_386.s b/dsp/conversion_386.s
index c3a9eb1..6bf50fc 100644
--- a/dsp/conversion_386.s
+++ b/dsp/conversion_386.s
@@ -24,3 +24,6 @@ TEXT ·I16bleToF64(SB), 7, $0
 
 TEXT ·I16bleToF32(SB), 7, $0
 	JMP ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), 7, $0
+	JMP ·i16ToBLE(SB)
diff --git a/dsp/conversion_arm.s b/dsp/conversion_arm.s
index 51e627c..ec8c5c2 100644
--- a/dsp/conversion_arm.s
+++ b/dsp/conversion_arm.s
@@ -306,3 +306,6 @@ TEXT ·I16bleToF64(SB), NOSPLIT, $0
 
 TEXT ·I16bleToF32(SB), NOSPLIT, $0
 	B ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), 7, $0
+	B ·i16ToBLE(SB)
diff --git a/dsp/conversion_arm64.s b/dsp/conversion_arm64.s
index eba09db..54e993b 100644
--- a/dsp/conversion_arm64.s
+++ b/dsp/conversion_arm64.s
@@ -97,3 +97,6 @@ TEXT ·I16bleToF64(SB), NOSPLIT, $0
 
 TEXT ·I16bleToF32(SB), NOSPLIT, $0
 	B ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), NOSPLIT, $0
+    B ·i16ToBLE(SB)
diff --git a/dsp/math32_386.s b/dsp/math32_386.s
index 1d0358b..3e5e326 100644
--- a/dsp/math32_386.s
+++ b/dsp/math32_386.s
@@ -15,3 +15,6 @@ TEXT ·VMaxF32(SB), 7, $0
 
 TEXT ·VMulC64xF32(SB), 7, $0
 	JMP ·vMulC64xF32(SB)
+
+TEXT ·VMinF32(SB), 7, $0
+	JMP ·vMinF32(SB)
diff --git a/dsp/math32_arm.s b/dsp/math32_arm.s
index 0fdbb5d..87aeb0a 100644
--- a/dsp/math32_arm.s
+++ b/dsp/math32_arm.s
@@ -350,3 +350,6 @@ vmaxf32_scalar_loop:
 vmaxf32_done:
 	MOVF F4, ret+12(FP)
 	RET
+
+TEXT ·VMinF32(SB), 7, $0
+	B ·vMinF32(SB)
-- 
2.43.0


From 5aca3517c36834f27f0bc563ae09f803b2b3acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 05/26] fix: give every AX.25 frame its own copy of the
 information field

---
 dsp/ax25/hdlc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index ffbed6d..a9cdf0b 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -169,7 +169,8 @@ func (ax *AX25) processFrame() *Frame {
 
 	if frame.Type == IFrame || (frame.Type == UFrame && frame.UnnumberedType == UI) {
 		frame.PID = PID(buf[0])
-		frame.Info = buf[1:]
+		// Copy since rxBuf is reused for the following frames.
+		frame.Info = append([]byte{}, buf[1:]...)
 	}
 	return &frame
 }
-- 
2.43.0


From b7420480691135fbb4cbf2884e9929a84643f7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 06/26] fix: mask the packed FlexNet callsign characters to six
 bits

---
 dsp/ax25/hdlc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index a9cdf0b..e8dabdc 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -80,13 +80,13 @@ func (ax *AX25) processFrame() *Frame {
 		frame.V1 = false
 		frame.Command = (buf[1] & 2) != 0
 		var dest []byte
-		if i := (buf[2] >> 2) & 0x2f; i != 0 {
+		if i := (buf[2] >> 2) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
-		if i := (buf[2] << 4) | ((buf[3]>>4)&0xf)&0x3f; i != 0 {
+		if i := ((buf[2] << 4) | ((buf[3] >> 4) & 0xf)) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
-		if i := (buf[3] << 2) | ((buf[4]>>6)&3)&0x3f; i != 0 {
+		if i := ((buf[3] << 2) | ((buf[4] >> 6) & 3)) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
 		if i := buf[4] & 0x3f; i != 0 {
-- 
2.43.0


From d658e405a4bc3a0c894fcf8688458a6ccf8bf170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 07/26] fix: keep the rest of a datagram when PacketReader's
 caller has less room

---
 borip/packet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/borip/packet.go b/borip/packet.go
index aed4de9..d0a8261 100644
--- a/borip/packet.go
+++ b/borip/packet.go
@@ -71,7 +71,7 @@ func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
 		// rd.bufN = n - (n & 7)
 	}
 	idx := 0
-	for rd.bufI < rd.bufN {
+	for idx < len(samples) && rd.bufI < rd.bufN {
 		iReal := int16(binary.LittleEndian.Uint16(rd.buf[rd.bufI : rd.bufI+2]))
 		qQmag := int16(binary.LittleEndian.Uint16(rd.buf[rd.bufI+2 : rd.bufI+4]))
 		samples[idx] = complex(float64(iReal), float64(qQmag))
-- 
2.43.0


From 2ad8e50d0c3cc7efdedc981bf3d22e0e04841bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 08/26] fix: never read stale bytes as samples after a short or
 uneven datagram

---
 borip/packet.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/borip/packet.go b/borip/packet.go
index d0a8261..52a775e 100644
--- a/borip/packet.go
+++ b/borip/packet.go
@@ -58,7 +58,7 @@ func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
 			return 0, err
 		}
 		rd.bufI = 0
-		rd.bufN = n
+		rd.bufN = 0
 		if rd.withHeaders {
 			if n < packetHeaderSize {
 				return 0, ErrShortPacket
@@ -68,7 +68,8 @@ func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
 			rd.header.Idx = binary.LittleEndian.Uint16(rd.buf[2:4])
 			rd.bufI += 4
 		}
-		// rd.bufN = n - (n & 7)
+		// Ignore an incomplete I/Q pair at the end of the packet.
+		rd.bufN = n - (n-rd.bufI)%4
 	}
 	idx := 0
 	for idx < len(samples) && rd.bufI < rd.bufN {
-- 
2.43.0


From b393b95ca06a888757385f0c092d4cc8874ac466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 09/26] fix: do not panic when the reply to RATE lacks the rate

---
 borip/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/borip/client.go b/borip/client.go
index 3966159..4ef9a83 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -190,7 +190,7 @@ func (bor *BorIP) SetRate(rate float64) (float64, error) {
 	if err != nil {
 		return 0.0, err
 	}
-	parts, err := parseAndCheck(res, 1)
+	parts, err := parseAndCheck(res, 2)
 	if err != nil {
 		return 0.0, err
 	}
-- 
2.43.0


From e156bd6d2ae0935d6918600c32fea3a300ef2c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 10/26] fix: accept BorIP device descriptors without the
 optional serial number

---
 borip/client.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/borip/client.go b/borip/client.go
index 4ef9a83..493628c 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -39,12 +39,15 @@ type Device struct {
 func parseDeviceString(st string) (*Device, error) {
 	// Terratec NOXON (rev 3)|-5.000000|30.000000|1.000000|3200000.000000|16256|(Default)|Terratec NOXON (rev 3)
 	deviceParts := strings.Split(st, "|")
-	if len(deviceParts) < 8 {
+	if len(deviceParts) < 7 {
 		return nil, ErrUnexpectedResponse
 	}
 	d := &Device{
-		Name:   deviceParts[0],
-		Serial: deviceParts[7],
+		Name: deviceParts[0],
+	}
+	// The serial number is optional.
+	if len(deviceParts) > 7 {
+		d.Serial = deviceParts[7]
 	}
 	var err error
 	if d.MinGain, err = strconv.ParseFloat(deviceParts[1], 64); err != nil {
-- 
2.43.0


From d9cee2428d9a6f51ed31dfb5875ca2b4e0aa9088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 11/26] fix: leave the caller's coefficients alone in the IIR
 filter constructors

---
 dsp/filter.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dsp/filter.go b/dsp/filter.go
index 68f0bac..5896e9f 100644
--- a/dsp/filter.go
+++ b/dsp/filter.go
@@ -19,6 +19,9 @@ func NewIIRFilter(bCoef, aCoef []float64) *IIRFilter {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
+	// Normalize copies so that the caller's coefficients stay as they are.
+	bCoef = append([]float64{}, bCoef...)
+	aCoef = append([]float64{}, aCoef...)
 	for i, c := range bCoef {
 		bCoef[i] = c / aCoef[0]
 	}
@@ -37,6 +40,9 @@ func NewComplexIIRFilter32(bCoef, aCoef []float32) *ComplexIIRFilter32 {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
+	// Normalize copies so that the caller's coefficients stay as they are.
+	bCoef = append([]float32{}, bCoef...)
+	aCoef = append([]float32{}, aCoef...)
 	for i, c := range bCoef {
 		bCoef[i] = c / aCoef[0]
 	}
@@ -55,6 +61,9 @@ func NewComplexIIRFilter(bCoef, aCoef []float64) *ComplexIIRFilter {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
+	// Normalize copies so that the caller's coefficients stay as they are.
+	bCoef = append([]float64{}, bCoef...)
+	aCoef = append([]float64{}, aCoef...)
 	for i, c := range bCoef {
 		bCoef[i] = c / aCoef[0]
 	}
-- 
2.43.0


From 6de69eeee0eace49020d1ff3ea553c99adeeb88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 12/26] fix: do not panic in IIR filters of order zero

---
 dsp/filter.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dsp/filter.go b/dsp/filter.go
index 5896e9f..2e1a0f4 100644
--- a/dsp/filter.go
+++ b/dsp/filter.go
@@ -88,8 +88,10 @@ func (f *IIRFilter) Filter(input, output []float64) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
@@ -104,8 +106,10 @@ func (f *ComplexIIRFilter32) Filter(input, output []complex64) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
@@ -120,8 +124,10 @@ func (f *ComplexIIRFilter) Filter(input, output []complex128) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
-- 
2.43.0


From 31b234357498151b625739defa4e5dab53a31572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 13/26] fix: apply the DTMF window to a copy of the caller's
 samples

---
 dsp/dtmf/dtmf.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dsp/dtmf/dtmf.go b/dsp/dtmf/dtmf.go
index 017f2ea..a1206e3 100644
--- a/dsp/dtmf/dtmf.go
+++ b/dsp/dtmf/dtmf.go
@@ -21,6 +21,7 @@ type DTMF struct {
 	nHigh     int
 	blockSize int
 	w         []float32
+	buf       []float32 // windowed samples
 }
 
 func New(lowFreq, highFreq []uint64, sampleRate, blockSize int, windowFunc func([]float32)) *DTMF {
@@ -36,6 +37,7 @@ func New(lowFreq, highFreq []uint64, sampleRate, blockSize int, windowFunc func(
 		nHigh:     len(highFreq),
 		blockSize: blockSize,
 		w:         w,
+		buf:       make([]float32, blockSize),
 	}
 }
 
@@ -48,13 +50,15 @@ func (d *DTMF) Feed(samples []float32) (int, float32) {
 	if len(samples) > d.blockSize {
 		samples = samples[:d.blockSize]
 	}
+	// The window is applied to a copy since the caller may slide the samples.
+	buf := d.buf[:len(samples)]
 	for i, s := range samples {
-		samples[i] = s * d.w[i]
+		buf[i] = s * d.w[i]
 	}
 	d.lowFreq.Reset()
 	d.highFreq.Reset()
-	d.lowFreq.Feed(samples)
-	d.highFreq.Feed(samples)
+	d.lowFreq.Feed(buf)
+	d.highFreq.Feed(buf)
 	row, thresh1 := max(d.lowFreq.Magnitude())
 	col, thresh2 := max(d.highFreq.Magnitude())
 	if thresh2 < thresh1 {
-- 
2.43.0


From f390546ec02fd818043ddcc570f293e8f9343dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 14/26] fix: linear interpolation outside the samples is zero,
 never a panic

---
 dsp/interpolate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsp/interpolate.go b/dsp/interpolate.go
index 86da1a7..fc29c03 100644
--- a/dsp/interpolate.go
+++ b/dsp/interpolate.go
@@ -4,6 +4,9 @@ import "math"
 
 // Linear interpolates using linear interpolation.
 func Linear(samples []float64, x float64) float64 {
+	if !(x >= 0 && x < float64(len(samples))) {
+		return 0
+	}
 	var samp float64
 	low := math.Floor(x)
 	lowInt := int(low)
@@ -22,7 +25,7 @@ func Linear(samples []float64, x float64) float64 {
 
 // LinearF32 interpolates using linear interpolation.
 func LinearF32(samples []float32, x float32) float32 {
-	if x < 0 || x > math.MaxFloat32 {
+	if !(x >= 0 && x < float32(len(samples))) {
 		return 0
 	}
 	var samp float32
-- 
2.43.0


From 928944f8cfa4b88ece61f06d843fceefab7aa4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 15/26] fix: a window of a single element is 1 instead of NaN

---
 dsp/window.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dsp/window.go b/dsp/window.go
index ead99f4..fa5291c 100644
--- a/dsp/window.go
+++ b/dsp/window.go
@@ -36,12 +36,20 @@ func HammingWindowF32(output []float32) {
 }
 
 func HanningWindow(output []float64) {
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	for n := range output {
 		output[n] = 0.5 * (1 - math.Cos(2*math.Pi*float64(n)/float64(len(output)-1)))
 	}
 }
 
 func HanningWindowF32(output []float32) {
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	for n := range output {
 		output[n] = float32(0.5 * (1 - math.Cos(2*math.Pi*float64(n)/float64(len(output)-1))))
 	}
@@ -69,6 +77,10 @@ func window(output []float64, a []float64) {
 	if len(a) < 1 || len(a) > 4 {
 		panic("invalid window length " + strconv.Itoa(len(a)))
 	}
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	nn := float64(len(output) - 1)
 	for n := range output {
 		fn := float64(n)
@@ -90,6 +102,10 @@ func windowF32(output []float32, a []float64) {
 	if len(a) < 1 || len(a) > 4 {
 		panic("invalid window length " + strconv.Itoa(len(a)))
 	}
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	nn := float64(len(output) - 1)
 	for n := range output {
 		fn := float64(n)
-- 
2.43.0


From bd45e8ced97f5653d179ba30acd71d0ac0aa3907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 16/26] fix: make boripserver compile

---
 boripserver/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index c945a91..48ec637 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -105,7 +105,8 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			return cli.sendResponse(cmd, resDevice, "no active device")
 		}
 		if len(args) == 0 {
-			if curFreq, err := cli.dev.rtlDev.GetCenterFreq(); err != nil {
+			curFreq, err := cli.dev.rtlDev.GetCenterFreq()
+			if err != nil {
 				return cli.sendResponse(cmd, "-", "failed to get frequency")
 			}
 			return cli.sendResponse(cmd, strconv.FormatUint(uint64(curFreq), 10))
-- 
2.43.0


From a99288ecfe1abc2b5028eaf565019b9f490185b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 17/26] fix: let boripserver survive repeated stops of a stream

---
 boripserver/main.go | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 48ec637..9d68cc4 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -19,6 +19,7 @@ import (
 	"runtime/pprof"
 	"strconv"
 	"strings"
+	"sync"
 
 	"github.com/samuel/go-dsp/dsp"
 )
@@ -71,12 +72,15 @@ var (
 )
 
 type client struct {
-	conn      net.Conn
-	rd        *bufio.Reader
-	wr        *bufio.Writer
-	dest      *net.UDPAddr
-	dev       *device
-	closeChan chan bool
+	conn net.Conn
+	rd   *bufio.Reader
+	wr   *bufio.Writer
+	dest *net.UDPAddr
+	dev  *device
+
+	streamMutex sync.Mutex // protects the following fields, the sample callback uses them too
+	closeChan   chan bool
+	stopping    bool // closeChan has been closed
 }
 
 func (cli *client) sendResponse(cmd string, args ...string) error {
@@ -298,16 +302,31 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 }
 
 func (cli *client) isStreaming() bool {
+	cli.streamMutex.Lock()
+	defer cli.streamMutex.Unlock()
 	return cli.closeChan != nil
 }
 
 func (cli *client) stopStreaming() {
-	if !cli.isStreaming() {
+	cli.streamMutex.Lock()
+	defer cli.streamMutex.Unlock()
+	if cli.closeChan == nil || cli.stopping {
 		return
 	}
+	cli.stopping = true
 	close(cli.closeChan)
 }
 
+// streamStopped marks the stream that closeChan belongs to as ended.
+func (cli *client) streamStopped(closeChan chan bool) {
+	cli.streamMutex.Lock()
+	defer cli.streamMutex.Unlock()
+	if cli.closeChan == closeChan {
+		cli.closeChan = nil
+		cli.stopping = false
+	}
+}
+
 func (cli *client) startStreaming() error {
 	if cli.isStreaming() {
 		return nil
@@ -324,7 +343,11 @@ func (cli *client) startStreaming() error {
 		return err
 	}
 
-	cli.closeChan = make(chan bool, 1)
+	closeChan := make(chan bool)
+	cli.streamMutex.Lock()
+	cli.closeChan = closeChan
+	cli.stopping = false
+	cli.streamMutex.Unlock()
 	bufOut := make([]byte, headerSize+samplesPerPacket*2*2)
 	bufOut[0] = flagStreamStart
 	bufOut[1] = 0 // notification: reserved (currently 0)
@@ -334,13 +357,13 @@ func (cli *client) startStreaming() error {
 	// cli.dev.rtlDev.ReadAsyncUsingSync(nBuffers, sampleBufferSize*2, func(buf []byte) bool {
 	cli.dev.rtlDev.ReadAsync(nBuffers, sampleBufferSize*2, func(buf []byte) bool {
 		if buf == nil {
-			cli.closeChan = nil
+			cli.streamStopped(closeChan)
 			return true
 		}
 
 		select {
-		case _ = <-cli.closeChan:
-			cli.closeChan = nil
+		case <-closeChan:
+			cli.streamStopped(closeChan)
 			return true
 		default:
 		}
-- 
2.43.0


From 82ef9aeb6140e6e6da754db54bc4deac2f8e2bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 18/26] fix: close the UDP socket of a stream when the stream
 ends

---
 boripserver/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/boripserver/main.go b/boripserver/main.go
index 9d68cc4..56524ff 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -340,6 +340,7 @@ func (cli *client) startStreaming() error {
 		return err
 	}
 	if err := cli.dev.rtlDev.ResetBuffer(); err != nil {
+		conn.Close()
 		return err
 	}
 
@@ -357,12 +358,14 @@ func (cli *client) startStreaming() error {
 	// cli.dev.rtlDev.ReadAsyncUsingSync(nBuffers, sampleBufferSize*2, func(buf []byte) bool {
 	cli.dev.rtlDev.ReadAsync(nBuffers, sampleBufferSize*2, func(buf []byte) bool {
 		if buf == nil {
+			conn.Close()
 			cli.streamStopped(closeChan)
 			return true
 		}
 
 		select {
 		case <-closeChan:
+			conn.Close()
 			cli.streamStopped(closeChan)
 			return true
 		default:
-- 
2.43.0


From b69be5f679d32ce8ad5c3b1bcadfbb385e6ea4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 19/26] fix: report the destination that was set as the client
 expects

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 56524ff..3d261a0 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -194,7 +194,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			return cli.sendResponse(cmd, resFail, "failed to resolve address")
 		}
 		cli.dest = addr
-		return cli.sendResponse(cmd, resOK)
+		return cli.sendResponse(cmd, resOK, addr.String())
 	case cmdGo:
 		if cli.dest == nil {
 			return cli.sendResponse(cmd, resFail, "no DEST set")
-- 
2.43.0


From 159421dcf960281e802e96828c9612c3f576c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 20/26] fix: answer the ANTENNA query with the antenna alone

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 3d261a0..0b4241d 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -134,7 +134,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 		if len(args) > 0 {
 			return cli.sendResponse(cmd, resOK)
 		}
-		return cli.sendResponse(cmd, resOK, "default")
+		return cli.sendResponse(cmd, "default")
 	case cmdRate:
 		if cli.dev == nil {
 			return cli.sendResponse(cmd, resDevice, "no active device")
-- 
2.43.0


From 6e1f4211cdd539b95c7f82c9763c43f8fbea4e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 21/26] fix: report negative gains as they are

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 0b4241d..d5e92a3 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -180,7 +180,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 		if err != nil {
 			return cli.sendResponse(cmd, resFail, "failed to get gain")
 		}
-		return cli.sendResponse(cmd, resOK, strconv.FormatUint(uint64(curGain), 10))
+		return cli.sendResponse(cmd, resOK, strconv.Itoa(curGain))
 	case cmdDest:
 		if len(args) == 0 {
 			if cli.dest == nil {
-- 
2.43.0


From 507b9377dffe1cd99333167553aa035c7a893ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 22/26] fix: do not panic on tuners with fewer than two gains

---
 boripserver/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index d5e92a3..bb8e338 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -263,10 +263,12 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			gains, err := dev.rtlDev.GetTunerGains()
 			if err != nil {
 				log.Printf("Failed to get tuner gains: %s", err.Error())
-			} else {
+			} else if len(gains) > 0 {
 				minGain = float64(gains[0])
 				maxGain = float64(gains[len(gains)-1])
-				gainStep = float64(gains[1] - gains[0])
+				if len(gains) > 1 {
+					gainStep = float64(gains[1] - gains[0])
+				}
 			}
 			// if debug {
 			// 	log.Printf("Gains: %+v", gains)
-- 
2.43.0


From 2e68116a290f9b25be5242b0b2f84867181caac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 23/26] fix: report the tuner frequency in the device
 descriptor

---
 boripserver/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index bb8e338..b2917c8 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -276,7 +276,6 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			_, tunerFreq, err := dev.rtlDev.GetXtalFreq()
 			if err != nil {
 				log.Printf("Failed to get tuner frequency: %s", err.Error())
-			} else {
 				tunerFreq = 0
 			}
 			// <DEVICE NAME>|<MIN GAIN>|<MAX GAIN>|<GAIN STEP>|<FPGA FREQ IN HZ>|<COMPLEX SAMPLE PAIRS PER PACKET>|<CSV LIST OF VALID ANTENNAS>[|<DEVICE SERIAL NUMBER>]
-- 
2.43.0


From e7e3d25bbcd67c031141977770121600caa2e9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:25 +0000
Subject: [PATCH 24/26] fix: scale complex slices of more than 2^25 elements in
 VScaleC64

---
 dsp/math32.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dsp/math32.go b/dsp/math32.go
index 0580b6d..9c98602 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -61,9 +61,19 @@ func VAddC64(input, output []complex64) {
 }
 
 func VScaleC64(input, output []complex64, scale float32) {
-	if len(input) == 0 || len(output) == 0 {
+	n := len(input)
+	if len(output) < n {
+		n = len(output)
+	}
+	if n == 0 {
 		return
 	}
+	const max = 1 << 25 // complex values in the array type below
+	if n > max {
+		VScaleC64(input[max:n], output[max:n], scale)
+		n = max
+	}
+	input, output = input[:n], output[:n]
 	in := (*[2 << 25]float32)(unsafe.Pointer(&input[0]))[:len(input)*2]
 	out := (*[2 << 25]float32)(unsafe.Pointer(&output[0]))[:len(output)*2]
 	VScaleF32(in, out, scale)
-- 
2.43.0


From e4b0f44a870abcfbd947ecfc5a282d7cf464ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 25/26] fix: boripserver sends all samples of a buffer, not its
 first packet repeatedly

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index b2917c8..6734524 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -382,7 +382,7 @@ func (cli *client) startStreaming() error {
 			bufOut[3] = uint8(seq >> 8)
 			seq++
 
-			dsp.Ui8toi16b(buf[:nValues], bufOut[headerSize:])
+			dsp.Ui8toi16b(buf[bufferOffset:bufferOffset+nValues], bufOut[headerSize:])
 
 			if _, err := conn.Write(bufOut[:headerSize+nValues*2]); err != nil {
 				// TODO: what to do if not "connection refused"?
-- 
2.43.0


From 911adf35fe395950e899b4d962292ff0052ce8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:23 +0000
Subject: [PATCH 26/26] fix: close the connection when the BorIP greeting does
 not arrive

---
 borip/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/borip/client.go b/borip/client.go
index 493628c..2aac2fd 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -92,6 +92,7 @@ func Dial(addr string) (*BorIP, error) {
 	}
 	line, err := bor.rd.ReadString('\n')
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	line = strings.TrimSpace(line)
-- 
2.43.0

