From 08318c56ab7ed85923feb684595780462a70c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 01/90] fix: report truncated vector and ID blocks instead of
 accepting short reads

---
 render/io/io.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 7f351b7..e0c51e0 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -415,7 +415,7 @@ func readVecAsByte(rd io.Reader, end binary.ByteOrder, buf []geom.Vec) error {
 	hd.Cap *= 12
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -442,7 +442,7 @@ func readVec64AsByte(rd io.Reader, end binary.ByteOrder, outBuf []geom.Vec) erro
 	hd.Cap *= 24
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -504,7 +504,7 @@ func readInt64AsByte(rd io.Reader, end binary.ByteOrder, buf []int64) error {
 	hd.Cap *= 8
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -533,7 +533,7 @@ func readInt32AsByte(rd io.Reader, end binary.ByteOrder, buf64 []int64) error {
 	hd.Cap *= 4
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
-- 
2.43.0


From b5da9e2a6cdce779c4d47326a789de918631f90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 02/90] fix: return the error when a sheet file's header cannot
 be read for its positions

---
 render/io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index e0c51e0..0cbddd0 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -314,7 +314,7 @@ func ReadSheetHeaderAt(file string, hdBuf *SheetHeader) error {
 func ReadSheetPositionsAt(file string, xsBuf []geom.Vec) error {
 	h := &SheetHeader{}
 	f, order, err := readSheetHeaderAt(file, h)
-	if err != nil { return nil }
+	if err != nil { return err }
 
 	if h.GridCount != int64(len(xsBuf)) {
 		return fmt.Errorf("Position buffer has length %d, but file %s has %d "+ 
-- 
2.43.0


From 75edfee4d0eaaa41c6a273ddb1b66891e7262d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 03/90] fix: read Gadget headers in the file's byte order and
 refuse truncated ones

---
 render/io/io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 0cbddd0..c3d8fa2 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -142,7 +142,7 @@ func ReadGadgetHeader(path string, order binary.ByteOrder, variant string) *Cata
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	binary.Read(f, binary.LittleEndian, gh)
+	if err := binary.Read(f, order, gh); err != nil { panic(err) }
 
 	h := gh.Standardize()
 	return h
@@ -168,7 +168,7 @@ func ReadGadgetParticlesAt(
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	binary.Read(f, binary.LittleEndian, gh)
+	if err := binary.Read(f, order, gh); err != nil { panic(err) }
 	_ = readInt32(f, order)
 
 	h := gh.Standardize()
-- 
2.43.0


From 42fc60046feb142a8a8eac5e9d11305021ca7ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 04/90] fix: refuse Gadget files with unreadable particle
 blocks

---
 render/io/io.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index c3d8fa2..38564e2 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -202,10 +202,11 @@ func ReadGadgetParticlesAt(
 	}
 
 	if readF32 {
-		readVecAsByte(f, order, xs)
+		err = readVecAsByte(f, order, xs)
 	} else {
-		readVec64AsByte(f, order, xs)
+		err = readVec64AsByte(f, order, xs)
 	}
+	if err != nil { panic(err) }
 	_ = readInt32(f, order)
 
 
@@ -218,22 +219,24 @@ func ReadGadgetParticlesAt(
 		panic(fmt.Sprintf("Internal error: Expected positions block to have header %d or %d, but actually has header %d\n (this is probably a binary file format issues)", f32Size, 2*f32Size, xSize))
 	}
 	if readF32 {
-		readVecAsByte(f, order, vs)
+		err = readVecAsByte(f, order, vs)
 	} else {
-		readVec64AsByte(f, order, vs)
+		err = readVec64AsByte(f, order, vs)
 	}
+	if err != nil { panic(err) }
 	_ = readInt32(f, order)
 	_ = readInt32(f, order)
 
 	if idSize == 64 {
-		readInt64AsByte(f, order, ids)
+		err = readInt64AsByte(f, order, ids)
 	} else if idSize == 32 {
 		runtime.GC()
-		readInt32AsByte(f, order, ids)
+		err = readInt32AsByte(f, order, ids)
 		runtime.GC()
 	} else {
 		panic("ID size other than 32 bits or 64 bits given.")
 	}
+	if err != nil { panic(err) }
 	//_ = readInt32(f, order)
 	
 	// Convert gadget velocities out of code units.
-- 
2.43.0


From 2fb964a78ee2ab7ce58cd372aeafef8e95404641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 05/90] fix: byte-swap all eight bytes of float64 vectors

---
 render/io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index 38564e2..c1c2b35 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -451,7 +451,7 @@ func readVec64AsByte(rd io.Reader, end binary.ByteOrder, outBuf []geom.Vec) erro
 	if !isSysOrder(end) {
 		for i := 0; i < bufLen * 3; i++ {
 			for j := 0; j < 4; j++ {
-				idx1, idx2 := i*8 + j, i*8 + 3 - j
+				idx1, idx2 := i*8 + j, i*8 + 7 - j
 				byteBuf[idx1], byteBuf[idx2] = byteBuf[idx2], byteBuf[idx1]
 			}
 		}
-- 
2.43.0


From 1a122f1e3ee890278d40d7d67a1946d7793ae700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 06/90] fix: keep wrapped Gadget positions below BoxSize after
 rounding to float32

---
 render/io/io.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index c1c2b35..d05b3d0 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -243,7 +243,12 @@ func ReadGadgetParticlesAt(
 	rootA := float32(math.Sqrt(float64(gh.Time)))
 	for i := range xs {
 		for j := 0; j < 3; j++ {
-			xs[i][j] = float32(gh.WrapDistance(float64(xs[i][j])))
+			x := float64(xs[i][j])
+			xs[i][j] = float32(gh.WrapDistance(x))
+			// A point just below the upper face can round onto it.
+			if x < 2*gh.BoxSize && float64(xs[i][j]) >= gh.BoxSize {
+				xs[i][j] = 0
+			}
 			vs[i][j] = vs[i][j] * rootA
 		}
 	}
-- 
2.43.0


From 64e7c902fd8fe474e03e2d33aa2110bb31a85853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 07/90] fix: convert the simulation width in sheet headers to
 output units

---
 render/main/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/main/main.go b/render/main/main.go
index 1de47f8..b71f69a 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -284,6 +284,7 @@ func createGrids(
 	for i := range hs {
 		hs[i] = *io.ReadGadgetHeader(catalogs[i], gadgetEndianness, con.InputFormat)
 		hs[i].Mass *= con.MUnits
+		hs[i].TotalWidth *= con.XUnits
 	}
 	log.Printf("Input header: %v\n", hs[0])
 
-- 
2.43.0


From f44f2576992bd98ec41aed053a8d4de55fc1d7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 08/90] fix: write the simulation's particle count, not the
 first file's, to sheet headers

---
 render/main/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index b71f69a..daa50af 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -376,7 +376,7 @@ func writeGrids(outDir string, hd *io.CatalogHeader,
 	shd := &io.SheetHeader{}
 	shd.Cosmo = hd.Cosmo
 	shd.CountWidth = hd.CountWidth
-	shd.Count = hd.Count
+	shd.Count = hd.TotalCount
 	shd.Mass = hd.Mass
 	shd.TotalWidth = hd.TotalWidth
 
-- 
2.43.0


From 09aa375593ac15d2f735a031ccccf684a7e97e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 09/90] fix: make a segment's velocity bounds cover only that
 segment

---
 render/main/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index daa50af..c1a7d48 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -474,8 +474,8 @@ func copyToSegment(shd *io.SheetHeader, xs, vs, xsSeg, vsSeg []geom.Vec) {
 
 	// smallidx is the index within the segment.
 	smallIdx := 0
-	vMin := vs[0]
-	vMax := vs[0]
+	vMin := vs[xStart + N * yStart + N2 * zStart]
+	vMax := vMin
 
 	for z := zStart; z < zStart + shd.GridWidth; z++ {
 		zIdx := z
-- 
2.43.0


From 6d02056a9f8436cacf55f63cdf69ee6f88322a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 10/90] fix: give sheet segments distinct file names when Cells
 is above 10

---
 render/main/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index c1a7d48..675e883 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -385,13 +385,16 @@ func writeGrids(outDir string, hd *io.CatalogHeader,
 	shd.GridCount = int64(shd.GridWidth * shd.GridWidth * shd.GridWidth)
 	shd.Cells = int64(cells)
 
+	// Zero-pad the indices so that no two segments share a file name.
+	digits := len(fmt.Sprint(cells - 1))
+
 	// Write the data. (x, y, z) indexes over the files.
 	for z := int64(0); z < shd.Cells; z++ {
 		for y := int64(0); y < shd.Cells; y++ {
 			for x := int64(0); x < shd.Cells; x++ {
 				copyToSegment(shd, xs, vs, xsSeg, vsSeg)
 				file := path.Join(outDir, fmt.Sprintf(
-					"sheet%d%d%d.dat", x, y, z,
+					"sheet%0*d%0*d%0*d.dat", digits, x, digits, y, digits, z,
 				))
 				io.WriteSheet(file, shd, xsSeg, vsSeg)
 				runtime.GC()
-- 
2.43.0


From cf882f31efa82766ca57e6773f9f34a600f39a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 11/90] fix: iterate until an invalid folder when IterationEnd
 is not set, as documented

---
 render/main/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 675e883..a4729cf 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -248,7 +248,9 @@ func lGadget2Main(con *io.ConvertSnapshotConfig) {
 
 	// If the user supplied format strings for iterated output, loop over the
 	// iteration range. Otherwise, just use the supplied snapshot.
-	for i := con.IterationStart; i <= con.IterationEnd; i++ {
+	for i := con.IterationStart; ; i++ {
+		if con.ValidIterationEnd() && i > con.IterationEnd { break }
+
 		input, output := con.Input, con.Output
 		if con.ValidIteratedInput() {
 			input = fmt.Sprintf(con.IteratedInput, i)
@@ -256,7 +258,11 @@ func lGadget2Main(con *io.ConvertSnapshotConfig) {
 		}
 
 		infos, err := ioutil.ReadDir(input)
-		if err != nil { log.Fatal(err.Error()) }
+		if err != nil {
+			// Without an IterationEnd, the first invalid folder is the end.
+			if !con.ValidIterationEnd() && i > con.IterationStart { break }
+			log.Fatal(err.Error())
+		}
 		files := make([]string, len(infos))
 		
 		for i, info := range infos {
-- 
2.43.0


From b7f0f7363189b83f53454f7beabbfcd404b3633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 12/90] fix: read the cosmology fields of sheet headers in file
 order in gtet.py

---
 python/gtet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/gtet.py b/python/gtet.py
index 46c59e0..d6e4fe4 100644
--- a/python/gtet.py
+++ b/python/gtet.py
@@ -50,7 +50,8 @@ class File(object):
         position_bounds = struct.unpack("ffffff", fp.read(6*4))
         velocity_bounds = struct.unpack("ffffff", fp.read(6*4))
         
-        self.z, self.scale, self.omega_m, self.h100 = cosmo_info
+        self.z, self.omega_m, self.omega_l, self.h100 = cosmo_info
+        self.scale = 1 / (1 + self.z)
         (self.count, self.count_width,
          self.segment_width, self.grid_width, self.grid_count,
          self.file_idx, self.file_cells) = index_info
-- 
2.43.0


From 9845f9adcf6236a92d4acfedf9126b6af194fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 13/90] fix: refuse a Cells value which does not divide the
 particles per side

The remaining layers of particles were dropped silently.
---
 render/main/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index a4729cf..1f4ede4 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -372,6 +372,11 @@ func writeGrids(outDir string, hd *io.CatalogHeader,
 
 	log.Println("Writing to directory", outDir)
 
+	if int(hd.CountWidth) % cells != 0 {
+		log.Fatalf("'Cells' value, %d, does not divide the %d particles on a " +
+			"side.", cells, hd.CountWidth)
+	}
+
 	segmentWidth := int(hd.CountWidth) / cells
 	gridWidth := segmentWidth + 1
 
-- 
2.43.0


From 3dc9c032caa565d11424728e79e8ee38a1280a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 14/90] fix: write the particles, pixels and projection axis
 actually used to .gtet headers

Particles and TotalPixels were written as 0 when they were computed from
AutoParticles, ProjectionDepth or ImagePixels, and 3D grids of quantities which
cannot be projected were marked as projected.
---
 render/main/main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 1f4ede4..cc17f87 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -598,9 +598,14 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 			hd.Cosmo.OmegaL, hd.Cosmo.Z, hd.TotalWidth,
 		)
 
+		// Use the values that were actually rendered with: the config can leave
+		// them to be computed and not every quantity can be projected.
+		axisStr := ""
+		if axis, ok := box.ProjectionAxis(); ok {
+			axisStr = string("XYZ"[axis])
+		}
 		renderInfo := io.NewRenderInfo(
-			con.Particles, con.TotalPixels, con.SubsampleLength,
-			cBox.ProjectionAxis,
+			box.Points(), box.Cells(), con.SubsampleLength, axisStr,
 		)
 
 		io.WriteBuffer(box.Vals(), cos, renderInfo, loc, f)
-- 
2.43.0


From 167fe4c1c320f180248792253d77cb55faa90409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 15/90] fix: refuse SubsampleLengths that are not powers of two
 dividing the segment width

The previous SubsampleLength was checked instead of the requested one, so
tetrahedra were dropped silently.
---
 render/hist.go      | 7 +++++--
 render/io/config.go | 8 ++++++--
 render/render.go    | 7 +++++--
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 6f5e5d8..7c4b1bb 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -101,8 +101,11 @@ func NewHistManager(
 }
 
 func (man *HistManager) Subsample(skip int) {
-	if !isPowTwo(man.skip) {
-		log.Fatalf("Skip ingrement is %d, must be power of two.", man.skip)
+	if !isPowTwo(skip) {
+		log.Fatalf("Skip ingrement is %d, must be power of two.", skip)
+	} else if int(man.hd.SegmentWidth) % skip != 0 {
+		log.Fatalf("Skip ingrement is %d, must divide the width of sheet " +
+			"segments, %d.", skip, man.hd.SegmentWidth)
 	}
 
 	man.skip = skip
diff --git a/render/io/config.go b/render/io/config.go
index 39f8354..b5b356c 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -322,7 +322,7 @@ func (con *RenderConfig) ValidParticles() bool {
 	return con.Particles > 0
 }
 func (con *RenderConfig) ValidSubsampleLength() bool {
-	return con.SubsampleLength > 0
+	return validSubsampleLength(con.SubsampleLength)
 }
 func (con *RenderConfig) ValidImagePixels() bool {
 	return con.ImagePixels > 0
@@ -574,7 +574,11 @@ func (con *TetraHistConfig) ValidHistScale() bool {
 }
 
 func (con *TetraHistConfig) ValidSubsampleLength() bool {
-	s := con.SubsampleLength
+	return validSubsampleLength(con.SubsampleLength)
+}
+
+// validSubsampleLength returns true if s is a positive power of two.
+func validSubsampleLength(s int) bool {
 	if s <= 0 { return false }
 
 	for {
diff --git a/render/render.go b/render/render.go
index 9740a29..a8bb512 100644
--- a/render/render.go
+++ b/render/render.go
@@ -215,8 +215,11 @@ func (r *renderer) initWorkspaces(man *Manager) {
 func (man *Manager) Log(flag bool) { man.log = flag }
 
 func (man *Manager) Subsample(subsampleLength int) {
-	if !isPowTwo(man.skip) {
-		log.Fatalf("Skip ingrement is %d, must be power of two.", man.skip)
+	if !isPowTwo(subsampleLength) {
+		log.Fatalf("Skip ingrement is %d, must be power of two.", subsampleLength)
+	} else if int(man.hd.SegmentWidth) % subsampleLength != 0 {
+		log.Fatalf("Skip ingrement is %d, must divide the width of sheet " +
+			"segments, %d.", subsampleLength, man.hd.SegmentWidth)
 	}
 
 	man.skip = subsampleLength
-- 
2.43.0


From d374c5f1af3e39abff2d238b8cf95d0fb2c9e78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 16/90] fix: refuse TetraHist configurations with invalid
 HistBins, Quantity, GridFile or Particles

---
 render/io/config.go | 4 ++++
 render/main/main.go | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/render/io/config.go b/render/io/config.go
index b5b356c..ead839c 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -569,6 +569,10 @@ func (con *TetraHistConfig) ValidHistBins() bool {
 	return con.HistBins > 0
 }
 
+func (con *TetraHistConfig) ValidParticles() bool {
+	return con.Particles > 0
+}
+
 func (con *TetraHistConfig) ValidHistScale() bool {
 	return con.HistScale == "Linear" || con.HistScale == "Log"
 }
diff --git a/render/main/main.go b/render/main/main.go
index cc17f87..3863606 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -157,6 +157,14 @@ func main() {
 		} else if !con.ValidHistMin() || !con.ValidHistMax() {
 			log.Fatalf("Invalid ('HistMin', 'HistMax'), (%g, %g).",
 				con.HistMin, con.HistMax)
+		} else if !con.ValidHistBins() {
+			log.Fatalf("Invalid 'HistBins' value, %d.", con.HistBins)
+		} else if !con.ValidQuantity() {
+			log.Fatalf("Invalid 'Quantity' value, '%s'.", con.Quantity)
+		} else if !con.ValidGridFile() {
+			log.Fatal("Invalid/non-existent 'GridFile' value.")
+		} else if !con.ValidParticles() {
+			log.Fatalf("Invalid 'Particles' value, %d.", con.Particles)
 		}
 
 		bounds := flag.Args()
-- 
2.43.0


From 07221baee935c78445735b21a96f0a03a1f1f8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 17/90] fix: fail cleanly without boxes or sheet files, or when
 boxes share an output file

---
 render/main/main.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 3863606..b55f153 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -558,6 +558,7 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 		if err != nil { log.Fatal(err.Error()) }
 		configBoxes = append(configBoxes, boxes...)
 	}
+	checkBoxes(configBoxes)
 
 	// Figure out which quantity we're rendering.
 	q, ok := density.QuantityFromString(con.Quantity)
@@ -661,7 +662,11 @@ func densitySetupIO(con *io.RenderConfig) (
 	files = make([]string, len(infos))
 	for i := range infos { files[i] = path.Join(con.Input, infos[i].Name()) }
 
-	io.ReadSheetHeaderAt(files[0], hd)
+	if len(files) == 0 {
+		log.Fatalf("There are no files in the 'Input' directory, %s.", con.Input)
+	}
+	err = io.ReadSheetHeaderAt(files[0], hd)
+	if err != nil { log.Fatal(err.Error()) }
 
 	return files, hd, fg
 }
@@ -699,7 +704,11 @@ func tetraHistSetupIO(con *io.TetraHistConfig) (
 	files = make([]string, len(infos))
 	for i := range infos { files[i] = path.Join(con.Input, infos[i].Name()) }
 
-	io.ReadSheetHeaderAt(files[0], hd)
+	if len(files) == 0 {
+		log.Fatalf("There are no files in the 'Input' directory, %s.", con.Input)
+	}
+	err = io.ReadSheetHeaderAt(files[0], hd)
+	if err != nil { log.Fatal(err.Error()) }
 
 	return files, hd, fg
 }
@@ -786,6 +795,20 @@ func particles(con *io.RenderConfig, box *io.BoxConfig, boxWidth float64) int {
 	return con.Particles
 }
 
+// checkBoxes fails if there are no boxes or if two boxes would be written to the
+// same file.
+func checkBoxes(boxes []io.BoxConfig) {
+	if len(boxes) == 0 { log.Fatal("There are no boxes in the bounds files.") }
+
+	names := make(map[string]bool)
+	for i := range boxes {
+		if names[boxes[i].Name] {
+			log.Fatalf("Two boxes have the same name, '%s'.", boxes[i].Name)
+		}
+		names[boxes[i].Name] = true
+	}
+}
+
 func tetraHistMain(con *io.TetraHistConfig, bounds []string) {
 	// Get the I/O essentials.
 	fileNames, hd, fg := tetraHistSetupIO(con)
@@ -798,6 +821,7 @@ func tetraHistMain(con *io.TetraHistConfig, bounds []string) {
 		if err != nil { log.Fatal(err.Error()) }
 		configBoxes = append(configBoxes, boxes...)
 	}
+	checkBoxes(configBoxes)
 
 	// Figure out cell sizes, pixel sizes, and particle counts.
 	boxes := make([]render.HistBox, len(configBoxes))
-- 
2.43.0


From 0e49afc409718fb08c0e3eeec627dd668a3b6e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 18/90] fix: refuse a non-positive number of threads instead of
 crashing

---
 render/main/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index b55f153..02f8c95 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -98,6 +98,10 @@ func main() {
 	// incorrect flags.
 	modeName, err := getModeName(vars)
 	if err != nil { log.Fatal(err.Error()) }
+
+	if render.NumCores < 1 {
+		log.Fatalf("Invalid 'Threads' value, %d.", render.NumCores)
+	}
 	
 	// Based on the mode being run, do some basic input sanitization and 
 	// run the econdary main function.
-- 
2.43.0


From ddfe928571d5be317827e7131a8af90978bb8f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 19/90] fix: take the floor of zero and negative integers
 correctly when gridding points

---
 render/box.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/render/box.go b/render/box.go
index 08bbd8a..71a1a02 100644
--- a/render/box.go
+++ b/render/box.go
@@ -683,11 +683,9 @@ func (w *domainOverlap3D) Interpolate(
 }
 
 func intFloor(x float32) int {
-	if x > 0 {
-		return int(x)
-	} else {
-		return int(x - 1)
-	}
+	n := int(x)
+	if float32(n) > x { n-- }
+	return n
 }
 
 func cbSubtr(cb1, cb2 *geom.CellBounds) (i, j, k int) {
-- 
2.43.0


From a99e73ecd612064f7bdae8dba56c304a6a307524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 20/90] fix: do not give boxes more pixels on a side than the
 simulation

The pixels past the first period of a box covering the whole simulation were
never filled.
---
 render/box.go | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/render/box.go b/render/box.go
index 71a1a02..8388e8e 100644
--- a/render/box.go
+++ b/render/box.go
@@ -136,6 +136,24 @@ func NewBox(
 	}
 }
 
+// boxCellBounds returns the bounds of the cells touched by a box. A box never
+// contains the same cell of the periodic simulation twice.
+func boxCellBounds(
+	origin, width [3]float64, cellWidth float64, cells int,
+) geom.CellBounds {
+	cb := geom.CellBounds{ }
+	for j := 0; j < 3; j++ {
+		cb.Origin[j] = int(math.Floor(origin[j] / cellWidth))
+		end := math.Floor((width[j] + origin[j]) / cellWidth)
+		if end < float64(cb.Origin[j] + cells) {
+			cb.Width[j] = 1 + int(end) - cb.Origin[j]
+		} else {
+			cb.Width[j] = cells
+		}
+	}
+	return cb
+}
+
 func newBox2D(
 	boxWidth float64, pts, cells int, q density.Quantity, config *io.BoxConfig,
 ) Box {
@@ -157,13 +175,7 @@ func newBox2D(
 	origin := [3]float64{ config.X, config.Y, config.Z }
 	width := [3]float64{ config.XWidth, config.YWidth, config.ZWidth }
 
-	for j := 0; j < 3; j++ {
-		b.cb.Origin[j] = int(math.Floor(origin[j] / cellWidth))
-		b.cb.Width[j] = 1 + int(
-			math.Floor((width[j] + origin[j]) / cellWidth),
-		)
-		b.cb.Width[j] -= b.cb.Origin[j]
-	}
+	b.cb = boxCellBounds(origin, width, cellWidth, cells)
 
 	b.cells = cells
 	b.pts = pts
@@ -193,13 +205,7 @@ func newBox3D(
 	origin := [3]float64{ config.X, config.Y, config.Z }
 	width := [3]float64{ config.XWidth, config.YWidth, config.ZWidth }
 
-	for j := 0; j < 3; j++ {
-		b.cb.Origin[j] = int(math.Floor(origin[j] / cellWidth))
-		b.cb.Width[j] = 1 + int(
-			math.Floor((width[j] + origin[j]) / cellWidth),
-		)
-		b.cb.Width[j] -= b.cb.Origin[j]
-	}
+	b.cb = boxCellBounds(origin, width, cellWidth, cells)
 
 	b.cells = cells
 	b.pts = pts
-- 
2.43.0


From 8dc116632b59ab9a3ecb84e899f6e009c3af26e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 21/90] fix: do not divide projected velocities by the depth of
 the projection

---
 render/box.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/render/box.go b/render/box.go
index 8388e8e..7b07572 100644
--- a/render/box.go
+++ b/render/box.go
@@ -505,10 +505,11 @@ func (w *segmentOverlap2D) Interpolate(
 	kOffset := w.domCb.Origin[kDim] - w.bufCb.Origin[kDim]
 
 	length := w.bufCb.Width[iDim]
-	ptVal /= float64(w.domCb.Width[kDim])
 
 	wlen := bweights.Length()
 	buf, scalar := bbuf.ScalarBuffer()
+	// Only sums are averaged over the depth, means already are.
+	if scalar { ptVal /= float64(w.domCb.Width[kDim]) }
 	wbuf, _ := bweights.ScalarBuffer()
 	vbuf, _ := bbuf.VectorBuffer()
 	vwbuf, _ := bweights.VectorBuffer()
@@ -604,10 +605,11 @@ func (w *domainOverlap2D) Interpolate(
 	}
 
 	length := w.bufCb.Width[iDim]
-	ptVal /= float64(w.bufCb.Width[kDim])
 
 	wlen := bweights.Length()
 	buf, scalar := bbuf.ScalarBuffer()
+	// Only sums are averaged over the depth, means already are.
+	if scalar { ptVal /= float64(w.bufCb.Width[kDim]) }
 	wbuf, _ := bweights.ScalarBuffer()
 	vbuf, _ := bbuf.VectorBuffer()
 	vwbuf, _ := bweights.VectorBuffer()
-- 
2.43.0


From 080a93ca37f8b8740a5f00760a1ff73152de800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 22/90] fix: do not panic on the string form of the Density
 quantity

---
 render/density/quantity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/density/quantity.go b/render/density/quantity.go
index b17327e..7a201b7 100644
--- a/render/density/quantity.go
+++ b/render/density/quantity.go
@@ -15,7 +15,7 @@ const (
 )
 
 func (q Quantity) String() string {
-	if q <= 0 || q >= EndQuantity {
+	if q < 0 || q >= EndQuantity {
 		panic(fmt.Sprintf("Value %d out of range for Quantity type.", q))
 	}
 
-- 
2.43.0


From 520c67c18ba3b6a4bbdd1a23de6cdb44d7a145a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 23/90] fix: remove a debugging print which divides by zero for
 small velocity grids

---
 render/density/buffer.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/render/density/buffer.go b/render/density/buffer.go
index 595258c..4375006 100644
--- a/render/density/buffer.go
+++ b/render/density/buffer.go
@@ -295,9 +295,6 @@ func (buf *velocityBuffer) FinalizedVectorBuffer() (xs, ys, zs []float32, ok boo
 	ys = make([]float32, len(buf.vecs))
 	zs = make([]float32, len(buf.vecs))
 	for i, vec := range buf.vecs {
-		if i % (len(buf.vecs) / 30) == 0 {
-			fmt.Println(i, buf.num[i], vec[0], vec[1], vec[2])
-		}
 		n := float32(buf.num[i])
 		if buf.num[i] == 0 { continue }
 		xs[i], ys[i], zs[i] = float32(vec[0])/n, float32(vec[1])/n, float32(vec[2])/n
-- 
2.43.0


From 129cb5f4991298765a98e588c5bca79229201018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 24/90] fix: use the y component of the velocity in its
 divergence

---
 render/density/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/density/buffer.go b/render/density/buffer.go
index 4375006..d4b8a55 100644
--- a/render/density/buffer.go
+++ b/render/density/buffer.go
@@ -351,7 +351,7 @@ func (buf *divergenceBuffer) FinalizedScalarBuffer() (vals []float32, ok bool) {
 		n := float32(buf.num[i])
 		if buf.num[i] == 0 { continue }
 		vecs[0][i] = float32(vec[0])/n
-		vecs[1][i] = float32(vec[0])/n
+		vecs[1][i] = float32(vec[1])/n
 		vecs[2][i] = float32(vec[2])/n
 	} 
 
-- 
2.43.0


From 9e5de9bb7e867215cfebc7cda8f384bdff469b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 25/90] fix: mark vector grids as such in .gtet headers

The flag was set after the header had been written.
---
 render/io/output.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/io/output.go b/render/io/output.go
index cdf611d..c5f91ab 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -152,12 +152,13 @@ func WriteBuffer(
 	hd.Render = render
 	hd.Loc = loc
 
-	binary.Write(wr, end, &hd)
 	if xs, ok := buf.FinalizedScalarBuffer(); ok {
 		hd.Type.IsVectorGrid = 0
+		binary.Write(wr, end, &hd)
 		binary.Write(wr, end, xs)
 	} else if xs, ys, zs, ok := buf.FinalizedVectorBuffer(); ok {
 		hd.Type.IsVectorGrid = 1
+		binary.Write(wr, end, &hd)
 		binary.Write(wr, end, xs)
 		binary.Write(wr, end, ys)
 		binary.Write(wr, end, zs)
-- 
2.43.0


From d943ef8adccb7b16703d98ee4b3adf2702855573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 26/90] fix: read projected grids in ReadGrid

---
 render/io/output.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/render/io/output.go b/render/io/output.go
index c5f91ab..d171dc6 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -78,8 +78,12 @@ func ReadGrid(fname string) ([]float64, error) {
         return nil, fmt.Errorf("io.ReadGrid() can only read scalar grids.")
     }
 
-    sp := hd.Loc.PixelSpan
-    val32s := make([]float32, sp[0] * sp[1] * sp[2])
+    n := int64(1)
+    for i, sp := range hd.Loc.PixelSpan {
+        // The projected axis is not present in the file.
+        if int64(i) != hd.Render.ProjectionAxis { n *= sp }
+    }
+    val32s := make([]float32, n)
     err = binary.Read(f, end, val32s)
     if err != nil { return nil, err }
 
-- 
2.43.0


From a12bccc8fd142e01b40334ffdae107d91ce76e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 27/90] fix: report failures to write .gtet files

---
 render/io/output.go | 16 +++++++++-------
 render/main/main.go |  3 ++-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/render/io/output.go b/render/io/output.go
index d171dc6..51414c3 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -146,7 +146,7 @@ func WriteBuffer(
 	buf density.Buffer,
 	cosmo CosmoInfo, render RenderInfo, loc LocationInfo,
 	wr io.Writer,
-) {
+) error {
 	hd := GridHeader{}
 	hd.EndiannessVersion = EndiannessVersionFlag(end)
 	hd.Type.HeaderSize = int64(unsafe.Sizeof(hd))
@@ -156,19 +156,21 @@ func WriteBuffer(
 	hd.Render = render
 	hd.Loc = loc
 
+	blocks := []interface{}{}
 	if xs, ok := buf.FinalizedScalarBuffer(); ok {
 		hd.Type.IsVectorGrid = 0
-		binary.Write(wr, end, &hd)
-		binary.Write(wr, end, xs)
+		blocks = append(blocks, &hd, xs)
 	} else if xs, ys, zs, ok := buf.FinalizedVectorBuffer(); ok {
 		hd.Type.IsVectorGrid = 1
-		binary.Write(wr, end, &hd)
-		binary.Write(wr, end, xs)
-		binary.Write(wr, end, ys)
-		binary.Write(wr, end, zs)
+		blocks = append(blocks, &hd, xs, ys, zs)
 	} else {
 		panic("Buffer is neither scalar nor vector.")
 	}
+
+	for _, block := range blocks {
+		if err := binary.Write(wr, end, block); err != nil { return err }
+	}
+	return nil
 }
 
 func EndiannessVersionFlag(end binary.ByteOrder) uint64 {
diff --git a/render/main/main.go b/render/main/main.go
index 02f8c95..65967ed 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -621,7 +621,8 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 			box.Points(), box.Cells(), con.SubsampleLength, axisStr,
 		)
 
-		io.WriteBuffer(box.Vals(), cos, renderInfo, loc, f)
+		err = io.WriteBuffer(box.Vals(), cos, renderInfo, loc, f)
+		if err != nil { log.Fatalf("Could not write %s: %s", out, err.Error()) }
 	}
 }
 
-- 
2.43.0


From dd34b124dd17653b8a9e019f6ed67179b5939fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 28/90] fix: refuse balls with a negative radius

---
 render/io/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/config.go b/render/io/config.go
index ead839c..b217dd5 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -349,7 +349,7 @@ type BallConfig struct {
 }
 
 func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
-	if ball.Radius == 0 {
+	if ball.Radius <= 0 {
 		return fmt.Errorf(
 			"Need to specify a positive radius for Ball '%s'.", name,
 		)
-- 
2.43.0


From 1e7f22aa277a23bbb1784432de527eefe7f653a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 29/90] fix: keep the origins of the boxes around balls inside
 the simulation

Balls touching the lower faces or wider than the simulation had origins at or
outside of the simulation's edges.
---
 render/io/config.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index b217dd5..7a16b7d 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"gopkg.in/gcfg.v1"
@@ -385,29 +386,24 @@ func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
 	return nil
 }
 
+// wrap returns the equivalent of x within the range [0, width) of a periodic box.
+func wrap(x, width float64) float64 {
+	x = math.Mod(x, width)
+	if x < 0 { x += width }
+	// Adding a tiny negative value to width can round up to width.
+	if x >= width { x = 0 }
+	return x
+}
+
 func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 	box := &BoxConfig{}
 	rad := ball.Radius * ball.RadiusMultiplier
 
 	box.XWidth, box.YWidth, box.ZWidth = 2 * rad, 2 * rad, 2 * rad
 
-	if ball.X > rad {
-		box.X = ball.X - rad
-	} else {
-		box.X = ball.X - rad + totalWidth
-	}
-
-	if ball.Y > rad {
-		box.Y = ball.Y - rad
-	} else {
-		box.Y = ball.Y - rad + totalWidth
-	}
-
-	if ball.Z > rad {
-		box.Z = ball.Z - rad
-	} else {
-		box.Z = ball.Z - rad + totalWidth
-	}
+	box.X = wrap(ball.X - rad, totalWidth)
+	box.Y = wrap(ball.Y - rad, totalWidth)
+	box.Z = wrap(ball.Z - rad, totalWidth)
 
 	box.Name = ball.Name
 
-- 
2.43.0


From ee37d770f19e316fe51dcb92d1ac8037d71251fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 30/90] fix: support the documented ProjectionAxis of Ball
 bounds

---
 render/io/config.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/render/io/config.go b/render/io/config.go
index 7a16b7d..1ed3f67 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -346,6 +346,7 @@ type BallConfig struct {
 
 	// Optional
 	RadiusMultiplier float64
+	ProjectionAxis string
 	Name string
 }
 
@@ -383,6 +384,19 @@ func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
+	tmp := ball.ProjectionAxis
+	ball.ProjectionAxis = strings.Trim(strings.ToUpper(ball.ProjectionAxis), " ")
+	if ball.ProjectionAxis != "" &&
+		ball.ProjectionAxis != "X" &&
+		ball.ProjectionAxis != "Y" &&
+		ball.ProjectionAxis != "Z" {
+
+		return fmt.Errorf(
+			"ProjectionAxis of Ball '%s' must be one of [X | Y | Z]. '%s' is " + 
+				"not recognized.", name, tmp,
+		)
+	}
+
 	return nil
 }
 
@@ -405,6 +419,7 @@ func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 	box.Y = wrap(ball.Y - rad, totalWidth)
 	box.Z = wrap(ball.Z - rad, totalWidth)
 
+	box.ProjectionAxis = ball.ProjectionAxis
 	box.Name = ball.Name
 
 	return box
-- 
2.43.0


From 441ac9dbe23c1a4a269371ca229cf792e6ea27a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 31/90] fix: do not report touching or merely neighbouring cell
 bounds as intersecting

---
 render/geom/grid.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/render/geom/grid.go b/render/geom/grid.go
index f8bf107..c4897a0 100644
--- a/render/geom/grid.go
+++ b/render/geom/grid.go
@@ -116,7 +116,8 @@ func (cb1 *CellBounds) Intersect(cb2 *CellBounds, width int) bool {
 			oBig, wBig = cb1.Origin[i], cb1.Width[i]
 		}
 
-		eSmall := oSmall + wSmall
+		// The last cell inside the smaller bounds.
+		eSmall := oSmall + wSmall - 1
 		beSmall := bound(eSmall, oBig, width)
 		boSmall := bound(oSmall, oBig, width)
 
@@ -146,7 +147,7 @@ func (cb1 *CellBounds) IntersectUnbounded(cb2 *CellBounds) bool {
 func bound(x, origin, width int) int {
 	diff := x - origin
 	if diff < 0 { return diff + width }
-	if diff > width { return diff - width }
+	if diff >= width { return diff - width }
 	return diff
 }
 
-- 
2.43.0


From 6a9f6d0cbd8837f8afe8472b2fb0c75da86985f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 32/90] fix: keep particles on the edge of a segment's cells
 inside them when scaling

Rounding moved particles on the lower edge of a segment to the other side of the
simulation, which smeared their tetrahedra over the whole box or crashed.
---
 render/geom/grid.go | 56 +++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/render/geom/grid.go b/render/geom/grid.go
index c4897a0..781d991 100644
--- a/render/geom/grid.go
+++ b/render/geom/grid.go
@@ -151,24 +151,42 @@ func bound(x, origin, width int) int {
 	return diff
 }
 
+// scaleCoord converts a coordinate to cell units relative to an origin cell.
+// Points inside the width cells after the origin are returned within the range
+// [0, width), even if rounding moves them slightly past either end.
+func scaleCoord(x float32, scale float64, origin, width, cells int) float32 {
+	fCells, fWidth := float64(cells), float64(width)
+
+	y := float64(x) * scale - float64(origin)
+	if y < 0 {
+		y += fCells
+	} else if y >= fCells {
+		y -= fCells
+	}
+
+	// Leave enough space that averages of several points cannot be rounded up
+	// to the end of the range.
+	last := fWidth * (1 - 1.0 / (1 << 21))
+	if y > last {
+		if fCells > fWidth && y - fWidth > (fCells - fWidth) / 2 {
+			y = 0
+		} else {
+			y = last
+		}
+	}
+	return float32(y)
+}
+
 func (vcb *CellBounds) ScaleVecsSegment(
 	vs []Vec, cells int, boxWidth float64,
 ) {
-	fCells := float32(cells)
-	fWidth := float32(boxWidth)
-	scale := fCells / fWidth
-
-	origin := Vec{
-		float32(vcb.Origin[0]),
-		float32(vcb.Origin[1]),
-		float32(vcb.Origin[2]),
-	}
+	scale := float64(cells) / boxWidth
 
 	for i := range vs {
 		for j := 0; j < 3; j++ { 
-			vs[i][j] *= scale
-			vs[i][j] = vs[i][j] - origin[j]
-			if vs[i][j] < 0 { vs[i][j] += fCells }
+			vs[i][j] = scaleCoord(
+				vs[i][j], scale, vcb.Origin[j], vcb.Width[j], cells,
+			)
 		}
 	}
 }
@@ -176,15 +194,9 @@ func (vcb *CellBounds) ScaleVecsSegment(
 func (vcb *CellBounds) ScaleVecsDomain(
 	cb *CellBounds, vs []Vec, cells int, boxWidth float64,
 ) {
+	scale := float64(cells) / boxWidth
 	fCells := float32(cells)
-	fWidth := float32(boxWidth)
-	scale := fCells / fWidth
 
-	origin := Vec{
-		float32(vcb.Origin[0]),
-		float32(vcb.Origin[1]),
-		float32(vcb.Origin[2]),
-	}
 	diff := Vec{
 		float32(vcb.Origin[0] - cb.Origin[0]),
 		float32(vcb.Origin[1] - cb.Origin[1]),
@@ -201,9 +213,9 @@ func (vcb *CellBounds) ScaleVecsDomain(
 
 	for i := range vs {
 		for j := 0; j < 3; j++ { 
-			vs[i][j] *= scale
-			vs[i][j] = vs[i][j] - origin[j]
-			if vs[i][j] < 0 { vs[i][j] += fCells }
+			vs[i][j] = scaleCoord(
+				vs[i][j], scale, vcb.Origin[j], vcb.Width[j], cells,
+			)
 			vs[i][j] += diff[j]
 		}
 	}
-- 
2.43.0


From 3c3273d567f1b28b5aabeabdeeb0bd4c5fa5de0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 33/90] fix: include the lower edges and whole periods of
 histogram boxes

A point on the lower edge of a box or on the face opposite to the origin of a box
covering the whole simulation was not counted.
---
 render/hist.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 7c4b1bb..2a1bafb 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -207,21 +207,29 @@ func histIntersect(sheet *io.SheetHeader, box *HistBox) bool {
 
 // intersect1D returns true if a segment starting at a with widht aSpan and 
 // a second segment starting at b with width bSpan intersect within a periodic
-// box of width L.
+// box of width L. Segments which touch to within rounding errors intersect.
 func intersect1D(a, aSpan, b, bSpan, L float64) bool {
-	return contains1D(a, aSpan, b, L) ||
-		contains1D(a, aSpan, b + bSpan, L) ||
-		contains1D(b, bSpan, a, L) ||
-		contains1D(b, bSpan, a + aSpan, L)
+	eps := 1e-6 * L
+	return dist1D(a, b, L) <= aSpan + eps ||
+		dist1D(b, a, L) <= bSpan + eps ||
+		dist1D(a, b, L) >= L - eps
 }
 
 // contains1D returns true if b is within a segment that starts at a and has
 // width aSpan within a periotic box of width L. a must be in [0, L), but b
 // can be within [0, 2*L).
 func contains1D(a, aSpan, b, L float64) bool {
-	if b >= L { b -= L }
-	return (b > a && a + aSpan > b) ||
-		(b < a && a + aSpan - L > b)
+	return dist1D(a, b, L) < aSpan
+}
+
+// dist1D returns the distance in [0, L) that needs to be travelled upwards from
+// a to get to b within a periodic box of width L.
+func dist1D(a, b, L float64) float64 {
+	delta := b - a
+	if delta >= L { delta -= L }
+	if delta < 0 { delta += L }
+	if delta >= L { delta = 0 }
+	return delta
 }
 
 // chanHistogram is a worker function run on a single thread which constructs
-- 
2.43.0


From 04b23c69f3af21658297aa5eb943ec33cda11ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 34/90] fix: give every cube of a subsampled segment to one
 histogram worker

---
 render/hist.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 2a1bafb..742384a 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -250,13 +250,14 @@ func (man *HistManager) chanHistogram(
 	// Evaluate whatever quantity is being measured.
 	switch strings.ToLower(man.quantity) {
 	case strings.ToLower("Density"):
+		// Cubes are dealt out to the workers in turns.
+		cube := -1
 		for z := 0; z < segWidth; z += man.skip {
 			for y := 0; y < segWidth; y += man.skip {
 				for x := 0; x < segWidth; x += man.skip {
 					idx := x + y*gridWidth + z*gridWidth*gridWidth
-					if idx%(man.skip*man.skip*man.skip*man.workers) != worker {
-						continue
-					}
+					cube++
+					if cube%man.workers != worker { continue }
 
 					if !man.cubeIntersects(idx) { continue }
 					for dir := 0; dir < geom.TetraDirCount; dir++ {
-- 
2.43.0


From ef275cb9d1889fa7dde65c0d32fadd26e64f6dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 35/90] fix: compute the bounding boxes of cubes from all of
 their corners

Cubes inside the box were skipped because of bounding boxes which were shifted
in the wrong direction.
---
 render/hist.go | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 742384a..a1d02a6 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -259,7 +259,7 @@ func (man *HistManager) chanHistogram(
 					cube++
 					if cube%man.workers != worker { continue }
 
-					if !man.cubeIntersects(idx) { continue }
+					if !man.cubeIntersects(idx, box) { continue }
 					for dir := 0; dir < geom.TetraDirCount; dir++ {
 						man.getDensities(idx, dir, box, vecBuf, qs, inBox)
 						histogram(qs, inBox, info, hist)
@@ -274,9 +274,8 @@ func (man *HistManager) chanHistogram(
 	out <- worker
 }
 
-// tetIntersects returns true if the cube at idx intersects with the currently
-// loaded sheet.
-func (man *HistManager) cubeIntersects(idx int) bool {
+// cubeIntersects returns true if the cube at idx intersects with the given box.
+func (man *HistManager) cubeIntersects(idx int, box *HistBox) bool {
 	w := int(man.hd.GridWidth)
 	ix := idx % w
 	iy := (idx / w) % w
@@ -294,7 +293,7 @@ func (man *HistManager) cubeIntersects(idx int) bool {
 
 	for k := 0; k < 3; k++ {
 		if !intersect1D(
-			float64(man.hd.Origin[k]), float64(man.hd.Width[k]),
+			box.Origin[k], box.Span[k],
 			float64(origin[k]), float64(span[k]), man.hd.TotalWidth,
 		) {
 			return false
@@ -308,35 +307,38 @@ func (man *HistManager) cubeBoundingBox(
 ) (origin, span geom.Vec) {
 	jump := man.skip
 	w, L := int(man.hd.GridWidth), float32(man.hd.TotalWidth)
-	origin, span = man.xs[ix + iy*w + iz*w*w], geom.Vec{ }
+	first := man.xs[ix + iy*w + iz*w*w]
+	// Limits of the box relative to the first corner.
+	min, max := geom.Vec{ }, geom.Vec{ }
 
-	for dz := 0; dz < jump; dz += jump {
-		for dy := 0; dy < jump; dy += jump {
-			for dx := 0; dx < jump; dx += jump {
+	for dz := 0; dz <= jump; dz += jump {
+		for dy := 0; dy <= jump; dy += jump {
+			for dx := 0; dx <= jump; dx += jump {
 				// Get the vector in each corner of the Lagrangian cube.
 				x, y, z := ix + dx, iy + dy, iz + dz
 				vec := man.xs[x + y*w + z*w*w]
 
 				// Update origin and span in each dimension.
 				for k := 0; k < 3; k++ {
-					delta := vec[k] - origin[k]
+					delta := vec[k] - first[k]
 					if delta > L/2 {
 						delta -= L 
 					} else if delta < -L/2 {
 						delta += L 
 					}
 
-					if delta > 0 && delta > span[k] {
-						span[k] = delta
-					} else if delta < 0 {
-						origin[k] -= delta
-						if origin[k] < 0 { origin[k] += L }
-						span[k] += delta
-					}
+					if delta > max[k] { max[k] = delta }
+					if delta < min[k] { min[k] = delta }
 				}
 			}
 		}
 	}
+
+	for k := 0; k < 3; k++ {
+		origin[k] = first[k] + min[k]
+		if origin[k] < 0 { origin[k] += L }
+		span[k] = max[k] - min[k]
+	}
 	return origin, span
 }
 
-- 
2.43.0


From 31d507385aff3dd83de280464f2d86e018b00b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 36/90] fix: put tetrahedra across the simulation's edges
 together before sampling them

---
 render/hist.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index a1d02a6..7e6243a 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -367,6 +367,9 @@ func (man *HistManager) getDensities(
 		&man.xs[idxBuf[2]], &man.xs[idxBuf[3]],
 	)
 	
+	// Tetrahedra can straddle the edges of the simulation.
+	man.periodizeTetra(&tet, L)
+
 	bufIdx := rand.Int63n(int64(len(man.unitBufs)))
 	tet.DistributeTetra(man.unitBufs[bufIdx], vecBuf)
 
@@ -417,7 +420,7 @@ func gridIndex(hd *io.GridHeader, vec geom.Vec) int {
 func (man *HistManager) periodizeTetra(tet *geom.Tetra, L float32) {
 	for i := 1; i < 4; i++ {
 		for k := 0; k < 3; k++ {
-			delta := tet.Corners[i][k] - tet.Corners[i][0]
+			delta := tet.Corners[i][k] - tet.Corners[0][k]
 			if delta > L/2 { tet.Corners[i][k] -= L }
 			if delta < -L/2 { tet.Corners[i][k] += L }
 		}
-- 
2.43.0


From 35c2ddc087f8c07e5cbf4d98f1955a9e358ac79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 37/90] fix: report sheet files that cannot be read in
 TetraHist mode

---
 render/hist.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index 7e6243a..3a24233 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -170,7 +170,8 @@ func (man *HistManager) HistFromFile(file string, info *HistInfo) error {
 	for bi := range man.boxes {
 		if !histIntersect(&man.hd, &man.boxes[bi]) { continue }
 
-		io.ReadSheetPositionsAt(file, man.xs)
+		err := io.ReadSheetPositionsAt(file, man.xs)
+		if err != nil { return err }
 
 		for id := 0; id < man.workers; id++ {
 			go man.chanHistogram(id, &man.boxes[bi], info, out)
-- 
2.43.0


From 4686c8bdad855f38372e88bb6a64d444b0663023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 38/90] fix: refuse projected grid files in TetraHist mode

---
 render/hist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/render/hist.go b/render/hist.go
index 3a24233..35fc3d6 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -92,6 +92,9 @@ func NewHistManager(
 
 	man.gridHd, err = io.ReadGridHeader(gridFile)
 	if err != nil { return nil, err }
+	if man.gridHd.Render.ProjectionAxis != -1 {
+		return nil, fmt.Errorf("'%s' is not a three dimensional grid.", gridFile)
+	}
 	man.grid, err = io.ReadGrid(gridFile)
 	if err != nil { return nil, err }
 
-- 
2.43.0


From 8ba042962fdb4000e0b9e82f2fe0fdc0cc07b6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 39/90] fix: keep points at the upper edge of a grid inside of
 it when looking up pixels

---
 render/hist.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/render/hist.go b/render/hist.go
index 35fc3d6..d048e4f 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -414,6 +414,8 @@ func gridIndex(hd *io.GridHeader, vec geom.Vec) int {
 
 		if delta < 0 || delta >= hd.Loc.Span[k] { return -1 }
 		idx[k] = int(delta / hd.Loc.PixelWidth)
+		// The division can be rounded up.
+		if idx[k] >= int(hd.Loc.PixelSpan[k]) { idx[k]-- }
 	}
 	
 	
-- 
2.43.0


From 4d720d228ae317cc55c96e0a469165aca163197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 40/90] fix: open .gtet files in binary mode in gotetra.py

---
 python/gotetra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/gotetra.py b/python/gotetra.py
index 1e5ebc3..6771b76 100644
--- a/python/gotetra.py
+++ b/python/gotetra.py
@@ -66,7 +66,7 @@ def read_header(filename):
     """ read_header returns the header information at the top of a gotetra
     output file as a Header object.
     """
-    with open(filename, "r") as fp:
+    with open(filename, "rb") as fp:
         flag_s = fp.read(8)
         ver = _read_version(flag_s)
         sizes = Sizes(ver)
-- 
2.43.0


From b79dabf912ba3329afa7cd8096faa082cffa7395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 41/90] fix: leave negative values out of logarithmic
 histograms instead of crashing

---
 render/hist.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index d048e4f..f806f05 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -446,7 +446,8 @@ func histogram(x []float64, ok []bool, info *HistInfo, counts []int) {
 			if !ok[i] { continue }
 
 			idx := (math.Log10(x[i]) - min) / dx
-			if idx < 0 || idx >= fBins { continue }
+			// Negative values don't have logarithms and aren't in any bin.
+			if !(idx >= 0 && idx < fBins) { continue }
 
 			counts[int(idx)]++
 			
@@ -458,7 +459,7 @@ func histogram(x []float64, ok []bool, info *HistInfo, counts []int) {
 			if !ok[i] { continue }
 
 			idx := (x[i] - min) / dx
-			if idx < 0 || idx >= fBins { continue }
+			if !(idx >= 0 && idx < fBins) { continue }
 			counts[int(idx)]++	
 		}
 	}
-- 
2.43.0


From 8d9e3f750d791b7a5fc8ffd95f6c9914faecc3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 42/90] fix: refuse bounds whose values are not numbers

---
 render/io/config.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index 1ed3f67..5be27e5 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -351,23 +351,23 @@ type BallConfig struct {
 }
 
 func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
-	if ball.Radius <= 0 {
+	if !(ball.Radius > 0) {
 		return fmt.Errorf(
 			"Need to specify a positive radius for Ball '%s'.", name,
 		)
 	}
 
-	if ball.X >= totalWidth || ball.X < 0 {
+	if !(ball.X >= 0 && ball.X < totalWidth) {
 		return fmt.Errorf(
 			"X center of Ball '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, ball.X,
 		)
-	} else if ball.Y >= totalWidth || ball.Y < 0 {
+	} else if !(ball.Y >= 0 && ball.Y < totalWidth) {
 		return fmt.Errorf(
 			"Y center of Ball '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, ball.Y,
 		)
-	} else if ball.Z >= totalWidth || ball.Z < 0 {
+	} else if !(ball.Z >= 0 && ball.Z < totalWidth) {
 		return fmt.Errorf(
 			"Z center of Ball '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, ball.Z,
@@ -377,7 +377,7 @@ func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
 	ball.Name = name
 	if ball.RadiusMultiplier == 0 {
 		ball.RadiusMultiplier = 1
-	} else if ball.RadiusMultiplier < 0 {
+	} else if !(ball.RadiusMultiplier > 0) {
 		return fmt.Errorf(
 			"Ball '%s' given a negative radius multiplier, %g.",
 			name, ball.RadiusMultiplier,
@@ -438,31 +438,31 @@ type BoxConfig struct {
 }
 
 func (box *BoxConfig) CheckInit(name string, totalWidth float64) error {
-	if box.XWidth <= 0 {
+	if !(box.XWidth > 0) {
 		return fmt.Errorf(
 			"Need to specify a positive XWidth for Box '%s'", name,
 		)
-	} else if box.YWidth <= 0 {
+	} else if !(box.YWidth > 0) {
 		return fmt.Errorf(
 			"Need to specify a positive YWidth for Box '%s'", name,
 		)
-	} else if box.ZWidth <= 0 {
+	} else if !(box.ZWidth > 0) {
 		return fmt.Errorf(
 			"Need to specify a positive ZWidth for Box '%s'", name,
 		)
 	}
 
-	if box.X >= totalWidth || box.X < 0 {
+	if !(box.X >= 0 && box.X < totalWidth) {
 		return fmt.Errorf(
 			"X origin of Box '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, box.X,
 		)
-	} else if box.Y >= totalWidth || box.Y < 0 {
+	} else if !(box.Y >= 0 && box.Y < totalWidth) {
 		return fmt.Errorf(
 			"Y origin of Box '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, box.Y,
 		)
-	} else if box.Z >= totalWidth || box.Z < 0 {
+	} else if !(box.Z >= 0 && box.Z < totalWidth) {
 		return fmt.Errorf(
 			"Z origin of Box '%s' must be in range [0, %g), but is %g",
 			name, totalWidth, box.Z,
-- 
2.43.0


From 51b2ed17924fbea32715893f2a068ee51eba3a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 43/90] fix: fail cleanly when there are no snapshot files to
 convert

---
 render/main/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 65967ed..451b950 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -275,6 +275,9 @@ func lGadget2Main(con *io.ConvertSnapshotConfig) {
 			if !con.ValidIterationEnd() && i > con.IterationStart { break }
 			log.Fatal(err.Error())
 		}
+		if len(infos) == 0 {
+			log.Fatalf("There are no files in the input directory, %s.", input)
+		}
 		files := make([]string, len(infos))
 		
 		for i, info := range infos {
-- 
2.43.0


From c0500b812577f4bc816f72e1534bef45d7880e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 44/90] fix: refuse histograms with an infinite range

---
 render/io/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index 5be27e5..db0cbac 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -565,13 +565,13 @@ func (con *TetraHistConfig) ValidQuantity() bool {
 }
 
 func (con *TetraHistConfig) ValidHistMin() bool {
-	return (con.HistScale == "Linear" ||
+	return !math.IsInf(con.HistMin, 0) && (con.HistScale == "Linear" ||
 		(con.HistScale == "Log" && con.HistMin > 0)) && 
 		con.HistMin < con.HistMax
 }
 
 func (con *TetraHistConfig) ValidHistMax() bool {
-	return (con.HistScale == "Linear" ||
+	return !math.IsInf(con.HistMax, 0) && (con.HistScale == "Linear" ||
 		(con.HistScale == "Log" && con.HistMax > 0)) &&
 		con.HistMin < con.HistMax
 }
-- 
2.43.0


From cff5adb800d45ab0b3cac28ae76f657a89e9515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 45/90] fix: step along the z axis in derivatives at the lower
 and upper z edges

---
 render/geom/deriv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index 81f1036..b254f14 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -95,7 +95,7 @@ func (g *Grid) wrapDeriv(
 			for y := lBounds[1]; y < uBounds[1]; y++ {
 				for  x := lBounds[0]; x < uBounds[0]; x++ {
 					idx := x + y * g.Length + z * g.Area
-					d.wrapDeriv(idx, 1, pos, g.Width[2])
+					d.wrapDeriv(idx, g.Area, pos, g.Width[2])
 				}
 			}
 		}
@@ -132,7 +132,7 @@ func (g *Grid) edgesDeriv(
 			for y := lBounds[1]; y < uBounds[1]; y++ {
 				for  x := lBounds[0]; x < uBounds[0]; x++ {
 					idx := x + y * g.Length + z * g.Area
-					d.edgeDeriv(idx, 1, pos)
+					d.edgeDeriv(idx, g.Area, pos)
 				}
 			}
 		}
-- 
2.43.0


From 26d639bf1583043e624c697f1403eb899634bfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 46/90] fix: refuse derivatives of grids narrower than the
 stencil

---
 render/geom/deriv.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index b254f14..80146c4 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -26,12 +26,12 @@ func (g *GridLocation) Deriv(
 
 	if axis > 2 || axis < 0 {
 		log.Fatalf("Unrecognized axis %d", axis)
-	} else if g.Width[axis] < 3 {
-		log.Fatalf("Width of array must be at least 3 for a " +
-			"second-order derivative.")
 	} else if opt.Order != 2 && opt.Order != 4 {
 		log.Fatalf("Grid.Deriv() can only compute 2nd and 4th order " +
 			"derivatives, not %d order.", opt.Order)
+	} else if g.Width[axis] < opt.Order + 1 {
+		log.Fatalf("Width of array must be at least %d for a derivative of " +
+			"order %d.", opt.Order + 1, opt.Order)
 	}
 
 	lBounds := [3]int{0, 0, 0}
-- 
2.43.0


From e9f68c1a7fe55ac2b1fc0a0e8198d0569a2e6ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 47/90] fix: do not change the options passed to Curl and
 Divergence

---
 render/geom/deriv.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index 80146c4..e87e328 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -324,11 +324,9 @@ func (g *GridLocation) Curl(
 	op *DerivOptions,
 ) {
 	// We can't change and revert due to thread safety.
-	tmp := op
-	if tmp == nil {
-		tmp, op = DerivOptionsDefault, DerivOptionsDefault
-	}
-	*op = *tmp
+	if op == nil { op = DerivOptionsDefault }
+	tmp := *op
+	op = &tmp
 
 	g.Deriv(vecs[2], out[0], 1, op)
 	g.Deriv(vecs[0], out[1], 2, op)
@@ -344,11 +342,9 @@ func (g *GridLocation) Divergence(
 	vecs [3][]float32, out []float32,
 	op *DerivOptions,
 ) {
-	tmp := op
-	if tmp == nil {
-		tmp, op = DerivOptionsDefault, DerivOptionsDefault
-	}
-	*op = *tmp
+	if op == nil { op = DerivOptionsDefault }
+	tmp := *op
+	op = &tmp
 	g.Deriv(vecs[0], out, 0, op)
 	op.Op = Add
 	g.Deriv(vecs[1], out, 1, op)
-- 
2.43.0


From 2c95c205a965b70a5c833b7e284ade6da4bf0de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 48/90] fix: include the fourth corner in the barycenter of a
 tetrahedron

---
 render/geom/tetra.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index 79412a5..c554b89 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -453,7 +453,8 @@ func (t *Tetra) Barycenter() *Vec {
 	}
 
 	for i := 0; i < 3; i++ {
-		t.bary[i] = (t.Corners[0][i] + t.Corners[1][i] + t.Corners[2][i]) / 4.0
+		t.bary[i] = (t.Corners[0][i] + t.Corners[1][i] +
+			t.Corners[2][i] + t.Corners[3][i]) / 4.0
 	}
 
 	t.baryValid = true
-- 
2.43.0


From a0dd20c3a4a1f0f9a05f5de168df72afaf5db7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 49/90] fix: check all three coordinates of centered tetrahedra

---
 render/geom/tetra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index c554b89..7d30176 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -122,9 +122,9 @@ func compressCoordsCheck(
 
 	if newX >= countWidth || newX < 0 {
 		return -1, false
-	} else if newX >= countWidth || newX < 0 {
+	} else if newY >= countWidth || newY < 0 {
 		return -1, false
-	} else if newX >= countWidth || newX < 0 { 
+	} else if newZ >= countWidth || newZ < 0 { 
 		return -1, false
 	}	
 
-- 
2.43.0


From f5630f2c9dca7cb4fdc6dc90835b64c0f923523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:50 +0000
Subject: [PATCH 50/90] fix: do not round the upper corner in tetrahedron cell
 bounds

---
 render/geom/tetra.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index 7d30176..991bd26 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -489,17 +489,8 @@ func (t *Tetra) CellBoundsAt(cellWidth float64, cb *CellBounds) {
 	}
 
 	for i := 0; i < 3; i++ {
-		maxes[i] -= mins[i]
-	}
-	width := maxes
-	origin := mins
-
-
-	for i := 0; i < 3; i++ {
-		cb.Origin[i] = int(math.Floor(float64(origin[i]) / cellWidth))
-		cb.Width[i] = 1 + int(math.Floor(
-			float64(width[i] + origin[i]) / cellWidth),
-		)
+		cb.Origin[i] = int(math.Floor(float64(mins[i]) / cellWidth))
+		cb.Width[i] = 1 + int(math.Floor(float64(maxes[i]) / cellWidth))
 		cb.Width[i] -= cb.Origin[i]
 	}
 }
-- 
2.43.0


From b91276e9ba73d74ece947a7caffabbcd8e2aef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 51/90] fix: keep Vec.Mod below the width of the box

---
 render/geom/vec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/geom/vec.go b/render/geom/vec.go
index 7ba4d3f..b58d9a4 100644
--- a/render/geom/vec.go
+++ b/render/geom/vec.go
@@ -47,6 +47,10 @@ func (v *Vec) ModAt(width float64, out *Vec) *Vec {
 			out[i] -= w
 		} else if out[i] < 0 {
 			out[i] += w
+			// Rounding can carry tiny negative values up to w.
+			if out[i] >= w {
+				out[i] = 0
+			}
 		}
 	}
 	return out
-- 
2.43.0


From fa19f1f75acf00c4a72346857731935d4728136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 52/90] fix: make cross products follow the right-hand rule

---
 render/geom/vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/geom/vec.go b/render/geom/vec.go
index b58d9a4..9d15b3b 100644
--- a/render/geom/vec.go
+++ b/render/geom/vec.go
@@ -129,7 +129,7 @@ func (v1 *Vec) CrossSelf(v2 *Vec) *Vec {
 	return v1.CrossAt(v2, v1)
 }
 
-func (v2 *Vec) CrossAt(v1, out *Vec) *Vec {
+func (v1 *Vec) CrossAt(v2, out *Vec) *Vec {
 	out0 := v1[1]*v2[2] - v1[2]*v2[1]
 	out1 := v1[2]*v2[0] - v1[0]*v2[2]
 	out2 := v1[0]*v2[1] - v1[1]*v2[0]
-- 
2.43.0


From 0972a3de90932927a05934bf42ee7482ebf98924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 53/90] fix: return coordinates relative to the same origin as
 Grid.Idx

---
 render/geom/grid.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/geom/grid.go b/render/geom/grid.go
index 781d991..51a7401 100644
--- a/render/geom/grid.go
+++ b/render/geom/grid.go
@@ -85,9 +85,9 @@ func (g *Grid) BoundsCheck(x, y, z int) bool {
 
 // Coords returns the x, y, z coordinates of a point from its grid index.
 func (g *Grid) Coords(idx int) (x, y, z int) {
-	x = idx % g.Length
-	y = (idx % g.Area) / g.Length
-	z = idx / g.Area
+	x = idx % g.Length + g.Origin[0]
+	y = (idx % g.Area) / g.Length + g.Origin[1]
+	z = idx / g.Area + g.Origin[2]
 	return x, y, z
 }
 /*
-- 
2.43.0


From 5d38de61170e0343dcadb7fa70f56570b1ba6893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 54/90] fix: keep random numbers below the upper end of their
 range

---
 math/rand/rand.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/math/rand/rand.go b/math/rand/rand.go
index 6f454df..2b22690 100644
--- a/math/rand/rand.go
+++ b/math/rand/rand.go
@@ -55,19 +55,26 @@ func New(gt GeneratorType, seed uint64) *Generator {
 
 func (gen *Generator) UniformInt(low, high int) int {
 	f := gen.backend.Next()
-	return int(math.Floor(float64(high - low) * f + float64(low)))
-	
+	return low + int(math.Floor(float64(high - low) * f))
 }
 
 func (gen *Generator) Uniform(low, high float64) float64 {
 	if low == 0.0 && high == 1.0 { return gen.backend.Next() }
-	return (gen.backend.Next() * (high - low)) + low
+	return scale(gen.backend.Next(), low, high)
+}
+
+// scale converts a value in the range [0, 1) to the range [low, high).
+func scale(x, low, high float64) float64 {
+	x = (x * (high - low)) + low
+	// Rounding can reach the upper limit.
+	if x >= high && high > low { return math.Nextafter(high, low) }
+	return x
 }
 
 func (gen *Generator) UniformAt(low, high float64, target []float64) {
 	gen.backend.NextSequence(target)
 	if low == 0.0 && high == 1.0 { return }
 	for i := range target {
-		target[i] = target[i] * (high - low) + low
+		target[i] = scale(target[i], low, high)
 	}
 }
-- 
2.43.0


From 11fef4774e8227a1a5aac310dd85a012d9de0815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 55/90] fix: restart Sobol sequences from their first point in
 Init

---
 math/rand/sobol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 9d6cad6..05f9b73 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -39,8 +39,8 @@ func NewSobolSequence() *SobolSequence {
 // See Press et al. 2007.
 func (seq *SobolSequence) Init() {
 	for i := range seq.ix { seq.ix[i] = 0 }
-	if seq.isInit { return }
 	seq.seqNum = 0
+	if seq.isInit { return }
 
 	seq.iv = initIv
 	seq.ip = initIp
-- 
2.43.0


From daf7b8cbd9a93a2753e91d1f655b42cd83e08ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 56/90] fix: use the right direction numbers in the Sobol
 recurrence

---
 math/rand/sobol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 05f9b73..20a9b66 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -58,7 +58,7 @@ func (seq *SobolSequence) Init() {
 			i ^= (i >> deg)
 
 			for l := deg - 1; l >= 1; l-- {
-				if 1 & ipp == 1 { i ^= seq.iv[MaxDim * (j - 1) + k] }
+				if 1 & ipp == 1 { i ^= seq.iv[MaxDim * (j - l) + k] }
 				ipp >>= 1
 			}
 
-- 
2.43.0


From 8c4198bbc6c5b515214b7f8061ffbf8d6d1a281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 57/90] fix: start Sobol sequences at their first point

---
 math/rand/sobol.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 20a9b66..72c5945 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -81,18 +81,17 @@ func (seq *SobolSequence) NextAt(target []float64) {
 	dim := uint32(len(target))
 	if dim > MaxDim {
 		log.Fatalf("Target dim %d is larger than MaxDim %d.\n", dim, MaxDim)
-	} else if seq.seqNum >= maxSeqNum {
+	} else if seq.seqNum >= maxSeqNum - 1 {
 		log.Fatalf("Exceeded maximum seq num of %d for MaxBit %d.\n",
 			maxSeqNum, MaxBit,
 		)
 	}
 
-	seq.seqNum++
-
 	zeroIdx := uint32(0)
 	for zeroIdx = 0; zeroIdx < MaxBit; zeroIdx++ {
 		if (seq.seqNum & (1<<zeroIdx)) == 0 { break }
 	}
+	seq.seqNum++
 
 	im := zeroIdx * MaxDim
 	for k := uint32(0); k < dim; k++ {
-- 
2.43.0


From 103b7b0abcfbd960f3aa9f3b22e4418951bee27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 58/90] fix: return the middle element from Median for odd
 lengths

---
 math/sort/median.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/sort/median.go b/math/sort/median.go
index c6c0d45..3a9634a 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -18,7 +18,7 @@ func Median(xs []float64, buf ...[]float64) float64 {
 		panic("xs empty in call to Median(xs)")
 	}
 
-	return NthLargest(xs, len(xs) / 2, buf...)
+	return NthLargest(xs, len(xs) - len(xs) / 2, buf...)
 }
 
 // Remember that this function is 1-indexed.
-- 
2.43.0


From 6b5896df64c67d6fedd995aa5b10530cd034dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 59/90] fix: count percentiles up from the smallest element

---
 math/sort/median.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/math/sort/median.go b/math/sort/median.go
index 3a9634a..abe3b72 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -3,14 +3,15 @@ package sort
 func Percentile(xs []float64, p float64, buf ...[]float64) float64 {
 	if len(xs) == 0 {
 		panic("xs empty in call to Precentile(xs, ps)")
-	} else if p > 1 || p < 0 {
+	} else if !(p >= 0 && p <= 1) {
 		panic("percentile must be in the range [0, 1]")
 	}
 
 	n := int(p * float64(len(xs)))
 	if n == len(xs) { n-- }
 
-	return NthLargest(xs, n, buf...)
+	// NthLargest counts down from the largest element and is 1-indexed.
+	return NthLargest(xs, len(xs) - n, buf...)
 }
 
 func Median(xs []float64, buf ...[]float64) float64 {
-- 
2.43.0


From 46d6998499d9bfed0e782f0663d1fc2e77e83ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 60/90] fix: refuse order statistics that are out of range

---
 math/sort/median.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/math/sort/median.go b/math/sort/median.go
index abe3b72..d9c3909 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -26,6 +26,8 @@ func Median(xs []float64, buf ...[]float64) float64 {
 func NthLargest(xs []float64, n int, buf ...[]float64) float64 {
 	if len(xs) == 0 {
 		panic("xs empty in call to NthHighest(xs, ns)")
+	} else if n < 1 || n > len(xs) {
+		panic("n in NthLargest(xs, n) too large or too small")
 	}
 
 	var medSlice []float64
-- 
2.43.0


From 2e6e57397f9bbfc398d53090ec0b47ca384dcde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 61/90] fix: allow linear interpolation of decreasing tables

---
 math/interpolate/search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/math/interpolate/search.go b/math/interpolate/search.go
index a417fe9..bd9f0b2 100644
--- a/math/interpolate/search.go
+++ b/math/interpolate/search.go
@@ -33,7 +33,9 @@ func (s *searcher) unifInit(x0, dx float64, n int) {
 
 
 func (s *searcher) search(x float64) int {
-	if x > s.lim || x < s.x0 {
+	lo, hi := s.x0, s.lim
+	if !s.incr { lo, hi = hi, lo }
+	if x > hi || x < lo {
 		panic(fmt.Sprintf(
 			"Value %g out of range bounds [%g, %g]", x, s.x0, s.lim,
 		))
-- 
2.43.0


From 488bb23f20cca434730d4034737c6411318e57ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 62/90] fix: look up z coordinates in the z table of TriLinear

---
 math/interpolate/linear_interpolators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/interpolate/linear_interpolators.go b/math/interpolate/linear_interpolators.go
index 5b24db6..f059edd 100644
--- a/math/interpolate/linear_interpolators.go
+++ b/math/interpolate/linear_interpolators.go
@@ -282,7 +282,7 @@ func NewUniformTriLinear(
 func (tri *TriLinear) Eval(x, y, z float64) float64 {
 	ix := tri.xs.search(x)
 	iy := tri.ys.search(y)
-	iz := tri.ys.search(z)
+	iz := tri.zs.search(z)
 
 	dix, diy, diz := 1, tri.nx, tri.nx*tri.ny
 	i := ix + iy*tri.nx + iz*tri.ny*tri.nx
@@ -298,7 +298,7 @@ func (tri *TriLinear) Eval(x, y, z float64) float64 {
 	
 	x1, x2 := tri.xs.val(ix), tri.xs.val(ix + 1)
 	y1, y2 := tri.ys.val(iy), tri.ys.val(iy + 1)
-	z1, z2 := tri.ys.val(iz), tri.ys.val(iz + 1)
+	z1, z2 := tri.zs.val(iz), tri.zs.val(iz + 1)
 	
 	xd := (x - x1) / (x2 - x1)
 	yd := (y - y1) / (y2 - y1)
-- 
2.43.0


From 6536788ada321fda000f475dc809ae485ca5a8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 63/90] fix: allow splines through two points

---
 math/interpolate/spline.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 5f84666..988aa5b 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -215,7 +215,8 @@ func (sp *Spline) calcY2s() {
 			((ys[j] - ys[j-1]) / (xs[j] - xs[j-1]))
 	}
 
-	TriDiagAt(as, bs, cs, rs, sp.y2s[1: n-1])
+	// There is nothing to solve for a single line segment.
+	if n > 2 { TriDiagAt(as, bs, cs, rs, sp.y2s[1: n-1]) }
 }
 
 func (sp *Spline) calcCoeffs() {
-- 
2.43.0


From 12c0a989bb08300f6965eb410ac6cff208160226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 64/90] fix: include the end points of decreasing splines in
 Deriv and Integrate

---
 math/interpolate/spline.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 988aa5b..7a64c11 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -109,7 +109,7 @@ func (sp *Spline) EvalAll(xs []float64, out ...[]float64) []float64 {
 //
 // x must be within the range of x values given to NewSpline().
 func (sp *Spline) Deriv(x float64, order int) float64 {
-	if x < sp.xs[0] == sp.incr || x > sp.xs[len(sp.xs)-1] == sp.incr {
+	if !sp.inRange(x) {
 		panic(fmt.Sprintf("Point %g given to Spline.Differentiate() " + 
 			"out of bounds.", x))
 	}
@@ -131,13 +131,21 @@ func (sp *Spline) Deriv(x float64, order int) float64 {
 	}
 }
 
+// inRange returns true if x is within the range of x values in the table,
+// including both ends.
+func (sp *Spline) inRange(x float64) bool {
+	lo, hi := sp.xs[0], sp.xs[len(sp.xs)-1]
+	if !sp.incr { lo, hi = hi, lo }
+	return x >= lo && x <= hi
+}
+
 // Integrate integrates the spline from lo to hi.
 func (sp *Spline) Integrate(lo, hi float64) float64 {
 	if lo > hi { return -sp.Integrate(hi, lo) }
-	if lo < sp.xs[0] == sp.incr || lo > sp.xs[len(sp.xs)-1] == sp.incr {
+	if !sp.inRange(lo) {
 		panic(fmt.Sprintf("Low bound %g in Spline.Integrate() " + 
 			"out of bounds.", lo))
-	} else if hi < sp.xs[0] == sp.incr || hi > sp.xs[len(sp.xs)-1] == sp.incr {
+	} else if !sp.inRange(hi) {
 		panic(fmt.Sprintf("High bound %g in Spline.Integrate() " + 
 			"out of bounds.", hi))
 	}
-- 
2.43.0


From 6869bda0afd3cfa93efb3854985e89bac4a4ef26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 65/90] fix: integrate splines between points off their knots
 and in decreasing tables

---
 math/interpolate/spline.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 7a64c11..a09dadf 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -150,22 +150,34 @@ func (sp *Spline) Integrate(lo, hi float64) float64 {
 			"out of bounds.", hi))
 	}
 
-	iLo, iHi := sp.bsearch(lo), sp.bsearch(hi)
-	if iLo == iHi {
-		return integTerm(&sp.coeffs[iLo], lo, hi)
-	}
-	sum := integTerm(&sp.coeffs[iLo], lo, sp.xs[iLo+1]) +
-		integTerm(&sp.coeffs[iHi], sp.xs[iHi], hi)
+	// Integrate in the direction of the table.
+	if sp.incr { return sp.integrate(lo, hi) }
+	return -sp.integrate(hi, lo)
+}
+
+// integrate integrates the spline from x1 to x2, where x1 does not come after
+// x2 in the table.
+func (sp *Spline) integrate(x1, x2 float64) float64 {
+	i1, i2 := sp.bsearch(x1), sp.bsearch(x2)
+	if i1 == i2 { return sp.integTerm(i1, x1, x2) }
 
-	for i := iLo + 1; i < iHi; i++ {
-		sum += integTerm(&sp.coeffs[i], sp.xs[i], sp.xs[i + 1])
+	sum := sp.integTerm(i1, x1, sp.xs[i1+1]) + sp.integTerm(i2, sp.xs[i2], x2)
+	for i := i1 + 1; i < i2; i++ {
+		sum += sp.integTerm(i, sp.xs[i], sp.xs[i+1])
 	}
 	return sum
 }
 
-func integTerm(coeff *splineCoeff, lo, hi float64) float64 {
+// integTerm integrates the i-th segment of the spline from x1 to x2.
+func (sp *Spline) integTerm(i int, x1, x2 float64) float64 {
+	coeff := &sp.coeffs[i]
+	dx1, dx2 := x1 - sp.xs[i], x2 - sp.xs[i]
+	return coeff.integral(dx2) - coeff.integral(dx1)
+}
+
+// integral integrates a segment up to a distance of dx from its first point.
+func (coeff *splineCoeff) integral(dx float64) float64 {
 	a, b, c, d := coeff.a, coeff.b, coeff.c, coeff.d
-	dx := hi - lo
 	return a*dx*dx*dx*dx/4 + b*dx*dx*dx/3 + c*dx*dx/2 + d*dx
 }
 
-- 
2.43.0


From e35f484b393cb7d827e84cbebeae35d18faf02a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 66/90] fix: do not evaluate cubic interpolators with
 out-of-range points refused before

---
 math/interpolate/cubic_interpolators.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/math/interpolate/cubic_interpolators.go b/math/interpolate/cubic_interpolators.go
index 6a81d48..e7b03cd 100644
--- a/math/interpolate/cubic_interpolators.go
+++ b/math/interpolate/cubic_interpolators.go
@@ -2,6 +2,7 @@ package interpolate
 
 import (
 	"fmt"
+	"math"
 )
 
 ////////////////////////////
@@ -87,12 +88,13 @@ func (bi *BiCubic) initSplines() {
 
 func (bi *BiCubic) Eval(x, y float64) float64 {
 	if y != bi.lastY {
-		bi.lastY = y
 		for i := range bi.xSplineVals {
 			bi.xSplineVals[i] = bi.ySplines[i].Eval(y)
 		}
 
 		bi.xSpline.Init(bi.xs, bi.xSplineVals)
+		// Only set once y is known to be in range.
+		bi.lastY = y
 	}
 
 	return bi.xSpline.Eval(x)
@@ -239,27 +241,28 @@ func (tri *TriCubic) initSplines() {
 func (tri *TriCubic) Eval(x, y, z float64) float64 {
 	if y != tri.lastY || z != tri.lastZ {
 		if z != tri.lastZ {
-			tri.lastZ = z
-			
 			tri.ySplineVals = make([][]float64, len(tri.xs))
 			for xi := range tri.xs {
 				tri.ySplineVals[xi] = make([]float64, len(tri.ys))
 				for yi := range tri.ys {
 					tri.ySplineVals[xi][yi] =
-						tri.zSplines[yi*tri.nx + xi].Eval(tri.lastZ)
+						tri.zSplines[yi*tri.nx + xi].Eval(z)
 				}
 				tri.ySplines[xi].Init(tri.ys, tri.ySplineVals[xi])
 			}			
+
+			// Only set once z is known to be in range. The x spline is out of
+			// date until y has been evaluated.
+			tri.lastZ, tri.lastY = z, math.NaN()
 		}
 
-		tri.lastY = y
-		
 		tri.xSplineVals = make([]float64, len(tri.xs))
 		for xi := range tri.xSplineVals {
-			tri.xSplineVals[xi] = tri.ySplines[xi].Eval(tri.lastY)
+			tri.xSplineVals[xi] = tri.ySplines[xi].Eval(y)
 		}
 		
 		tri.xSpline.Init(tri.xs, tri.xSplineVals)
+		tri.lastY = y
 	}
 
 	return tri.xSpline.Eval(x)
-- 
2.43.0


From b98b5f9ae5f93dbf14e1cbcfb442c46fdb6a2298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 67/90] fix: multiply non-square matrices into the right
 elements

The output of Mult was indexed with the width of the left operand, and
MultAt accepted outputs of any shape.
---
 math/mat/mat.go   | 6 ++++--
 math/mat/mat32.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index fd1dcf3..0e5c591 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -60,13 +60,15 @@ func (m1 *Matrix) Mult(m2 *Matrix) *Matrix {
 func (m1 *Matrix) MultAt(m2, out *Matrix) *Matrix {
 	if m1.Width != m2.Height {
 		panic("Multiplication of incompatible matrix sizes.")
+	} else if out.Height != m1.Height || out.Width != m2.Width {
+		panic("Output matrix has the wrong size for this multiplication.")
 	}
 
 	for i := range out.Vals { out.Vals[i] = 0 }
 	for i := 0; i < m1.Height; i++ {
-		off := i*m1.Width
+		off, outOff := i*m1.Width, i*m2.Width
 		for j := 0; j < m2.Width; j++ {
-			outIdx := off + j
+			outIdx := outOff + j
 			for k := 0; k < m1.Width; k++ {
 				m1Idx := off + k
 				m2Idx := k*m2.Width + j
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 2532a08..355089d 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -53,13 +53,15 @@ func (m1 *Matrix32) Mult(m2 *Matrix32) *Matrix32 {
 func (m1 *Matrix32) MultAt(m2, out *Matrix32) *Matrix32 {
 	if m1.Width != m2.Height {
 		panic("Multiplication of incompatible matrix sizes.")
+	} else if out.Height != m1.Height || out.Width != m2.Width {
+		panic("Output matrix has the wrong size for this multiplication.")
 	}
 
 	for i := range out.Vals { out.Vals[i] = 0 }
 	for i := 0; i < m1.Height; i++ {
-		off := i*m1.Width
+		off, outOff := i*m1.Width, i*m2.Width
 		for j := 0; j < m2.Width; j++ {
-			outIdx := off + j
+			outIdx := outOff + j
 			for k := 0; k < m1.Width; k++ {
 				m1Idx := off + k
 				m2Idx := k*m2.Width + j
-- 
2.43.0


From 773184c7189077c9a43483d4eb1d72483cd0d202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 68/90] fix: refuse to transpose a matrix into one of a
 different shape

---
 math/mat/mat.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index 0e5c591..1179023 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -119,6 +119,9 @@ func (m *Matrix) Transpose() *Matrix {
 }
 
 func (m *Matrix) TransposeAt(out *Matrix) {
+	if out.Width != m.Height || out.Height != m.Width {
+		panic("Output matrix has the wrong size for this transpose.")
+	}
 	recTranspose(m.Vals, out.Vals, m.Width, m.Height,
 		0, 0, m.Width, m.Height, 0, 0)
 }
-- 
2.43.0


From 32fb11147980edb32ab45a60d326e5261a79fffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 69/90] fix: apply the row exchanges of LU decompositions in
 order when solving

A list of exchanges is not a permutation, so systems which needed more
than one exchange were solved for a scrambled right hand side.
---
 math/mat/mat.go   | 15 +++++++--------
 math/mat/mat32.go | 15 +++++++--------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index 1179023..a29572c 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -286,24 +286,23 @@ func (luf *LUFactors) SolveVector(bs, xs []float64) []float64 {
 
 	// A x = b -> (L U) x = b -> L (U x) = b -> L y = b
 	ys := xs
-	if &bs[0] == &ys[0] {
-		bs = make([]float64, n)
-		copy(bs, ys)
-	}
+	copy(ys, bs)
 
 	// Solve L * y = b for y.
-	forwardSubst(n, luf.pivot, luf.lu.Vals, bs, ys)
+	forwardSubst(n, luf.pivot, luf.lu.Vals, ys)
 	// Solve U * x = y for x.
 	backSubst(n, luf.lu.Vals, ys, xs)
 
 	return xs
 }
 
-// Solves L * y = b for y.
+// Solves L * y = b for y. ys contains b on entry and is overwritten with y.
+// pivot holds the row exchanges of the decomposition in the order in which
+// they were made.
 // y_i = (b_i - sum_j=0^i-1 (alpha_ij y_j)) / alpha_ij
-func forwardSubst(n int, pivot []int, lu, bs, ys []float64) {
+func forwardSubst(n int, pivot []int, lu, ys []float64) {
 	for i := 0; i < n; i++ {
-		ys[pivot[i]] = bs[i]
+		ys[i], ys[pivot[i]] = ys[pivot[i]], ys[i]
 	}
 	for i := 0; i < n; i++ {
 		sum := 0.0
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 355089d..b073618 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -187,24 +187,23 @@ func (luf *LUFactors32) SolveVector(bs, xs []float32) []float32 {
 
 	// A x = b -> (L U) x = b -> L (U x) = b -> L y = b
 	ys := xs
-	if &bs[0] == &ys[0] {
-		bs = make([]float32, n)
-		copy(bs, ys)
-	}
+	copy(ys, bs)
 
 	// Solve L * y = b for y.
-	forwardSubst32(n, luf.pivot, luf.lu.Vals, bs, ys)
+	forwardSubst32(n, luf.pivot, luf.lu.Vals, ys)
 	// Solve U * x = y for x.
 	backSubst32(n, luf.lu.Vals, ys, xs)
 
 	return xs
 }
 
-// Solves L * y = b for y.
+// Solves L * y = b for y. ys contains b on entry and is overwritten with y.
+// pivot holds the row exchanges of the decomposition in the order in which
+// they were made.
 // y_i = (b_i - sum_j=0^i-1 (alpha_ij y_j)) / alpha_ij
-func forwardSubst32(n int, pivot []int, lu, bs, ys []float32) {
+func forwardSubst32(n int, pivot []int, lu, ys []float32) {
 	for i := 0; i < n; i++ {
-		ys[pivot[i]] = bs[i]
+		ys[i], ys[pivot[i]] = ys[pivot[i]], ys[i]
 	}
 	for i := 0; i < n; i++ {
 		sum := float32(0.0)
-- 
2.43.0


From d39d1af5cf68db1a8f90ff3df32d97abad20c024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 70/90] fix: use the right hand side given to SolveMatrix

---
 math/mat/mat.go   | 4 ++--
 math/mat/mat32.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index a29572c..7bf2364 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -329,7 +329,7 @@ func backSubst(n int, lu, ys, xs []float64) {
 // 
 // x and b may point to the same physical memory.
 func (luf *LUFactors) SolveMatrix(b, x *Matrix) *Matrix {
-	xs := x.Vals
+	bs, xs := b.Vals, x.Vals
 	n := luf.lu.Width
 
 	if b.Width != b.Height {
@@ -346,7 +346,7 @@ func (luf *LUFactors) SolveMatrix(b, x *Matrix) *Matrix {
 
 	for j := 0; j < n; j++ {
 		for i := 0; i < n; i++ {
-			col[i] = xs[i*n + j]
+			col[i] = bs[i*n + j]
 		}
 		luf.SolveVector(col, col)
 		for i := 0; i < n; i++ {
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index b073618..d0121b1 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -230,7 +230,7 @@ func backSubst32(n int, lu, ys, xs []float32) {
 // 
 // x and b may point to the same physical memory.
 func (luf *LUFactors32) SolveMatrix(b, x *Matrix32) *Matrix32 {
-	xs := x.Vals
+	bs, xs := b.Vals, x.Vals
 	n := luf.lu.Width
 
 	if b.Width != b.Height {
@@ -247,7 +247,7 @@ func (luf *LUFactors32) SolveMatrix(b, x *Matrix32) *Matrix32 {
 
 	for j := 0; j < n; j++ {
 		for i := 0; i < n; i++ {
-			col[i] = xs[i*n + j]
+			col[i] = bs[i*n + j]
 		}
 		luf.SolveVector(col, col)
 		for i := 0; i < n; i++ {
-- 
2.43.0


From a4c985fe5939e7bf1ddbf347890a90a8050915b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 71/90] fix: do not exchange finished rows when a pivot column
 is zero

Determinants of singular matrices were those of a scrambled matrix.
---
 math/mat/mat.go   | 2 +-
 math/mat/mat32.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index 7bf2364..72e5a08 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -243,9 +243,9 @@ func (lu *LUFactors) factorizeInPlace() {
 		vv[i] = 1 / big
 	}
 
-	var imax int
 	for k := 0; k < n; k++ {
 		big := 0.0
+		imax := k
 		for i := k; i < n; i++ {
 			tmp := vv[i] * math.Abs(m.Vals[i*n + k])
 			if tmp > big {
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index d0121b1..890e684 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -144,9 +144,9 @@ func (lu *LUFactors32) factorizeInPlace() {
 		vv[i] = 1 / big
 	}
 
-	var imax int
 	for k := 0; k < n; k++ {
 		big := float32(0.0)
+		imax := k
 		for i := k; i < n; i++ {
 			tmp := vv[i] * float32(math.Abs(float64(m.Vals[i*n + k])))
 			if tmp > big {
-- 
2.43.0


From 52c34ba3075ec92786d38e4c8d414cbde873a6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 72/90] fix: wrap the left edge of periodic convolutions around
 the whole data set

The last point was skipped.
---
 math/interpolate/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index f4ae577..44e6c69 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -94,7 +94,7 @@ func (k *Kernel) ConvolveAt(xs []float64, b BoundaryCondition, out []float64) {
 			idx := i + j - k.center
 			if idx < 0 {
 				switch b {
-				case Periodic: x = xs[(n - 1) + idx]
+				case Periodic: x = xs[n + idx]
 				case Reflection: x = xs[-(idx - 1)]
 				case ZeroPad: x = 0
 				case Extension: x = xs[0]
-- 
2.43.0


From ce97fd740d5ab315220a7bc0d2b3c3b98bac4b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 73/90] fix: reflect the left edge of convolutions like the
 right one

The point next to the edge was skipped.
---
 math/interpolate/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index 44e6c69..e0e9cc3 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -95,7 +95,7 @@ func (k *Kernel) ConvolveAt(xs []float64, b BoundaryCondition, out []float64) {
 			if idx < 0 {
 				switch b {
 				case Periodic: x = xs[n + idx]
-				case Reflection: x = xs[-(idx - 1)]
+				case Reflection: x = xs[-idx]
 				case ZeroPad: x = 0
 				case Extension: x = xs[0]
 				}
-- 
2.43.0


From 99511d779322d98217cc18731e5c94714eedbd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 74/90] fix: extend data in BoundaryCondition.Get as
 convolutions do

Periodic data skipped their last point and reflection ran out of range at
the right end.
---
 math/interpolate/filter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index e0e9cc3..85beb2d 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -33,8 +33,8 @@ func (b BoundaryCondition) Get(xs []float64, i int) float64 {
 	switch {
 	case i < 0:
 		switch b {
-		case Periodic: return xs[len(xs) - 1 + i]
-		case Reflection: return xs[-(i + 1)]
+		case Periodic: return xs[len(xs) + i]
+		case Reflection: return xs[-i]
 		case ZeroPad: return 0
 		case Extension: return xs[0]
 		}
@@ -42,7 +42,7 @@ func (b BoundaryCondition) Get(xs []float64, i int) float64 {
 	case i >= len(xs):
 		switch b {
 		case Periodic: return xs[i - len(xs)]
-		case Reflection: return xs [(len(xs)-1) - (i - len(xs)-1)]
+		case Reflection: return xs[2*(len(xs) - 1) - i]
 		case ZeroPad: return 0
 		case Extension: return xs[len(xs) - 1]
 		}
-- 
2.43.0


From c0f1156b6e952740549989b3c43285bd619d73f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 75/90] fix: divide fourth order derivatives by the width of
 their stencil

Derivatives away from the ends were a third too large.
---
 math/calc/deriv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/calc/deriv.go b/math/calc/deriv.go
index 31d4adc..ad9dae1 100644
--- a/math/calc/deriv.go
+++ b/math/calc/deriv.go
@@ -44,7 +44,7 @@ func Deriv(xs, ys []float64, order int, opts ...DerivOption) []float64 {
 	} else if order == 4 {
 		for i := 2; i < n - 2; i++ {
 			out[i] = (-ys[i+2] + 8*ys[i+1] - 8*ys[i-1] + ys[i-2]) /
-				(3*(xs[i+2] - xs[i-1]))
+				(3*(xs[i+2] - xs[i-2]))
 		}
 
 		out[0] = ((-3*ys[4] + 16*ys[3] - 36*ys[2] + 48*ys[1] -
-- 
2.43.0


From 84b92f9c870c930fc132c80674545c8c6c49ce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 76/90] fix: refuse derivatives of order 0

The supported orders are 2 and 4; order 0 returned the abscissae.
---
 math/calc/deriv.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/math/calc/deriv.go b/math/calc/deriv.go
index ad9dae1..cf2eee0 100644
--- a/math/calc/deriv.go
+++ b/math/calc/deriv.go
@@ -33,9 +33,7 @@ func Deriv(xs, ys []float64, order int, opts ...DerivOption) []float64 {
 		panic("Length of out and xs are not the same.")
 	}
 
-	if order == 0 {
-		for i := range xs { out[i] = xs[i] }
-	} else if order == 2 {
+	if order == 2 {
 		for i := 1; i < n - 1; i++ {
 			out[i] = (ys[i+1] - ys[i-1]) / (xs[i+1] - xs[i-1])
 		}
-- 
2.43.0


From 3c64ce02e36ba16a7e3b78aa439f5c89c9102c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 77/90] fix: insert halos at the upper edge of the box into
 halo grids

They were put into the next row of cells or out of range.
---
 render/halo/grid.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/render/halo/grid.go b/render/halo/grid.go
index 5415716..c72d78f 100644
--- a/render/halo/grid.go
+++ b/render/halo/grid.go
@@ -41,24 +41,24 @@ func (g *Grid) Length(idx int) int {
 func (g *Grid) Insert(xs, ys, zs []float64) {
 	for i := range xs {
 		x, y, z := xs[i], ys[i], zs[i]
-		if x > g.Width {
+		if x >= g.Width {
 			x -= g.Width
 		} else if x < 0 {
 			x += g.Width
 		}
-		if y > g.Width {
+		if y >= g.Width {
 			y -= g.Width
 		} else if y < 0 {
 			y += g.Width
 		}
-		if z > g.Width {
+		if z >= g.Width {
 			z -= g.Width
 		} else if z < 0 {
 			z += g.Width
 		}
 				
 
-		ix, iy, iz := int(x/g.cw), int(y/g.cw), int(z/g.cw)
+		ix, iy, iz := g.cell(x), g.cell(y), g.cell(z)
 		idx := ix + iy * g.Cells + iz * g.Cells * g.Cells
 
 		g.Next[i] = g.Heads[idx]
@@ -66,6 +66,14 @@ func (g *Grid) Insert(xs, ys, zs []float64) {
 	}
 }
 
+// cell returns the index of the cell containing x along one dimension. x / g.cw
+// may round up to the edge of the box.
+func (g *Grid) cell(x float64) int {
+	i := int(x / g.cw)
+	if i >= g.Cells { i = g.Cells - 1 }
+	return i
+}
+
 func (g *Grid) TotalCells() int {
 	return len(g.Heads)
 }
-- 
2.43.0


From 93103674b12455d2530710a1474517ec6bc764c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 78/90] fix: bound spheres which reach around the periodic box

Spheres could contain a cell twice, reporting its halos twice, and those
wider than the box were bounded by a part of it.
---
 render/halo/finder.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index ff98df4..0d8c20c 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -1,6 +1,7 @@
 package halo
 
 import (
+	"math"
 	"sort"
 )
 
@@ -19,13 +20,15 @@ type Bounds struct {
 // SphereBounds creates a cell-aligned bounding box around a non-aligned
 // sphere within a box with periodic boundary conditions.
 func (b *Bounds) SphereBounds(pos [3]float64, r, cw, width float64) {
+	cells := int(width / cw + 0.5)
 	for i := 0; i < 3; i++ {
 		min, max := pos[i] - r, pos[i] + r
-		if min < 0 { min += width }
-		if min > max { max +=  width }
+		shift := width * math.Floor(min / width)
+		min, max = min - shift, max - shift
 		minCell, maxCell := int(min / cw), int(max / cw)
 		b.Origin[i] = minCell
 		b.Span[i] = maxCell - minCell + 1
+		if b.Span[i] > cells { b.Span[i] = cells }
 	}
 }
 
-- 
2.43.0


From b2127af81fa2dab3801e1b53129bbecead2ea8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 79/90] fix: convert indices beyond the box which Bounds.Inside
 accepts

---
 render/halo/finder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index 0d8c20c..d653260 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -35,11 +35,11 @@ func (b *Bounds) SphereBounds(pos [3]float64, r, cw, width float64) {
 // ConvertIndices converts non-periodic indices to periodic indices.
 func (b *Bounds) ConvertIndices(x, y, z, width int) (bx, by, bz int) {
 	bx = x - b.Origin[0]
-	if bx < 0 { bx += width }
+	if bx < 0 { bx += width } else if bx >= width { bx -= width }
 	by = y - b.Origin[1]
-	if by < 0 { by += width }
+	if by < 0 { by += width } else if by >= width { by -= width }
 	bz = z - b.Origin[2]
-	if bz < 0 { bz += width }
+	if bz < 0 { bz += width } else if bz >= width { bz -= width }
 	return bx, by, bz
 }
 
-- 
2.43.0


From 469535b256a109f87441463d7692d8bd19539223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 80/90] fix: find halos which overlap across the edges of the
 periodic box

---
 render/halo/finder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index d653260..63a02fb 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -221,13 +221,19 @@ func (sf *SubhaloFinder) markSubhalos(
 	for _, j := range idxs {
 		if j <= ih { continue }
 		sx, sy, sz, sr := xs[j], ys[j], zs[j], rs[j]
-		dx, dy, dz, dr := hx - sx, hy - sy, hz - sz, hr + sr
+		dx, dy, dz, dr := sf.dist(hx, sx), sf.dist(hy, sy), sf.dist(hz, sz), hr + sr
 		if dr*dr >= dx*dx + dy*dy + dz*dz {
 			sf.subhalos = append(sf.subhalos, j)
 		}
 	}
 }
 
+// dist returns the distance between two coordinates in the periodic box.
+func (sf *SubhaloFinder) dist(x1, x2 float64) float64 {
+	d := x1 - x2
+	return d - sf.g.Width * math.Floor(d / sf.g.Width + 0.5)
+}
+
 func cumulativeMax(xs []float64) []float64 {
 	ms := make([]float64, len(xs))
 	max := xs[len(xs) - 1]
-- 
2.43.0


From 9532673ca0aeceb0e6d3fa329ed5572dee704c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 81/90] fix: leave the radii given to FindSubhalos as they are

Multiplying and dividing them again changed their last digits, and lost
them for a multiplier of zero.
---
 render/halo/finder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index 63a02fb..9fd7690 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -76,7 +76,9 @@ func (sf *SubhaloFinder) FindSubhalos(
 	c := sf.g.Cells
 	
 	buf := make([]int, 0, sf.g.MaxLength())
-	for i := range rs { rs[i] *= mult }
+	unscaled := rs
+	rs = make([]float64, len(unscaled))
+	for i := range rs { rs[i] = unscaled[i] * mult }
 	cMax := cumulativeMax(rs)
 
 	vol := 0.0
@@ -110,7 +112,6 @@ func (sf *SubhaloFinder) FindSubhalos(
 	}
 
 	sf.crossMatch()
-	for i := range rs { rs[i] /= mult }
 }
 
 func (sf *SubhaloFinder) StartEnd(ih int) (start, end int) {
-- 
2.43.0


From 74281a6f3f904a4130cd5a8e1c68dc4c8077f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 82/90] fix: forget earlier results when FindSubhalos is called
 again

---
 render/halo/finder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index 9fd7690..e48ffc6 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -74,6 +74,7 @@ func (sf *SubhaloFinder) FindSubhalos(
 	b := &Bounds{}
 	pos := [3]float64{}
 	c := sf.g.Cells
+	sf.subhalos = make([]int, 0, cap(sf.subhalos))
 	
 	buf := make([]int, 0, sf.g.MaxLength())
 	unscaled := rs
-- 
2.43.0


From 0804c2cdfc7138234fdeb309cfd24f3cc14889bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 83/90] fix: find the subhalos of empty halo collections

---
 render/halo/finder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index e48ffc6..2c3decc 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -238,7 +238,7 @@ func (sf *SubhaloFinder) dist(x1, x2 float64) float64 {
 
 func cumulativeMax(xs []float64) []float64 {
 	ms := make([]float64, len(xs))
-	max := xs[len(xs) - 1]
+	max := math.Inf(-1)
 	for i := len(xs) - 1; i >= 0; i-- {
 		x := xs[i]
 		if x > max { max = x }
-- 
2.43.0


From 0d0869d5ab6051b04bc8a561a03af3caa9d00713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 84/90] fix: report example configurations that cannot be
 printed

---
 render/main/main.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 451b950..9ed2ea4 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -205,15 +205,15 @@ func main() {
 	case "ExampleConfig":
 		switch exampleConfig {
 		case "ConvertSnapshot":
-			fmt.Println(io.ExampleConvertSnapshotFile)
+			_, err = fmt.Println(io.ExampleConvertSnapshotFile)
 		case "Render":
-			fmt.Println(io.ExampleRenderFile)
+			_, err = fmt.Println(io.ExampleRenderFile)
 		case "TetraHist":
-			fmt.Println(io.ExampleTetraHistFile)
+			_, err = fmt.Println(io.ExampleTetraHistFile)
 		case "Box":
-			fmt.Println(io.ExampleBoxFile)
+			_, err = fmt.Println(io.ExampleBoxFile)
 		case "Ball":
-			fmt.Println(io.ExampleBallFile)
+			_, err = fmt.Println(io.ExampleBallFile)
 		default:
 			log.Fatal(
 				"Unrecognized 'ExampleConfig' argument. Only recognized " +
@@ -221,6 +221,7 @@ func main() {
 					"and 'ConvertSnapshot'.",
 			)
 		}
+		if err != nil { log.Fatal(err.Error()) }
 	default:
 		panic("Impossible")
 	}
-- 
2.43.0


From 2e1143093a2db68abea28ebb9dee130a80020e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 85/90] fix: report TetraHist histograms that cannot be written

---
 render/main/main.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 9ed2ea4..cb79f63 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -1,5 +1,6 @@
 package main
 import (
+	"bytes"
 	"flag"
 	"fmt"
 	"path"
@@ -868,13 +869,17 @@ func tetraHistMain(con *io.TetraHistConfig, bounds []string) {
 		defer f.Close()
 		if err != nil { log.Fatalf("Could not create %s.", out) }
 		
-		fmt.Fprintf(f, "# %s histogram ranging from %g to %g " +
+		txt := new(bytes.Buffer)
+		fmt.Fprintf(txt, "# %s histogram ranging from %g to %g " +
 			"# with %d bins (%s scaled).\n", con.Quantity, con.HistMin,
 			con.HistMax, con.HistBins, strings.ToLower(con.HistScale))
-		fmt.Fprintf(f, "# Column 0 - bin centers.\n")
-		fmt.Fprintf(f, "# Column 1 - bin counts.\n")
+		fmt.Fprintf(txt, "# Column 0 - bin centers.\n")
+		fmt.Fprintf(txt, "# Column 1 - bin counts.\n")
 		for j := range box.Counts {
-			fmt.Fprintf(f, "%8.4g %d\n", box.Centers[j], box.Counts[j])
+			fmt.Fprintf(txt, "%8.4g %d\n", box.Centers[j], box.Counts[j])
+		}
+		if _, err = f.Write(txt.Bytes()); err != nil {
+			log.Fatalf("Could not write %s: %s", out, err.Error())
 		}
 	}	
 }
-- 
2.43.0


From 39fbc9b054dd2b0e1c44fcbed65200341c13bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 86/90] fix: report a failed seek in a sheet file

---
 render/io/io.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index d05b3d0..e9cc5f6 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -331,7 +331,8 @@ func ReadSheetPositionsAt(file string, xsBuf []geom.Vec) error {
 
 	// Go to block 4 in the file.
 	// The file pointer should already be here, but let's just be safe, okay?
-	f.Seek(int64(4 + 4 + int(unsafe.Sizeof(SheetHeader{}))), 0)
+	_, err = f.Seek(int64(4 + 4 + int(unsafe.Sizeof(SheetHeader{}))), 0)
+	if err != nil { return err }
 	if err := readVecAsByte(f, order, xsBuf); err != nil { return err }
 
 	if err := f.Close(); err != nil { return err }
@@ -348,8 +349,9 @@ func ReadSheetVelocitiesAt(file string, vsBuf []geom.Vec) error {
 			"vectors.", len(vsBuf), file, h.GridCount)
 	}
 
-	f.Seek(int64(4 + 4 + int(unsafe.Sizeof(SheetHeader{})) +
+	_, err = f.Seek(int64(4 + 4 + int(unsafe.Sizeof(SheetHeader{})) +
 		3 * 4 * len(vsBuf)), 0)
+	if err != nil { return err }
 	if err := readVecAsByte(f, order, vsBuf); err != nil { return err }
 	if err := f.Close(); err != nil { return err }
 	return nil
-- 
2.43.0


From 41bdb1a054d2430aff5a847b85eccc9c98d43dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 87/90] fix: close sheet files after use

---
 render/io/io.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/render/io/io.go b/render/io/io.go
index e9cc5f6..6edb9b8 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -288,6 +288,8 @@ func readSheetHeaderAt(
 ) (*os.File, binary.ByteOrder, error) {
 	f, err := os.OpenFile(file, os.O_RDONLY, os.ModePerm)
 	if err != nil { return nil, binary.LittleEndian, err }
+	ok := false
+	defer func() { if !ok { f.Close() } }()
 
 	// order doesn't matter for this read, since flags are symmetric.
 	order := endianness(readInt32(f, binary.LittleEndian))
@@ -307,6 +309,7 @@ func readSheetHeaderAt(
 	if err != nil { return nil, binary.LittleEndian, err }
 
 	hdBuf.Count = hdBuf.CountWidth*hdBuf.CountWidth*hdBuf.CountWidth
+	ok = true
 	return f, order, nil
 }
 
@@ -323,6 +326,7 @@ func ReadSheetPositionsAt(file string, xsBuf []geom.Vec) error {
 	h := &SheetHeader{}
 	f, order, err := readSheetHeaderAt(file, h)
 	if err != nil { return err }
+	defer f.Close()
 
 	if h.GridCount != int64(len(xsBuf)) {
 		return fmt.Errorf("Position buffer has length %d, but file %s has %d "+ 
@@ -344,6 +348,7 @@ func ReadSheetVelocitiesAt(file string, vsBuf []geom.Vec) error {
 	h := &SheetHeader{}
 	f, order, err := readSheetHeaderAt(file, h)
 	if err != nil { return err }
+	defer f.Close()
 	if h.GridCount != int64(len(vsBuf)) {
 		return fmt.Errorf("Velocity buffer has length %d, but file %s has %d " + 
 			"vectors.", len(vsBuf), file, h.GridCount)
@@ -372,6 +377,8 @@ func WriteSheet(file string, h *SheetHeader, xs, vs []geom.Vec) {
 	}
 
 	f, err := os.Create(file)
+	if err != nil { log.Fatalf(err.Error()) }
+	defer f.Close()
 	endiannessFlag := int32(0)
 	order := endianness(endiannessFlag)
 
-- 
2.43.0


From 5dd2699cecb1aced620766662921605a7f85704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 88/90] fix: close binary Rockstar catalogs after use

---
 render/halo/io.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/halo/io.go b/render/halo/io.go
index 3765abe..9b671a3 100644
--- a/render/halo/io.go
+++ b/render/halo/io.go
@@ -269,6 +269,7 @@ func asciiColGetter(file string, colIdxs []int) ([][]float64, error) {
 func binaryColGetter(file string, colIdxs []int) ([][]float64, error) {
 	f, err := os.Open(file)
 	if err != nil { return nil, err }
+	defer f.Close()
 
 	n := int64(0)
 	err = binary.Read(f, binary.LittleEndian, &n)
-- 
2.43.0


From 622abea454a3427a39aaca317c9f791ab8ebd67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 89/90] fix: close each grid and histogram once it is written

---
 render/main/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index cb79f63..a4b2bde 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -605,7 +605,6 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 
 		log.Printf("Writing to %s", out)
 		f, err := os.Create(out)
-		defer f.Close()
 		if err != nil { log.Fatalf("Could not create %s.", out) }
 		
 		loc := io.NewLocationInfo(
@@ -628,6 +627,7 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 
 		err = io.WriteBuffer(box.Vals(), cos, renderInfo, loc, f)
 		if err != nil { log.Fatalf("Could not write %s: %s", out, err.Error()) }
+		if err = f.Close(); err != nil { log.Fatal(err.Error()) }
 	}
 }
 
@@ -866,7 +866,6 @@ func tetraHistMain(con *io.TetraHistConfig, bounds []string) {
 
 		log.Printf("Writing to %s", out)
 		f, err := os.Create(out)
-		defer f.Close()
 		if err != nil { log.Fatalf("Could not create %s.", out) }
 		
 		txt := new(bytes.Buffer)
@@ -881,5 +880,6 @@ func tetraHistMain(con *io.TetraHistConfig, bounds []string) {
 		if _, err = f.Write(txt.Bytes()); err != nil {
 			log.Fatalf("Could not write %s: %s", out, err.Error())
 		}
+		if err = f.Close(); err != nil { log.Fatal(err.Error()) }
 	}	
 }
-- 
2.43.0


From d839503e0ab8b7a0b9dfce5e82a8686937f5d4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:12 +0000
Subject: [PATCH 90/90] fix: Curl and Divergence honour Subtract

Only the first component was subtracted from the output, the others were
still added to (or, for Curl, subtracted from) it.
---
 render/geom/deriv.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index e87e328..d700550 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -332,7 +332,11 @@ func (g *GridLocation) Curl(
 	g.Deriv(vecs[0], out[1], 2, op)
 	g.Deriv(vecs[1], out[2], 0, op)
 
-	op.Op = Subtract
+	if op.Op == Subtract {
+		op.Op = Add
+	} else {
+		op.Op = Subtract
+	}
 	g.Deriv(vecs[1], out[0], 2, op)
 	g.Deriv(vecs[2], out[1], 0, op)
 	g.Deriv(vecs[0], out[2], 1, op)
@@ -346,7 +350,7 @@ func (g *GridLocation) Divergence(
 	tmp := *op
 	op = &tmp
 	g.Deriv(vecs[0], out, 0, op)
-	op.Op = Add
+	if op.Op == None { op.Op = Add }
 	g.Deriv(vecs[1], out, 1, op)
 	g.Deriv(vecs[2], out, 2, op)
 }
-- 
2.43.0

