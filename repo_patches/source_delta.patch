From 4e9010b241bb442a4b090405c153764033291315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 01/52] fix: sub-box reads returned one extra voxel layer on
 each axis

---
 binvox/read.go | 2 +-
 vshell/read.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/binvox/read.go b/binvox/read.go
index ae9d2f5..930b8ee 100644
--- a/binvox/read.go
+++ b/binvox/read.go
@@ -152,7 +152,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*BinVOX, error) {
 			if xi >= nx {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
-			if value == 1 && xi >= sx && xi <= sx+cx && yi >= sy && yi <= sy+cy && zi >= sz && zi <= sz+cz {
+			if value == 1 && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
 				voxels[Key{X: xi, Y: yi, Z: zi}] = struct{}{}
 			}
 			yi++
diff --git a/vshell/read.go b/vshell/read.go
index 4a27bb4..1be6883 100644
--- a/vshell/read.go
+++ b/vshell/read.go
@@ -159,7 +159,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 			if xi >= nx {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
-			if value != 0 && value != 0xffffffff && xi >= sx && xi <= sx+cx && yi >= sy && yi <= sy+cy && zi >= sz && zi <= sz+cz {
+			if value != 0 && value != 0xffffffff && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
 				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: NeighborBitMap(value)})
 			}
 			yi++
-- 
2.43.0


From 2f974e24794d61e5ab861fa7d120a07fcf11271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 02/52] fix: readers accepted voxel data outside a grid with an
 empty Y or Z axis

---
 binvox/read.go | 2 +-
 vshell/read.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/binvox/read.go b/binvox/read.go
index 930b8ee..a8e37e9 100644
--- a/binvox/read.go
+++ b/binvox/read.go
@@ -149,7 +149,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*BinVOX, error) {
 		// The y-coordinate runs fastest, then the z-coordinate, then the x-coordinate.
 		// Note that we are only saving the white pixels.
 		for i := 0; i < int(count); i++ {
-			if xi >= nx {
+			if xi >= nx || ny == 0 || nz == 0 {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
 			if value == 1 && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
diff --git a/vshell/read.go b/vshell/read.go
index 1be6883..a651175 100644
--- a/vshell/read.go
+++ b/vshell/read.go
@@ -156,7 +156,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 		// The y-coordinate runs fastest, then the z-coordinate, then the x-coordinate.
 		// Note that we are only saving the white pixels.
 		for i := 0; i < int(count); i++ {
-			if xi >= nx {
+			if xi >= nx || ny == 0 || nz == 0 {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
 			if value != 0 && value != 0xffffffff && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
-- 
2.43.0


From f30376720be1afa17fc46ec8d001ee026e49f46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 03/52] fix: Write ignored errors while writing the file header

---
 binvox/write.go | 8 ++++++--
 vshell/write.go | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/binvox/write.go b/binvox/write.go
index a172bb6..6f6f594 100644
--- a/binvox/write.go
+++ b/binvox/write.go
@@ -39,7 +39,9 @@ data
 
 func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 	if len(b.WhiteVoxels) == 0 {
-		fmt.Fprintf(w, headerFMT, 0, 0, 0, b.TX, b.TY, b.TZ, b.Scale)
+		if _, err := fmt.Fprintf(w, headerFMT, 0, 0, 0, b.TX, b.TY, b.TZ, b.Scale); err != nil {
+			return 0, fmt.Errorf("unable to write header: %v", err)
+		}
 		return 0, nil
 	}
 
@@ -55,7 +57,9 @@ func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 
 	header := fmt.Sprintf(headerFMT, nx, ny, nz, b.TX, b.TY, b.TZ, b.Scale)
 	log.Printf("New header: %v", header)
-	fmt.Fprint(w, header)
+	if _, err := fmt.Fprint(w, header); err != nil {
+		return 0, fmt.Errorf("unable to write header: %v", err)
+	}
 
 	ch := make(chan rle, 100)
 	go b.encode(ch, b.WhiteVoxels, sx, sy, sz, nx, ny, nz)
diff --git a/vshell/write.go b/vshell/write.go
index bcd6556..f6c2eaf 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -38,7 +38,9 @@ data
 
 func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 	if len(vs.Voxels) == 0 {
-		fmt.Fprintf(w, headerFMT, 0, 0, 0, vs.TX, vs.TY, vs.TZ, vs.Scale)
+		if _, err := fmt.Fprintf(w, headerFMT, 0, 0, 0, vs.TX, vs.TY, vs.TZ, vs.Scale); err != nil {
+			return 0, fmt.Errorf("unable to write header: %v", err)
+		}
 		return 0, nil
 	}
 
@@ -60,7 +62,9 @@ func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error)
 
 	header := fmt.Sprintf(headerFMT, nx, ny, nz, vs.TX, vs.TY, vs.TZ, vs.Scale)
 	log.Printf("New header: %v", header)
-	fmt.Fprint(w, header)
+	if _, err := fmt.Fprint(w, header); err != nil {
+		return 0, fmt.Errorf("unable to write header: %v", err)
+	}
 
 	ch := make(chan rle, 100)
 	go vs.encode(ch, lookup, sx, sy, sz, nx, ny, nz)
-- 
2.43.0


From ce37ab91dc6cf3982bcc659b59d253114ddd6ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 04/52] fix: writing a sub-box moved and rescaled its voxels in
 world space

---
 binvox/write.go | 14 +++++++++++++-
 vshell/write.go | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/binvox/write.go b/binvox/write.go
index 6f6f594..fb7dfc4 100644
--- a/binvox/write.go
+++ b/binvox/write.go
@@ -55,7 +55,19 @@ func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 		nz = b.NZ
 	}
 
-	header := fmt.Sprintf(headerFMT, nx, ny, nz, b.TX, b.TY, b.TZ, b.Scale)
+	// Keep the voxels where they are in world space, at their resolution.
+	tx, ty, tz, scale := b.TX, b.TY, b.TZ, b.Scale
+	if dim := b.Dim(); dim > 0 && b.Scale > 0 {
+		mmpv := b.Scale / float64(dim) // millimeters per voxel
+		tx += float64(sx) * mmpv
+		ty += float64(sy) * mmpv
+		tz += float64(sz) * mmpv
+		if newDim := max(nx, ny, nz); newDim != dim {
+			scale = float64(newDim) * mmpv
+		}
+	}
+
+	header := fmt.Sprintf(headerFMT, nx, ny, nz, tx, ty, tz, scale)
 	log.Printf("New header: %v", header)
 	if _, err := fmt.Fprint(w, header); err != nil {
 		return 0, fmt.Errorf("unable to write header: %v", err)
diff --git a/vshell/write.go b/vshell/write.go
index f6c2eaf..5a6640d 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -60,7 +60,19 @@ func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error)
 		lookup[key{v.X, v.Y, v.Z}] = i
 	}
 
-	header := fmt.Sprintf(headerFMT, nx, ny, nz, vs.TX, vs.TY, vs.TZ, vs.Scale)
+	// Keep the voxels where they are in world space, at their resolution.
+	tx, ty, tz, scale := vs.TX, vs.TY, vs.TZ, vs.Scale
+	if dim := vs.Dim(); dim > 0 && vs.Scale > 0 {
+		mmpv := vs.Scale / float64(dim) // millimeters per voxel
+		tx += float64(sx) * mmpv
+		ty += float64(sy) * mmpv
+		tz += float64(sz) * mmpv
+		if newDim := max(nx, ny, nz); newDim != dim {
+			scale = float64(newDim) * mmpv
+		}
+	}
+
+	header := fmt.Sprintf(headerFMT, nx, ny, nz, tx, ty, tz, scale)
 	log.Printf("New header: %v", header)
 	if _, err := fmt.Fprint(w, header); err != nil {
 		return 0, fmt.Errorf("unable to write header: %v", err)
-- 
2.43.0


From 4703a33f9724ea6b5ce70d7f13ee73ac08ac37c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 05/52] fix: vshell files lost runs of more than 65535 voxels

---
 vshell/write.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vshell/write.go b/vshell/write.go
index 5a6640d..12d4e00 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 )
 
@@ -137,7 +138,7 @@ func (vs *VShell) encode(ch chan<- rle, lookup map[key]int, sx, sy, sz, nx, ny,
 				if v, ok := lookup[k]; ok {
 					newValue = uint32(vs.Voxels[v].N)
 				}
-				if newValue != value {
+				if newValue != value || count == math.MaxUint16 {
 					if count > 0 { // To account for first value being sent.
 						ch <- rle{value, count}
 					}
-- 
2.43.0


From 8ee548a8e608045c831790fc725e09b111b7c046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 06/52] fix: vshell files lost voxels that have no neighbors

---
 vshell/read.go   | 2 +-
 vshell/vshell.go | 2 +-
 vshell/write.go  | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/vshell/read.go b/vshell/read.go
index a651175..79ccde6 100644
--- a/vshell/read.go
+++ b/vshell/read.go
@@ -160,7 +160,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
 			if value != 0 && value != 0xffffffff && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
-				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: NeighborBitMap(value)})
+				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: NeighborBitMap(value) &^ x0y0z0})
 			}
 			yi++
 			if yi >= ny {
diff --git a/vshell/vshell.go b/vshell/vshell.go
index 3996f63..36dfca2 100644
--- a/vshell/vshell.go
+++ b/vshell/vshell.go
@@ -120,7 +120,7 @@ const ( // NeighborBitMap values
 	X0Y_1Z0
 	X0Y_1Z1
 	X0Y0Z_1
-	x0y0z0 // Unused - the center voxel - but needed as a place-holder for the bit pattern.
+	x0y0z0 // The center voxel - only used in files, for a voxel without neighbors.
 	X0Y0Z1
 	X0Y1Z_1
 	X0Y1Z0
diff --git a/vshell/write.go b/vshell/write.go
index 12d4e00..549d5b1 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -137,6 +137,9 @@ func (vs *VShell) encode(ch chan<- rle, lookup map[key]int, sx, sy, sz, nx, ny,
 				var newValue uint32
 				if v, ok := lookup[k]; ok {
 					newValue = uint32(vs.Voxels[v].N)
+					if newValue == 0 { // 0 means no voxel: mark a voxel without neighbors.
+						newValue = uint32(x0y0z0)
+					}
 				}
 				if newValue != value || count == math.MaxUint16 {
 					if count > 0 { // To account for first value being sent.
-- 
2.43.0


From 4f26eb2420c582658d65a2f221dcb288bbb1ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 07/52] fix: Add lost neighbor updates of old shell voxels when
 the slice grew

---
 vshell/merge.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index ad161c7..f080e71 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -88,7 +88,7 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 	}
 
 	log.Printf("processing %v voxels...", len(lookup))
-	var shellCount int
+	var added []VShVoxel // old points into vs.Voxels, so don't append to it yet.
 	toRemove := make(lookupMap)
 	for k := range lookup {
 		neighbors, toCheck := lookup.findNeighbors(k, old)
@@ -106,10 +106,10 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 			continue
 		}
 
-		shellCount++
-		vs.Voxels = append(vs.Voxels, VShVoxel{X: k.X, Y: k.Y, Z: k.Z, N: neighbors})
+		added = append(added, VShVoxel{X: k.X, Y: k.Y, Z: k.Z, N: neighbors})
 	}
-	log.Printf("added %v voxels to shell", shellCount)
+	vs.Voxels = append(vs.Voxels, added...)
+	log.Printf("added %v voxels to shell", len(added))
 	if len(toRemove) > 0 {
 		log.Printf("removing %v voxels from old shell...", len(toRemove))
 		newVoxels := make([]VShVoxel, 0, len(vs.Voxels)-len(toRemove))
-- 
2.43.0


From 79b1a296527cc43d4567da1c307801975474057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 08/52] fix: merging overlapping models listed a shell voxel
 twice

---
 vshell/merge.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vshell/merge.go b/vshell/merge.go
index f080e71..82f5b45 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -87,6 +87,10 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 		old[key{v.X, v.Y, v.Z}] = &vs.Voxels[i]
 	}
 
+	for k := range old { // A voxel that is already in the shell is not new.
+		delete(lookup, k)
+	}
+
 	log.Printf("processing %v voxels...", len(lookup))
 	var added []VShVoxel // old points into vs.Voxels, so don't append to it yet.
 	toRemove := make(lookupMap)
-- 
2.43.0


From 9d083355bf06ab2bb406d29c1199ee8aba9c85ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 09/52] fix: merging misplaced models at offsets that are
 negative or not exact in floating point

---
 vshell/merge.go | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index 82f5b45..65c673c 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -3,6 +3,7 @@ package vshell
 import (
 	"fmt"
 	"log"
+	"math"
 
 	"github.com/gmlewis/stldice/v4/binvox"
 )
@@ -136,33 +137,31 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 		return 0, 0, 0, fmt.Errorf("vshell.VoxelsPerMM (%v) != binvox.VoxelsPerMM (%v)", vpmm, bv.VoxelsPerMM())
 	}
 
-	dx = int((bv.TX - vs.TX) * vpmm)
-	dy = int((bv.TY - vs.TY) * vpmm)
-	dz = int((bv.TZ - vs.TZ) * vpmm)
-	if bv.TX < vs.TX {
-		vs.TX = bv.TX
-	} else {
-
-	}
-	if bv.TY < vs.TY {
-		vs.TY = bv.TY
-	}
-	if bv.TZ < vs.TZ {
-		vs.TZ = bv.TZ
+	// adjust returns the offsets of the new and of the current voxels along one axis.
+	adjust := func(vsT *float64, bvT float64) (newOffset, oldOffset int) {
+		d := int(math.Round((bvT - *vsT) * vpmm))
+		if d >= 0 {
+			return d, 0
+		}
+		*vsT = bvT
+		return 0, -d
 	}
+	dx, ox := adjust(&vs.TX, bv.TX)
+	dy, oy := adjust(&vs.TY, bv.TY)
+	dz, oz := adjust(&vs.TZ, bv.TZ)
+	log.Printf("shifting %v new voxels by (%v,%v,%v) to merge with shell", len(bv.WhiteVoxels), dx, dy, dz)
 
-	if dx >= 0 && dy >= 0 && dz >= 0 {
-		log.Printf("shifting %v new voxels by (%v,%v,%v) to merge with shell", len(bv.WhiteVoxels), dx, dy, dz)
+	if ox == 0 && oy == 0 && oz == 0 {
 		return dx, dy, dz, nil
 	}
 
-	log.Printf("moving %v voxels by (%v,%v,%v)", len(vs.Voxels), -dx, -dy, -dz)
+	log.Printf("moving %v voxels by (%v,%v,%v)", len(vs.Voxels), ox, oy, oz)
 	beforeVPMM := vs.VoxelsPerMM()
 	// log.Printf("GML: beforeVPMM=%v, before scale=%v", beforeVPMM, vs.Scale)
 	for i := range vs.Voxels {
-		vs.Voxels[i].X -= dx
-		vs.Voxels[i].Y -= dy
-		vs.Voxels[i].Z -= dz
+		vs.Voxels[i].X += ox
+		vs.Voxels[i].Y += oy
+		vs.Voxels[i].Z += oz
 		if vs.Voxels[i].X >= vs.NX {
 			vs.NX = vs.Voxels[i].X + 1
 		}
@@ -179,10 +178,10 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 		vs.Scale *= afterVPMM / beforeVPMM
 		// log.Printf("GML: after scale=%v", vs.Scale)
 	}
-	log.Printf("done moving %v voxels by (%v,%v,%v)", len(vs.Voxels), -dx, -dy, -dz)
+	log.Printf("done moving %v voxels by (%v,%v,%v)", len(vs.Voxels), ox, oy, oz)
 	log.Printf("New shell dimensions are: (%v,%v,%v)", vs.NX, vs.NY, vs.NZ)
 
-	return 0, 0, 0, nil
+	return dx, dy, dz, nil
 }
 
 func (m lookupMap) findNeighbors(k key, old shellMap) (result NeighborBitMap, toCheck []key) {
-- 
2.43.0


From 2945246bd680897358b111a81bf9aba6b85ca813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 10/52] fix: merging accepted models of another resolution and
 refused some of the same

---
 vshell/merge.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index 65c673c..3e8f1ad 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -132,9 +132,9 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 // update adjusts the locations of the current VShVoxels to accomodate
 // the addition of the BinVOX model.
 func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
-	vpmm := vs.VoxelsPerMM()
-	if int(vpmm) != int(bv.VoxelsPerMM()) { // Course test for large discrepancies
-		return 0, 0, 0, fmt.Errorf("vshell.VoxelsPerMM (%v) != binvox.VoxelsPerMM (%v)", vpmm, bv.VoxelsPerMM())
+	vpmm, bvpmm := vs.VoxelsPerMM(), bv.VoxelsPerMM()
+	if math.Abs(vpmm-bvpmm) > 1e-6*math.Max(vpmm, bvpmm) { // Allow for rounding errors.
+		return 0, 0, 0, fmt.Errorf("vshell.VoxelsPerMM (%v) != binvox.VoxelsPerMM (%v)", vpmm, bvpmm)
 	}
 
 	// adjust returns the offsets of the new and of the current voxels along one axis.
-- 
2.43.0


From 4efd3bed5d08706d35974bd01ffacb530c98f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 11/52] fix: merging into an empty shell misplaced the voxels

---
 vshell/merge.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index 3e8f1ad..f414cf3 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -41,8 +41,15 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 	if vs == nil || bv == nil {
 		return fmt.Errorf("empty vs or bv")
 	}
+	if bv.Dim() == 0 && len(bv.WhiteVoxels) == 0 && len(bv.ColorVoxels) == 0 {
+		return nil // Nothing to add, as in the file of an empty model.
+	}
 	var dx, dy, dz int
-	if len(vs.Voxels) > 0 {
+	if len(vs.Voxels) == 0 { // No voxels to keep in place: use the grid of the new ones.
+		vs.NX, vs.NY, vs.NZ = bv.NX, bv.NY, bv.NZ
+		vs.TX, vs.TY, vs.TZ = bv.TX, bv.TY, bv.TZ
+		vs.Scale = bv.Scale
+	} else {
 		if dx, dy, dz, err = vs.update(bv); err != nil {
 			return err
 		}
-- 
2.43.0


From 9f4688dfdd9028b0e60d4d264deb8d328bd174fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 12/52] fix: merge-stl and merge-binvox crashed when no files
 match

---
 cmd/merge-binvox/merge-binvox.go | 4 ++++
 cmd/merge-stl/merge-stl.go       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cmd/merge-binvox/merge-binvox.go b/cmd/merge-binvox/merge-binvox.go
index f70491b..b7aec97 100644
--- a/cmd/merge-binvox/merge-binvox.go
+++ b/cmd/merge-binvox/merge-binvox.go
@@ -44,6 +44,10 @@ func main() {
 		}
 	}
 
+	if len(newFiles) == 0 {
+		log.Fatalf("No files found to merge matching %v*.binvox", *prefix)
+	}
+
 	log.Printf("Merging %v binvox files into %v...", len(newFiles), outFile)
 	vsh, err := vshell.Merge(newFiles)
 	if err != nil {
diff --git a/cmd/merge-stl/merge-stl.go b/cmd/merge-stl/merge-stl.go
index 2b86a6d..f76d24d 100644
--- a/cmd/merge-stl/merge-stl.go
+++ b/cmd/merge-stl/merge-stl.go
@@ -44,6 +44,10 @@ func main() {
 		}
 	}
 
+	if len(newFiles) == 0 {
+		log.Fatalf("No files found to merge matching %v*.stl", *prefix)
+	}
+
 	log.Printf("Merging %v STL files into %v using %v workers...", len(newFiles), outFile, *numWorkers)
 	mesh, err := stl.Merge(newFiles, *numWorkers)
 	if err != nil {
-- 
2.43.0


From 412b16a3934d1ef6793d5422b840ecde6b6a03be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 13/52] fix: merge-binvox overwrote an existing .vsh file
 without -f

---
 cmd/merge-binvox/merge-binvox.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/cmd/merge-binvox/merge-binvox.go b/cmd/merge-binvox/merge-binvox.go
index b7aec97..9a990f2 100644
--- a/cmd/merge-binvox/merge-binvox.go
+++ b/cmd/merge-binvox/merge-binvox.go
@@ -31,12 +31,7 @@ func main() {
 		log.Fatalf("No files found matching %v*.binvox", *prefix)
 	}
 	outFile := *prefix + ".vsh"
-	var newFiles []string
-	for _, f := range files { // Quick sanity check
-		if f != outFile {
-			newFiles = append(newFiles, f)
-			continue
-		}
+	if _, err := os.Lstat(outFile); !os.IsNotExist(err) { // Quick sanity check
 		if *force {
 			log.Printf("%v already exists. Overwriting due to -f flag.", outFile)
 		} else {
@@ -44,12 +39,12 @@ func main() {
 		}
 	}
 
-	if len(newFiles) == 0 {
+	if len(files) == 0 {
 		log.Fatalf("No files found to merge matching %v*.binvox", *prefix)
 	}
 
-	log.Printf("Merging %v binvox files into %v...", len(newFiles), outFile)
-	vsh, err := vshell.Merge(newFiles)
+	log.Printf("Merging %v binvox files into %v...", len(files), outFile)
+	vsh, err := vshell.Merge(files)
 	if err != nil {
 		log.Fatalf("Merge: %v", err)
 	}
-- 
2.43.0


From b515091759d6be1902fa67ff4e30a678bcec25df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 14/52] fix: data race on the error of stl.Merge

---
 stl/stl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stl/stl.go b/stl/stl.go
index d004dfb..2cc1f7c 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -13,7 +13,7 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 	var wg sync.WaitGroup
 	ch := make(chan struct{}, numWorkers)
 
-	var mu sync.Mutex // protects mesh
+	var mu sync.Mutex // protects mesh and mergeErr
 	addFunc := func(meshToAdd *gl.Mesh) {
 		mu.Lock()
 		if mesh == nil {
@@ -30,7 +30,9 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 		wg.Add(1)
 		go func(filename string) {
 			if err := merge(filename, addFunc); err != nil {
+				mu.Lock()
 				mergeErr = err
+				mu.Unlock()
 			}
 			<-ch // release a worker
 			wg.Done()
-- 
2.43.0


From a6abb35a2712f1bec9b73d3660ba15d854a58f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 15/52] fix: stl.Merge hung or crashed without workers

---
 stl/stl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stl/stl.go b/stl/stl.go
index 2cc1f7c..1c791f4 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -2,6 +2,7 @@
 package stl
 
 import (
+	"fmt"
 	"log"
 	"sync"
 
@@ -10,6 +11,10 @@ import (
 
 // Merge merges the STL files using a worker pool of numWorkers.
 func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
+	if numWorkers < 1 {
+		return nil, fmt.Errorf("need at least one worker, got %v", numWorkers)
+	}
+
 	var wg sync.WaitGroup
 	ch := make(chan struct{}, numWorkers)
 
-- 
2.43.0


From eda72fbee61fbd1b17b97fa076048a9a8e202970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 16/52] fix: Voxelize set voxels outside of the subregion

---
 binvox/voxelize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index 2b282c2..659e913 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -270,7 +270,9 @@ func (b *BinVOX) floodFill(zi int, set setMap, setVoxelFunc func(k Key), xMinMax
 				}
 				k := Key{xi, yi, zi}
 				if len(set[k]) > 0 { // triangles intersect this voxel.
-					setVoxelFunc(k)
+					if xi >= 0 {
+						setVoxelFunc(k)
+					}
 					var inCount, outCount int
 					for _, tri := range set[k] {
 						if _, ok := seenTris[tri]; ok {
-- 
2.43.0


From c8b7df6c1bcf217b5686f3b1d87871b36814c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 17/52] fix: stldice dropped the voxels that do not divide
 evenly into regions

---
 cmd/stldice/stldice.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 030334e..5693be4 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -141,16 +141,12 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 		return nil, fmt.Errorf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
 	}
 
-	maxDim := dimX
-	if dimY > maxDim {
-		maxDim = dimY
-	}
-	if dimZ > maxDim {
-		maxDim = dimZ
-	}
-	log.Printf("maximum dimension = %v (the smaller this number, the faster the binvox writing will be)", maxDim)
-	subregionScale := float64(maxDim) * mmpv
-	log.Printf("subregion scale = %v", subregionScale)
+	log.Printf("maximum dimension = %v (the smaller this number, the faster the binvox writing will be)", max(dimX, dimY, dimZ))
+
+	// The last region along each axis also takes the remainder of the division.
+	lastX := newModelDimX - (nx-1)*dimX
+	lastY := newModelDimY - (ny-1)*dimY
+	lastZ := newModelDimZ - (nz-1)*dimZ
 
 	for zi := 0; zi < nz; zi++ {
 		z1 := mbb.Min.Z + float64(zi*dimZ)*mmpv
@@ -168,8 +164,17 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 				bv := &binvox.BinVOX{
 					NX: dimX, NY: dimY, NZ: dimZ,
 					TX: x1, TY: y1, TZ: z1,
-					Scale: subregionScale,
 				}
+				if xi == nx-1 {
+					bv.NX = lastX
+				}
+				if yi == ny-1 {
+					bv.NY = lastY
+				}
+				if zi == nz-1 {
+					bv.NZ = lastZ
+				}
+				bv.Scale = float64(bv.Dim()) * mmpv
 				if err := bv.Voxelize(mesh); err != nil {
 					return nil, fmt.Errorf("voxelize: %v", err)
 				}
-- 
2.43.0


From 60cd85e521bc00e8313bfc3d15bdda99bf584fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 18/52] fix: stldice left regions written by an earlier run out
 of its script

---
 cmd/stldice/stldice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 5693be4..84f13c9 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -157,6 +157,7 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 				outFile := newPrefix + ".binvox"
 				if _, err := os.Stat(outFile); err == nil || os.IsExist(err) {
 					log.Printf("Skipping writing existing file %v", outFile)
+					prefixes = append(prefixes, strings.TrimPrefix(newPrefix, outPrefix))
 					continue
 				}
 
-- 
2.43.0


From 969a1fd13b239ebd370a07c36f7a19d5052bde38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 19/52] fix: stldice trusted region files that an interrupted
 run left incomplete

---
 cmd/stldice/stldice.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 84f13c9..de4c502 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -185,7 +185,12 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 					continue
 				}
 				log.Printf("Writing %v voxels to %v", len(bv.WhiteVoxels), outFile)
-				if err := bv.Write(outFile, 0, 0, 0, 0, 0, 0); err != nil {
+				// An interrupted run must not leave a partial file for the next run to skip.
+				tmpFile := outFile + ".tmp"
+				if err := bv.Write(tmpFile, 0, 0, 0, 0, 0, 0); err != nil {
+					return nil, err
+				}
+				if err := os.Rename(tmpFile, outFile); err != nil {
 					return nil, err
 				}
 				prefixes = append(prefixes, strings.TrimPrefix(newPrefix, outPrefix))
-- 
2.43.0


From 9404f9df1e9004d287615c60601fc1321bed472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 20/52] fix: voxcut ignored the translations of the base and
 cutting models

---
 cmd/voxcut/voxcut.go | 45 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index e499602..58dbb28 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 
 	gl "github.com/fogleman/fauxgl"
@@ -61,7 +62,7 @@ func main() {
 	}
 
 	for i := 1; i < flag.NArg(); i++ {
-		cut, err := binvox.Read(flag.Arg(i), *startX, *startY, *startZ, *countX, *countY, *countZ)
+		cut, err := readCut(base, flag.Arg(i))
 		if err != nil {
 			log.Printf("skipping: %v", err)
 			continue
@@ -123,6 +124,41 @@ func main() {
 	log.Println("Done.")
 }
 
+// offset returns what to add to base indices to get the indices of the same
+// voxel in cut, by taking into account the translations.
+func offset(base, cut *binvox.BinVOX) (dx, dy, dz int) {
+	vpmm := base.VoxelsPerMM()
+	dx = int(math.Round((base.TX - cut.TX) * vpmm))
+	dy = int(math.Round((base.TY - cut.TY) * vpmm))
+	dz = int(math.Round((base.TZ - cut.TZ) * vpmm))
+	return dx, dy, dz
+}
+
+// readCut reads the part of the cut file that the section of base being processed covers.
+func readCut(base *binvox.BinVOX, filename string) (*binvox.BinVOX, error) {
+	cut, err := binvox.Read(filename, 0, 0, 0, 1, 1, 1) // Read only one voxel to get the header info.
+	if err != nil {
+		return nil, err
+	}
+
+	box := func(start, count, n, d, cutN int) (s, c int) {
+		if count == 0 {
+			count = n
+		}
+		s, end := max(start+d, 0), min(start+count+d, cutN)
+		return s, end - s
+	}
+	dx, dy, dz := offset(base, cut)
+	sx, cx := box(*startX, *countX, base.NX, dx, cut.NX)
+	sy, cy := box(*startY, *countY, base.NY, dy, cut.NY)
+	sz, cz := box(*startZ, *countZ, base.NZ, dz, cut.NZ)
+	if cx <= 0 || cy <= 0 || cz <= 0 { // no overlap
+		cut.WhiteVoxels = binvox.WhiteVoxelMap{}
+		return cut, nil
+	}
+	return binvox.Read(filename, sx, sy, sz, cx, cy, cz)
+}
+
 // voxcut cuts the base voxels by the cut voxels and returns the newVoxels.
 // It accounts for different translation settings in the base and cutting voxels.
 func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error) {
@@ -134,16 +170,13 @@ func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error
 	}
 
 	newVoxels = binvox.WhiteVoxelMap{}
-	vpmm := base.VoxelsPerMM()
 
 	// Map base indices to cut indices by taking into account the translations.
-	dx := int((base.TX - cut.TX) * vpmm)
-	dy := int((base.TY - cut.TY) * vpmm)
-	dz := int((base.TZ - cut.TZ) * vpmm)
+	dx, dy, dz := offset(base, cut)
 	log.Printf("Translating cut voxels by [%v,%v,%v]", dx, dy, dz)
 
 	keyFunc := func(v binvox.Key, vc binvox.Color) {
-		c, ok := cut.Get(v.X, v.Y, v.Z)
+		c, ok := cut.Get(v.X+dx, v.Y+dy, v.Z+dz)
 		if !ok { // Nothing to cut - keep voxel.
 			newVoxels[v] = struct{}{}
 			return
-- 
2.43.0


From 61710e69848e1d95339b41ba4338cb13b87560f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 21/52] fix: voxcut wrote .vox files that no reader understands

---
 cmd/voxcut/voxcut.go | 75 +++++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 49 deletions(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index 58dbb28..7e37f35 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -93,7 +93,7 @@ func main() {
 		if err != nil {
 			log.Fatalf("Unable to create file %v: %v", *voxFile, err)
 		}
-		if err := writeVOX(f, base.WhiteVoxels); err != nil {
+		if err := writeVOX(f, base.WhiteVoxels, *startX, *startY, *startZ); err != nil {
 			log.Fatalf("writeVOX: %v", err)
 		}
 		if err := f.Close(); err != nil {
@@ -202,72 +202,49 @@ func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error
 	return newVoxels, nil
 }
 
-// writeVOX writes a vox file from the base voxels.
-func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
+// writeVOX writes a vox file from the base voxels, with the voxel at (sx,sy,sz)
+// being at the origin. A vox file can hold up to 256 voxels in each direction.
+func writeVOX(f io.Writer, base binvox.WhiteVoxelMap, sx, sy, sz int) error {
+	voxels := make([]gl.VOXVoxel, 0, len(base))
+	var sizeX, sizeY, sizeZ int
+	for v := range base {
+		x, y, z := v.X-sx, v.Y-sy, v.Z-sz
+		if x < 0 || x > 255 || y < 0 || y > 255 || z < 0 || z > 255 {
+			return fmt.Errorf("voxel (%v,%v,%v) does not fit in a vox file", x, y, z)
+		}
+		sizeX, sizeY, sizeZ = max(sizeX, x+1), max(sizeY, y+1), max(sizeZ, z+1)
+		// TODO(gmlewis): support full color palette.
+		voxels = append(voxels, gl.VOXVoxel{X: uint8(x), Y: uint8(y), Z: uint8(z), I: 1})
+	}
+
 	header := gl.VOXHeader{Magic: [4]byte{'V', 'O', 'X', ' '}, Version: 150}
 	if err := binary.Write(f, binary.LittleEndian, &header); err != nil {
 		return fmt.Errorf("header: %v", err)
 	}
 
-	chunk := gl.VOXChunk{ID: [4]byte{'M', 'A', 'I', 'N'}, ChildrenBytes: int32(12 + len(base)*4 + 4)}
+	const chunkBytes = 12 // size of a chunk header
+	sizeBytes, xyziBytes := int32(12), int32(4+4*len(voxels))
+	chunk := gl.VOXChunk{ID: [4]byte{'M', 'A', 'I', 'N'}, ChildrenBytes: chunkBytes + sizeBytes + chunkBytes + xyziBytes}
 	if err := binary.Write(f, binary.LittleEndian, &chunk); err != nil {
 		return fmt.Errorf("MAIN: %v", err)
 	}
-	chunk = gl.VOXChunk{ID: [4]byte{'S', 'I', 'Z', 'E'}, ContentBytes: 12}
+	chunk = gl.VOXChunk{ID: [4]byte{'S', 'I', 'Z', 'E'}, ContentBytes: sizeBytes}
 	if err := binary.Write(f, binary.LittleEndian, &chunk); err != nil {
 		return fmt.Errorf("SIZE: %v", err)
 	}
-
-	var maxX, maxY, maxZ int
-	for v := range base {
-		if v.X > maxX {
-			maxX = v.X
-		}
-		if v.Y > maxY {
-			maxY = v.Y
-		}
-		if v.Z > maxZ {
-			maxZ = v.Z
-		}
-	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxX)); err != nil {
-		return fmt.Errorf("maxX: %v", err)
-	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxY)); err != nil {
-		return fmt.Errorf("maxY: %v", err)
-	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxZ)); err != nil {
-		return fmt.Errorf("maxZ: %v", err)
+	if err := binary.Write(f, binary.LittleEndian, [3]int32{int32(sizeX), int32(sizeY), int32(sizeZ)}); err != nil {
+		return fmt.Errorf("SIZE: %v", err)
 	}
 
-	chunk = gl.VOXChunk{ID: [4]byte{'X', 'Y', 'Z', 'I'}, ContentBytes: int32(len(base)*4 + 4)}
+	chunk = gl.VOXChunk{ID: [4]byte{'X', 'Y', 'Z', 'I'}, ContentBytes: xyziBytes}
 	if err := binary.Write(f, binary.LittleEndian, &chunk); err != nil {
 		return fmt.Errorf("XYZI: %v", err)
 	}
-	numVoxels := int32(len(base))
-	if err := binary.Write(f, binary.LittleEndian, &numVoxels); err != nil {
+	if err := binary.Write(f, binary.LittleEndian, int32(len(voxels))); err != nil {
 		return fmt.Errorf("numVoxels: %v", err)
 	}
-	// TODO(gmlewis): support full color palette.
-	// for v, vc := range base {
-	for v := range base {
-		// i := int32(0)
-		// if vc.A >= 0.5 && vc.R+vc.G+vc.B > 1.5 {  // WHAT?!?
-		// 	i = 1
-		// }
-		if err := binary.Write(f, binary.LittleEndian, int32(v.X)); err != nil {
-			return fmt.Errorf("X: %v", err)
-		}
-		if err := binary.Write(f, binary.LittleEndian, int32(v.Y)); err != nil {
-			return fmt.Errorf("Y: %v", err)
-		}
-		if err := binary.Write(f, binary.LittleEndian, int32(v.Z)); err != nil {
-			return fmt.Errorf("Z: %v", err)
-		}
-		i := int32(1)
-		if err := binary.Write(f, binary.LittleEndian, i); err != nil {
-			return fmt.Errorf("I: %v", err)
-		}
+	if err := binary.Write(f, binary.LittleEndian, voxels); err != nil {
+		return fmt.Errorf("voxels: %v", err)
 	}
 	return nil
 }
-- 
2.43.0


From b56013bcf838a4ff8577d3c9854460e6471b3806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 22/52] fix: svx2stl crashed on an archive without a manifest

---
 cmd/svx2stl/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 833b2af..42dd9a3 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -88,6 +88,9 @@ func read(filename string) (*binvox.BinVOX, error) {
 
 		scanImage(img, model, sliceNum)
 	}
+	if model == nil {
+		return nil, fmt.Errorf("no manifest.xml in %q", filename)
+	}
 
 	return model, nil
 }
-- 
2.43.0


From 77d913809effd39a78c79e7ee4aaed705cbfe18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 23/52] fix: svx2stl shrank the model by the size of its grid

---
 cmd/svx2stl/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 42dd9a3..68cfa38 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -71,6 +71,7 @@ func read(filename string) (*binvox.BinVOX, error) {
 			if err != nil {
 				return nil, fmt.Errorf("parseManifest: %v", err)
 			}
+			model.Scale *= float64(model.Dim()) // from the size of a voxel to that of the model
 			rc.Close()
 			continue
 		}
-- 
2.43.0


From e2791adce2ef8c7399d4f554f91a8ffbd785c3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 24/52] fix: concurrent SVX jobs wrote into each other's
 archive

---
 stl2svx/master/master.go | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index adf15dc..ad8811f 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -28,7 +28,10 @@ const (
 type master struct {
 	amu        sync.Mutex          // protects agents and idleAgents
 	idleAgents map[string]struct{} // just a map of idle agents
+}
 
+// svx is the SVX file of a single job.
+type svx struct {
 	zmu     sync.Mutex  // protects zipFile
 	zipFile *zip.Writer // resulting SVX file
 }
@@ -47,22 +50,22 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 	}
 
 	var zbuf bytes.Buffer
-	m.zipFile = zip.NewWriter(&zbuf)
+	s := &svx{zipFile: zip.NewWriter(&zbuf)}
 
-	m.writeManifest(in, base)
-	m.writeBlankImages(in, base)
+	s.writeManifest(in, base)
+	s.writeBlankImages(in, base)
 
 	var wg sync.WaitGroup
 	for z := 0; z < base.DimZ; z++ {
 		wg.Add(1)
 		go func(z int) {
-			m.runAgent(ctx, in, z)
+			m.runAgent(ctx, in, s, z)
 			wg.Done()
 		}(z)
 	}
 	wg.Wait()
 
-	if err := m.zipFile.Close(); err != nil {
+	if err := s.zipFile.Close(); err != nil {
 		return nil, err
 	}
 
@@ -80,7 +83,7 @@ func (m *master) RegisterAgent(ctx context.Context, in *pb.RegisterAgentRequest)
 }
 
 // runAgent runs the agent on the given z slice.
-func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int) {
+func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, s *svx, z int) {
 	req := &pb.SliceJobRequest{NewJobRequest: in, Z: int64(z)}
 	var conn *grpc.ClientConn
 	var address string
@@ -110,9 +113,9 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int) {
 	outFile := fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), z+1)
 
 	log.Printf("runAgent(%v): writing %v to zip file...", z, outFile)
-	m.zmu.Lock()
-	defer m.zmu.Unlock()
-	f, err := m.zipFile.Create(outFile)
+	s.zmu.Lock()
+	defer s.zmu.Unlock()
+	f, err := s.zipFile.Create(outFile)
 	if err != nil {
 		log.Printf("runAgent(%v) error: %v", z, err)
 		return
@@ -140,12 +143,12 @@ func (m *master) getIdleAgent() string {
 	}
 }
 
-func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
+func (s *svx) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	const outFile = "manifest.xml"
 	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.DimZ)
-	m.zmu.Lock()
-	defer m.zmu.Unlock()
-	mf, err := m.zipFile.Create(outFile)
+	s.zmu.Lock()
+	defer s.zmu.Unlock()
+	mf, err := s.zipFile.Create(outFile)
 	if err != nil {
 		return err
 	}
@@ -159,15 +162,15 @@ func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	return nil
 }
 
-func (m *master) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
+func (s *svx) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
 	// For Shapeways, create a black base and a black top.
 	rect := image.Rect(0, 0, int(in.GetDim()+2), int(in.GetDim()+2))
 	img := image.NewGray(rect)
 	draw.Draw(img, rect, image.Black, image.ZP, draw.Over)
-	m.zmu.Lock()
-	defer m.zmu.Unlock()
+	s.zmu.Lock()
+	defer s.zmu.Unlock()
 	outf := func(fn string) {
-		f, err := m.zipFile.Create(fn)
+		f, err := s.zipFile.Create(fn)
 		if err != nil {
 			log.Printf("error: %v", err)
 			return
-- 
2.43.0


From 3cda125c9a56cc1ccbc36a5d78719e744586c1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 25/52] fix: SVX jobs succeeded without the slices of failed
 agents, and lost the agents

---
 stl2svx/master/master.go | 69 ++++++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 23 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index ad8811f..cd3d9a1 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -4,6 +4,7 @@ package master
 import (
 	"archive/zip"
 	"bytes"
+	"context"
 	"fmt"
 	"image"
 	"image/draw"
@@ -13,10 +14,11 @@ import (
 	"time"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 
 	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
 	"github.com/gmlewis/stldice/v4/stl2svx/stl"
-	"golang.org/x/net/context"
 )
 
 const (
@@ -55,15 +57,22 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 	s.writeManifest(in, base)
 	s.writeBlankImages(in, base)
 
+	ctx, cancel := context.WithCancelCause(ctx)
+	defer cancel(nil)
 	var wg sync.WaitGroup
 	for z := 0; z < base.DimZ; z++ {
 		wg.Add(1)
 		go func(z int) {
-			m.runAgent(ctx, in, s, z)
+			if err := m.runAgent(ctx, in, s, z); err != nil {
+				cancel(fmt.Errorf("slice z=%v: %w", z, err)) // the other slices are of no use
+			}
 			wg.Done()
 		}(z)
 	}
 	wg.Wait()
+	if ctx.Err() != nil {
+		return nil, context.Cause(ctx)
+	}
 
 	if err := s.zipFile.Close(); err != nil {
 		return nil, err
@@ -82,32 +91,37 @@ func (m *master) RegisterAgent(ctx context.Context, in *pb.RegisterAgentRequest)
 	return &pb.RegisterAgentResponse{}, nil
 }
 
-// runAgent runs the agent on the given z slice.
-func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, s *svx, z int) {
+// runAgent runs an agent on the given z slice.
+func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, s *svx, z int) error {
 	req := &pb.SliceJobRequest{NewJobRequest: in, Z: int64(z)}
-	var conn *grpc.ClientConn
-	var address string
+	var resp *pb.SliceJobResponse
 	for {
-		address = m.getIdleAgent()
+		address, err := m.getIdleAgent(ctx)
+		if err != nil {
+			return err
+		}
 		log.Printf("Assigning agent %v to slice z=%v", address, z)
-		var err error
-		conn, err = grpc.Dial(address, grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxSize)), grpc.WithDefaultCallOptions(grpc.MaxCallSendMsgSize(maxSize)))
+		conn, err := grpc.Dial(address, grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxSize)), grpc.WithDefaultCallOptions(grpc.MaxCallSendMsgSize(maxSize)))
 		if err != nil {
 			log.Printf("Unable to communicate with agent %v, finding another...", address)
 			continue
 		}
+		c := pb.NewAgentClient(conn)
+		resp, err = c.SliceJob(ctx, req)
+		conn.Close()
+		if status.Code(err) == codes.Unavailable {
+			log.Printf("Lost agent %v, finding another: %v", address, err)
+			continue
+		}
+		m.amu.Lock()
+		m.idleAgents[address] = struct{}{} // Mark agent as idle
+		m.amu.Unlock()
+		if err != nil {
+			log.Printf("Error running SliceJob with agent %v: %v", address, err)
+			return err
+		}
 		break
 	}
-	defer conn.Close()
-	c := pb.NewAgentClient(conn)
-	resp, err := c.SliceJob(ctx, req)
-	if err != nil {
-		log.Printf("Error running SliceJob with agent %v: %v", address, err)
-		return
-	}
-	m.amu.Lock()
-	m.idleAgents[address] = struct{}{} // Mark agent as idle
-	m.amu.Unlock()
 
 	// Write the PNG to the zip file.
 	outFile := fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), z+1)
@@ -118,16 +132,22 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, s *svx, z i
 	f, err := s.zipFile.Create(outFile)
 	if err != nil {
 		log.Printf("runAgent(%v) error: %v", z, err)
-		return
+		return err
 	}
 	if _, err := f.Write(resp.GetPngFile()); err != nil {
 		log.Printf("runAgent(%v) error: %v", z, err)
+		return err
 	}
+	return nil
 }
 
 // getIdleAgent sits in a loop waiting for an agent to become idle, then marks it busy and returns its address.
-func (m *master) getIdleAgent() string {
+// It returns an error when the context is done before that.
+func (m *master) getIdleAgent(ctx context.Context) (string, error) {
 	for {
+		if err := ctx.Err(); err != nil {
+			return "", err
+		}
 		m.amu.Lock()
 		var address string
 		if len(m.idleAgents) > 0 {
@@ -136,10 +156,13 @@ func (m *master) getIdleAgent() string {
 			}
 			delete(m.idleAgents, address)
 			m.amu.Unlock()
-			return address
+			return address, nil
 		}
 		m.amu.Unlock()
-		time.Sleep(idleWaitTime)
+		select {
+		case <-ctx.Done():
+		case <-time.After(idleWaitTime):
+		}
 	}
 }
 
-- 
2.43.0


From b76b6eeccf0c0e1dbca6ffb4b7f66f060af09d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 26/52] fix: SVX manifest named other images than those in the
 archive

---
 stl2svx/master/master.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index cd3d9a1..c914edc 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -124,7 +124,7 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, s *svx, z i
 	}
 
 	// Write the PNG to the zip file.
-	outFile := fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), z+1)
+	outFile := fmt.Sprintf("%v/%v-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), z+1)
 
 	log.Printf("runAgent(%v): writing %v to zip file...", z, outFile)
 	s.zmu.Lock()
@@ -202,6 +202,6 @@ func (s *svx) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
 			log.Printf("error: %v", err)
 		}
 	}
-	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), 0))
-	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.DimZ+1))
+	outf(fmt.Sprintf("%v/%v-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), 0))
+	outf(fmt.Sprintf("%v/%v-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.DimZ+1))
 }
-- 
2.43.0


From 7589e2ead4f7fdd035403e4168ba8c9ff7907fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 27/52] fix: SVX files lacked the slices of all but the first Z
 region and of remainders

---
 stl2svx/agent/agent.go   | 21 ++++++++++++++++++---
 stl2svx/master/master.go |  6 +++---
 stl2svx/stl/stl.go       | 16 +++-------------
 3 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/stl2svx/agent/agent.go b/stl2svx/agent/agent.go
index 6b237ba..4b787eb 100644
--- a/stl2svx/agent/agent.go
+++ b/stl2svx/agent/agent.go
@@ -118,14 +118,26 @@ func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
 					for xi := 0; xi < int(job.GetNX()); xi++ {
 						x1 := base.MBB.Min.X + float64(xi*base.DimX)*base.MMPV
 
+						// The last region along each axis also takes the remainder of the division.
+						n := [3]int{base.DimX, base.DimY, base.DimZ}
+						if xi == int(job.GetNX())-1 {
+							n[0] = base.ModelDimX - xi*base.DimX
+						}
+						if yi == int(job.GetNY())-1 {
+							n[1] = base.ModelDimY - yi*base.DimY
+						}
+						if zi == int(job.GetNZ())-1 {
+							n[2] = base.ModelDimZ - zi*base.DimZ
+						}
+
 						mapIn := &bvInfo{
 							dx: xi * base.DimX,
 							dy: yi * base.DimY,
 							dz: zi * base.DimZ,
 							bv: &binvox.BinVOX{
-								NX: base.DimX, NY: base.DimY, NZ: base.DimZ,
+								NX: n[0], NY: n[1], NZ: n[2],
 								TX: x1, TY: y1, TZ: z1,
-								Scale: base.SubregionScale,
+								Scale: float64(max(n[0], n[1], n[2])) * base.MMPV,
 							},
 							base: i == 0,
 							mesh: stlMesh.Mesh,
@@ -151,7 +163,10 @@ type voxelInfo struct {
 // then sends them to the imager.
 func voxelize(bvi *bvInfo, zi int, ch chan<- voxelInfo) {
 	bv := bvi.bv
-	if err := bv.VoxelizeZ(bvi.mesh, zi); err != nil {
+	if zi < bvi.dz || zi >= bvi.dz+bv.NZ {
+		return // the slice is not part of this region
+	}
+	if err := bv.VoxelizeZ(bvi.mesh, zi-bvi.dz); err != nil {
 		log.Printf("voxelize(%v): %v", zi, err)
 		return
 	}
diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index c914edc..301b4f6 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -60,7 +60,7 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 	ctx, cancel := context.WithCancelCause(ctx)
 	defer cancel(nil)
 	var wg sync.WaitGroup
-	for z := 0; z < base.DimZ; z++ {
+	for z := 0; z < base.ModelDimZ; z++ {
 		wg.Add(1)
 		go func(z int) {
 			if err := m.runAgent(ctx, in, s, z); err != nil {
@@ -168,7 +168,7 @@ func (m *master) getIdleAgent(ctx context.Context) (string, error) {
 
 func (s *svx) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	const outFile = "manifest.xml"
-	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.DimZ)
+	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.ModelDimZ)
 	s.zmu.Lock()
 	defer s.zmu.Unlock()
 	mf, err := s.zipFile.Create(outFile)
@@ -203,5 +203,5 @@ func (s *svx) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
 		}
 	}
 	outf(fmt.Sprintf("%v/%v-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), 0))
-	outf(fmt.Sprintf("%v/%v-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.DimZ+1))
+	outf(fmt.Sprintf("%v/%v-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.ModelDimZ+1))
 }
diff --git a/stl2svx/stl/stl.go b/stl2svx/stl/stl.go
index f243bce..f7c7f77 100644
--- a/stl2svx/stl/stl.go
+++ b/stl2svx/stl/stl.go
@@ -17,12 +17,11 @@ type STL struct {
 	Mesh *gl.Mesh
 	// The dimensions for the model.
 	ModelDimX, ModelDimY, ModelDimZ int
-	// The dimensions for each subregion.
+	// The dimensions for each subregion, where the last one along each
+	// axis also takes the remainder of the division.
 	DimX, DimY, DimZ int
 	// MMPV is the millimeters per voxel of the model.
 	MMPV float64
-	// SubregionScale represents the scale for each subregion.
-	SubregionScale float64
 }
 
 // New parses a pb.STLFile and returns an STL.
@@ -58,21 +57,12 @@ func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
 	if dimX == 0 || dimY == 0 || dimZ == 0 {
 		return nil, fmt.Errorf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
 	}
-	maxDim := dimX
-	if dimY > maxDim {
-		maxDim = dimY
-	}
-	if dimZ > maxDim {
-		maxDim = dimZ
-	}
-	subregionScale := float64(maxDim) * mmpv
 
 	return &STL{
 		MBB:       mbb,
 		Mesh:      mesh,
 		ModelDimX: newModelDimX, ModelDimY: newModelDimY, ModelDimZ: newModelDimZ,
 		DimX: dimX, DimY: dimY, DimZ: dimZ,
-		MMPV:           mmpv,
-		SubregionScale: subregionScale,
+		MMPV: mmpv,
 	}, nil
 }
-- 
2.43.0


From c14458f435d8a672f441e2f98010ae0b89d8d374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 28/52] fix: malformed SVX requests and thin cuts crashed the
 master and the agents

---
 stl2svx/agent/agent.go | 35 +++++++++++++++++++++++------------
 stl2svx/stl/stl.go     | 37 ++++++++++++++++++++++++++++++++-----
 2 files changed, 55 insertions(+), 17 deletions(-)

diff --git a/stl2svx/agent/agent.go b/stl2svx/agent/agent.go
index 4b787eb..c1b5b5f 100644
--- a/stl2svx/agent/agent.go
+++ b/stl2svx/agent/agent.go
@@ -96,19 +96,30 @@ type bvInfo struct {
 // through the provided channel.
 // dimZ is the number of agents needed to output the images.
 func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
+	job := in.GetNewJobRequest()
+	if len(job.GetStlFiles()) == 0 {
+		return nil, fmt.Errorf("must pass at least one STL file")
+	}
+	base, err := stl.New(job.GetStlFiles()[0], job.GetDim(), job.GetNX(), job.GetNY(), job.GetNZ())
+	if err != nil {
+		return nil, fmt.Errorf("stl.New: %v", err)
+	}
+	if z := in.GetZ(); z < 0 || z >= int64(base.ModelDimZ) {
+		return nil, fmt.Errorf("slice z=%v is not part of the model", z)
+	}
+	meshes := []*gl.Mesh{base.Mesh}
+	for _, stlFile := range job.GetStlFiles()[1:] {
+		mesh, err := stl.NewMesh(stlFile)
+		if err != nil {
+			return nil, fmt.Errorf("stl.NewMesh: %v", err)
+		}
+		meshes = append(meshes, mesh)
+	}
+
 	ch = make(chan *bvInfo)
 	go func() {
-		job := in.GetNewJobRequest()
-		var base *stl.STL
-		for i, stlFile := range job.GetStlFiles() {
-			stlMesh, err := stl.New(stlFile, job.GetDim(), job.GetNX(), job.GetNY(), job.GetNZ())
-			if err != nil {
-				log.Fatalf("stl.New: %v", err)
-			}
-			if i == 0 {
-				base = stlMesh
-			}
-			log.Printf("generateMR: i=%v, %v triangles", i, len(stlMesh.Mesh.Triangles))
+		for i, mesh := range meshes {
+			log.Printf("generateMR: i=%v, %v triangles", i, len(mesh.Triangles))
 
 			// Now dice it up.
 			for zi := 0; zi < int(job.GetNZ()); zi++ {
@@ -140,7 +151,7 @@ func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
 								Scale: float64(max(n[0], n[1], n[2])) * base.MMPV,
 							},
 							base: i == 0,
-							mesh: stlMesh.Mesh,
+							mesh: mesh,
 						}
 
 						log.Printf("generateMR: sending STL #%v to mapper", i)
diff --git a/stl2svx/stl/stl.go b/stl2svx/stl/stl.go
index f7c7f77..2617941 100644
--- a/stl2svx/stl/stl.go
+++ b/stl2svx/stl/stl.go
@@ -24,18 +24,42 @@ type STL struct {
 	MMPV float64
 }
 
-// New parses a pb.STLFile and returns an STL.
-// dim represents the number of voxels in the widest dimension.
-// nX, nY, nZ represent the number of subdivisions in each dimension.
-func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
+// maxDim is the largest supported number of voxels in the widest dimension.
+const maxDim = 1 << 15
+
+// NewMesh parses a pb.STLFile and returns its mesh.
+func NewMesh(p *pb.STLFile) (*gl.Mesh, error) {
 	var tris []*gl.Triangle
 	for _, t := range p.GetTriangles() {
+		for _, v := range []*pb.Vertex{t.GetV1(), t.GetV2(), t.GetV3()} {
+			if v == nil {
+				return nil, fmt.Errorf("triangle without a vertex")
+			}
+			for _, c := range []float64{v.X, v.Y, v.Z} {
+				if math.IsNaN(c) || math.Abs(c) > math.MaxFloat32 { // STL files use float32
+					return nil, fmt.Errorf("bad vertex (%v,%v,%v)", v.X, v.Y, v.Z)
+				}
+			}
+		}
 		tris = append(tris, gl.NewTriangleForPoints(
 			gl.V(t.V1.X, t.V1.Y, t.V1.Z),
 			gl.V(t.V2.X, t.V2.Y, t.V2.Z),
 			gl.V(t.V3.X, t.V3.Y, t.V3.Z)))
 	}
-	mesh := gl.NewTriangleMesh(tris)
+	return gl.NewTriangleMesh(tris), nil
+}
+
+// New parses a pb.STLFile and returns an STL.
+// dim represents the number of voxels in the widest dimension.
+// nX, nY, nZ represent the number of subdivisions in each dimension.
+func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
+	if dim < 1 || dim > maxDim || nX < 1 || nY < 1 || nZ < 1 {
+		return nil, fmt.Errorf("bad dimension %v or divisions (%v,%v,%v)", dim, nX, nY, nZ)
+	}
+	mesh, err := NewMesh(p)
+	if err != nil {
+		return nil, err
+	}
 	mbb := mesh.BoundingBox()
 
 	scale := mbb.Max.X - mbb.Min.X
@@ -45,6 +69,9 @@ func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
 	if dz := mbb.Max.Z - mbb.Min.Z; dz > scale {
 		scale = dz
 	}
+	if scale <= 0 || math.IsInf(float64(dim)/scale, 0) {
+		return nil, fmt.Errorf("model is too small: size = %v", scale)
+	}
 	vpmm := float64(dim) / scale // voxels per millimeter
 	mmpv := 1.0 / vpmm           // millimeters per voxel
 	modelDimInMM := mbb.Size()
-- 
2.43.0


From da45e34f9076fc91e0545160a6c5f02b9180a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 29/52] fix: SVX images had another size than the grid in the
 manifest

---
 stl2svx/agent/agent.go   | 32 +++++++++++++++-----------------
 stl2svx/master/master.go |  2 +-
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/stl2svx/agent/agent.go b/stl2svx/agent/agent.go
index c1b5b5f..7f56176 100644
--- a/stl2svx/agent/agent.go
+++ b/stl2svx/agent/agent.go
@@ -57,7 +57,7 @@ func New(ctx context.Context, address, masterAddress string) (*agent, error) {
 func (m *agent) SliceJob(ctx context.Context, in *pb.SliceJobRequest) (resp *pb.SliceJobResponse, imErr error) {
 	log.Printf("Agent processing slice z=%v...", in.GetZ())
 
-	ch, err := generateMR(in)
+	ch, base, err := generateMR(in)
 	if err != nil {
 		return nil, err
 	}
@@ -66,7 +66,7 @@ func (m *agent) SliceJob(ctx context.Context, in *pb.SliceJobRequest) (resp *pb.
 	var wg sync.WaitGroup
 	wg.Add(1)
 	go func() {
-		resp, imErr = imager(in, vxCh)
+		resp, imErr = imager(in, base, vxCh)
 		wg.Done()
 	}()
 
@@ -95,23 +95,23 @@ type bvInfo struct {
 // be performed by each mapper. It also sends all the data each mapper needs
 // through the provided channel.
 // dimZ is the number of agents needed to output the images.
-func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
+func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, base *stl.STL, err error) {
 	job := in.GetNewJobRequest()
 	if len(job.GetStlFiles()) == 0 {
-		return nil, fmt.Errorf("must pass at least one STL file")
+		return nil, nil, fmt.Errorf("must pass at least one STL file")
 	}
-	base, err := stl.New(job.GetStlFiles()[0], job.GetDim(), job.GetNX(), job.GetNY(), job.GetNZ())
+	base, err = stl.New(job.GetStlFiles()[0], job.GetDim(), job.GetNX(), job.GetNY(), job.GetNZ())
 	if err != nil {
-		return nil, fmt.Errorf("stl.New: %v", err)
+		return nil, nil, fmt.Errorf("stl.New: %v", err)
 	}
 	if z := in.GetZ(); z < 0 || z >= int64(base.ModelDimZ) {
-		return nil, fmt.Errorf("slice z=%v is not part of the model", z)
+		return nil, nil, fmt.Errorf("slice z=%v is not part of the model", z)
 	}
 	meshes := []*gl.Mesh{base.Mesh}
 	for _, stlFile := range job.GetStlFiles()[1:] {
 		mesh, err := stl.NewMesh(stlFile)
 		if err != nil {
-			return nil, fmt.Errorf("stl.NewMesh: %v", err)
+			return nil, nil, fmt.Errorf("stl.NewMesh: %v", err)
 		}
 		meshes = append(meshes, mesh)
 	}
@@ -162,7 +162,7 @@ func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
 		}
 		close(ch)
 	}()
-	return ch, nil
+	return ch, base, nil
 }
 
 type voxelInfo struct {
@@ -215,28 +215,26 @@ type pixelKey struct {
 // imager takes the voxels from voxelize and creates
 // a 2D image at the provided z height.
 // It outputs an image to disk.
-func imager(in *pb.SliceJobRequest, ch <-chan voxelInfo) (*pb.SliceJobResponse, error) {
-	job := in.GetNewJobRequest()
+func imager(in *pb.SliceJobRequest, base *stl.STL, ch <-chan voxelInfo) (*pb.SliceJobResponse, error) {
 	z := in.GetZ()
 	log.Printf("imager: z=%v", z)
 	pixels := make(map[pixelKey]bool)
 	for value := range ch {
-		base := value.Base
+		isBase := value.Base
 		// k := pixelKey{value.X, value.Y}
-		k := pixelKey{value.X, int(job.GetDim()) - 1 - value.Y} // mirror the Y axis
+		k := pixelKey{value.X, base.ModelDimY - 1 - value.Y} // mirror the Y axis
 		if v, ok := pixels[k]; ok {
 			if v {
-				pixels[k] = base
+				pixels[k] = isBase
 			}
 		} else {
-			pixels[k] = base
+			pixels[k] = isBase
 		}
 	}
 	log.Printf("imager(%v): processed %v voxels", z, len(pixels))
 
 	// Convert collected pixels into an image.
-	sz := int(job.GetDim())
-	rect := image.Rect(0, 0, sz+2, sz+2)
+	rect := image.Rect(0, 0, base.ModelDimX+2, base.ModelDimY+2)
 	img := image.NewGray(rect)
 	// Shapeways requires a single pixel boundary in every dimension!!!
 	draw.Draw(img, rect, image.Black, image.ZP, draw.Over)
diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index 301b4f6..d371a73 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -187,7 +187,7 @@ func (s *svx) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 
 func (s *svx) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
 	// For Shapeways, create a black base and a black top.
-	rect := image.Rect(0, 0, int(in.GetDim()+2), int(in.GetDim()+2))
+	rect := image.Rect(0, 0, base.ModelDimX+2, base.ModelDimY+2)
 	img := image.NewGray(rect)
 	draw.Draw(img, rect, image.Black, image.ZP, draw.Over)
 	s.zmu.Lock()
-- 
2.43.0


From 81761fe9951d655d87f1dc8f4d7fd9a5d1808136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 30/52] fix: manifold mesh of two cell configurations was
 turned upside down

---
 binvox/manifold.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binvox/manifold.go b/binvox/manifold.go
index 7213aa7..2f95659 100644
--- a/binvox/manifold.go
+++ b/binvox/manifold.go
@@ -439,9 +439,9 @@ func grid2tris(k Key, n neighborBitMap, v2v voxelToVectorFunc) (tris []*gl.Trian
 	case g1 | g2 | g3 | g4 | g5: // (inverse = g067 = case g0 | g6 | g7:)
 		return apply(k, mirrorZ(v2v), g234)
 	case g1 | g6 | g7: // (inverse = g02345 = case g0 | g2 | g3 | g4 | g5:)
-		return apply(k, mirrorX(v2v), flipNormals(g234))
+		return apply(k, mirrorX(mirrorZ(v2v)), g234)
 	case g0 | g2 | g3 | g4 | g5: // (inverse = g167 = case g1 | g6 | g7:)
-		return apply(k, mirrorX(v2v), g234)
+		return apply(k, mirrorX(mirrorZ(v2v)), flipNormals(g234))
 	case g0 | g1 | g6: // (inverse = g23457 = case g2 | g3 | g4 | g5 | g7:)
 		return apply(k, rotateTris180Z(v2v), g234)
 	case g2 | g3 | g4 | g5 | g7: // (inverse = g016 = case g0 | g1 | g6:)
-- 
2.43.0


From c3e40e9226d4bee51b18a4814afe1bd92d57a468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 31/52] fix: merging a model before the shell at an inexact
 offset moved the voxels of the shell

---
 vshell/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index f414cf3..fe57609 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -150,7 +150,7 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 		if d >= 0 {
 			return d, 0
 		}
-		*vsT = bvT
+		*vsT += float64(d) / vpmm // Keep the current voxels where they are.
 		return 0, -d
 	}
 	dx, ox := adjust(&vs.TX, bv.TX)
-- 
2.43.0


From c20ec934e297ef10cf76544a09c7ba073425c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 32/52] fix: vshell.New ignored a model with only color voxels

---
 vshell/vshell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vshell/vshell.go b/vshell/vshell.go
index 36dfca2..8f76fc5 100644
--- a/vshell/vshell.go
+++ b/vshell/vshell.go
@@ -58,7 +58,7 @@ func New(bv *binvox.BinVOX) (*VShell, error) {
 		TX: bv.TX, TY: bv.TY, TZ: bv.TZ,
 		Scale: bv.Scale,
 	}
-	if len(bv.WhiteVoxels) > 0 {
+	if len(bv.WhiteVoxels) > 0 || len(bv.ColorVoxels) > 0 {
 		if err := vs.Add(bv); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 83d09eee28b29f0bbb32d10590e9ff0c7170a344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 33/52] fix: voxcut-dice printed or ran commands forever for a
 size of zero

---
 cmd/voxcut-dice/voxcut-dice.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/voxcut-dice/voxcut-dice.go b/cmd/voxcut-dice/voxcut-dice.go
index 41afde7..646e62e 100644
--- a/cmd/voxcut-dice/voxcut-dice.go
+++ b/cmd/voxcut-dice/voxcut-dice.go
@@ -36,6 +36,10 @@ func main() {
 		log.Fatal("Must specify at least one of -obinvox, -ostl, or -ovox")
 	}
 
+	if *size <= 0 {
+		log.Fatalf("size (%v) must be positive", *size)
+	}
+
 	base, err := binvox.Read(flag.Arg(0), 0, 0, 0, 1, 1, 1) // Read only one voxel to get the header info.
 	if err != nil {
 		log.Fatal(err)
-- 
2.43.0


From 19724fb73dff42db06ab9e0fee9a212cb1be197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 34/52] fix: Voxelize cut triangles wrongly that have a vertex
 on the plane of a layer

---
 binvox/voxelize.go | 54 +++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index 659e913..cb595be 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -106,17 +106,30 @@ func (b *BinVOX) VoxelizeZ(mesh *gl.Mesh, zi int) error {
 
 func (b *BinVOX) voxelizeZ(mesh *gl.Mesh, zi int, dz, vpmm float64, setVoxelFunc func(k Key)) {
 	// log.Printf("voxelizeZ(%v): %v triangles, dz=%v, vpmm=%v", zi, len(mesh.Triangles), dz, vpmm)
-	set := make(setMap)
 	z := b.TZ + (0.5+float64(zi))*dz
 	// log.Printf("voxelizeZ(%v): horizontal slice @ z=%v", zi, z)
-	pairs := intersectZPlane(mesh, z)
-	// log.Printf("voxelizeZ(%v): got %v intersection pairs", zi, len(pairs))
+	b.voxelizeSection(mesh, zi, z, dz, vpmm, setVoxelFunc, func(v gl.Vector) bool { return v.Z >= z })
+	for _, t := range mesh.Triangles {
+		if t.V1.Position.Z == z || t.V2.Position.Z == z || t.V3.Position.Z == z {
+			// The sections just below and just above the plane may differ.
+			b.voxelizeSection(mesh, zi, z, dz, vpmm, setVoxelFunc, func(v gl.Vector) bool { return v.Z > z })
+			break
+		}
+	}
+}
+
+// voxelizeSection voxelizes the section of the mesh by the z-plane.
+// above tells which vertices are above the plane.
+func (b *BinVOX) voxelizeSection(mesh *gl.Mesh, zi int, z, dz, vpmm float64, setVoxelFunc func(k Key), above func(gl.Vector) bool) {
+	set := make(setMap)
+	pairs := intersectZPlane(mesh, z, above)
+	// log.Printf("voxelizeSection(%v): got %v intersection pairs", zi, len(pairs))
 	xMinMax := make(xMinMaxMap)
 	for _, pair := range pairs {
-		// log.Printf("voxelizeZ(%v): pair=%#v", zi, pair)
+		// log.Printf("voxelizeSection(%v): pair=%#v", zi, pair)
 		b.rasterizeShellPair(pair, zi, z, dz, vpmm, set, xMinMax)
 	}
-	// log.Printf("voxelizeZ(%v): flood filling %v raster lines", zi, len(xMinMax))
+	// log.Printf("voxelizeSection(%v): flood filling %v raster lines", zi, len(xMinMax))
 	b.floodFill(zi, set, setVoxelFunc, xMinMax)
 }
 
@@ -128,9 +141,9 @@ type intersectionPair struct {
 }
 
 // intersectZPlane returns intersections between the mesh and the Z-plane at z.
-func intersectZPlane(mesh *gl.Mesh, z float64) (result []*intersectionPair) {
+func intersectZPlane(mesh *gl.Mesh, z float64, above func(gl.Vector) bool) (result []*intersectionPair) {
 	for _, t := range mesh.Triangles {
-		if v, ok := intersectTriZPlane(t, z); ok {
+		if v, ok := intersectTriZPlane(t, z, above); ok {
 			result = append(result, v)
 		}
 	}
@@ -138,13 +151,13 @@ func intersectZPlane(mesh *gl.Mesh, z float64) (result []*intersectionPair) {
 }
 
 // intersectTriZPlane returns an intersection between a triangle and the z-plane.
-func intersectTriZPlane(t *gl.Triangle, z float64) (*intersectionPair, bool) {
-	v1, ok1 := intersectSegment(t.V1.Position, t.V2.Position, z)
-	v2, ok2 := intersectSegment(t.V2.Position, t.V3.Position, z)
+func intersectTriZPlane(t *gl.Triangle, z float64, above func(gl.Vector) bool) (*intersectionPair, bool) {
+	v1, ok1 := intersectSegment(t.V1.Position, t.V2.Position, z, above)
+	v2, ok2 := intersectSegment(t.V2.Position, t.V3.Position, z, above)
 	if ok1 && ok2 {
 		return &intersectionPair{v1: v1, v2: v2, tri: t}, true
 	}
-	v3, ok3 := intersectSegment(t.V3.Position, t.V1.Position, z)
+	v3, ok3 := intersectSegment(t.V3.Position, t.V1.Position, z, above)
 	if ok1 && ok3 {
 		return &intersectionPair{v1: v1, v2: v3, tri: t}, true
 	}
@@ -155,20 +168,17 @@ func intersectTriZPlane(t *gl.Triangle, z float64) (*intersectionPair, bool) {
 }
 
 // intersectSegment returns an intersection between two points and the z-plane.
-func intersectSegment(v0, v1 gl.Vector, z float64) (gl.Vector, bool) {
-	u := v1.Sub(v0)
-	w := v0.Sub(gl.V(0, 0, z))
-	d := gl.V(0, 0, 1).Dot(u)
-	n := gl.V(0, 0, -1).Dot(w)
-	if d > -epsilon && d < epsilon {
+// The intersection does not depend on the order of the points, so that
+// neighboring triangles meet at exactly the same point.
+func intersectSegment(v0, v1 gl.Vector, z float64, above func(gl.Vector) bool) (gl.Vector, bool) {
+	if above(v0) == above(v1) {
 		return gl.Vector{}, false
 	}
-	t := n / d
-	if t < 0 || t > 1 {
-		return gl.Vector{}, false
+	if above(v0) {
+		v0, v1 = v1, v0
 	}
-	v := v0.Add(u.MulScalar(t))
-	return v, true
+	t := (z - v0.Z) / (v1.Z - v0.Z)
+	return v0.Add(v1.Sub(v0).MulScalar(t)), true
 }
 
 // firstOctantBressenham implements the Bressenham line drawing algorithm in the first octant.
-- 
2.43.0


From edeccf724562096a791b35af6cd28855e97f86ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 35/52] fix: Voxelize filled gaps or left holes next to walls
 thinner than a voxel and where solids overlap

---
 binvox/voxelize.go | 68 +++++++++++++++++-----------------------------
 1 file changed, 25 insertions(+), 43 deletions(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index cb595be..43578e7 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -11,18 +11,9 @@ import (
 
 const epsilon = 1e-9
 
-// setMap respresents the voxel shell of mesh intersections.
-type setMap map[Key][]*gl.Triangle
-
-// addTri adds a triangle to the set if it has not already been added.
-func (s setMap) addTri(k Key, tri *gl.Triangle) {
-	for _, t := range s[k] {
-		if t == tri {
-			return
-		}
-	}
-	s[k] = append(s[k], tri)
-}
+// setMap respresents the voxel shell of mesh intersections. The value is how much
+// the winding number of the mesh changes at the voxel, in the middle of its row.
+type setMap map[Key]int
 
 // Voxelize voxelizes a subregion of the mesh using (b.TX,b.TY,b.TZ) as the origin.
 // The voxelized subregion will be: (0,0,0)-(b.NX-1,b.NY-1,b.NZ-1) (inclusive).
@@ -210,7 +201,7 @@ func (b *BinVOX) rasterizeShellPair(pair *intersectionPair, zi int, z, dz, vpmm
 		if y >= 0 && y < b.NY {
 			k := Key{x, y, zi}
 			xMinMax.update(x, y)
-			set.addTri(k, pair.tri)
+			set[k] += 0
 		}
 	}
 
@@ -243,6 +234,23 @@ func (b *BinVOX) rasterizeShellPair(pair *intersectionPair, zi int, z, dz, vpmm
 		// log.Printf("dx=%v, dy=%v, 8th octant", dx, dy)
 		firstOctantBressenham(x1i, -y1i, x2i, -y2i, func(x, y int) { plotFunc(x, -y) })
 	}
+
+	// Find where the mesh is entered and left along the middle of each row of voxels.
+	winding := 1
+	if pair.tri.Normal().X > 0 {
+		winding = -1
+	}
+	x1, y1 := vpmm*(pair.v1.X-b.TX), vpmm*(pair.v1.Y-b.TY)
+	x2, y2 := vpmm*(pair.v2.X-b.TX), vpmm*(pair.v2.Y-b.TY)
+	for y := max(min(y1i, y2i), 0); y <= min(max(y1i, y2i), b.NY-1); y++ {
+		yc := float64(y) + 0.5
+		if (y1 < yc) == (y2 < yc) {
+			continue
+		}
+		x := int(math.Floor(x1 + (x2-x1)*(yc-y1)/(y2-y1)))
+		xMinMax.update(x, y)
+		set[Key{x, y, zi}] += winding
+	}
 }
 
 // minMax holds the min and max x values.
@@ -272,41 +280,15 @@ func (b *BinVOX) floodFill(zi int, set setMap, setVoxelFunc func(k Key), xMinMax
 	for yi, mm := range xMinMax { // yi >= 0 && yi < b.NY
 		wg.Add(1)
 		go func(yi, min, max int) {
-			var inside bool
-			seenTris := make(map[*gl.Triangle]struct{}) // Only process each triangle once.
+			var winding int // positive inside of the mesh
 			for xi := min; xi <= max; xi++ {
 				if xi >= b.NX { // Don't care past the subregion of interest.
 					break
 				}
 				k := Key{xi, yi, zi}
-				if len(set[k]) > 0 { // triangles intersect this voxel.
-					if xi >= 0 {
-						setVoxelFunc(k)
-					}
-					var inCount, outCount int
-					for _, tri := range set[k] {
-						if _, ok := seenTris[tri]; ok {
-							continue
-						}
-						seenTris[tri] = struct{}{}
-						switch d := tri.V1.Normal.Dot(gl.V(-1, 0, 0)); {
-						case d > epsilon:
-							inCount++
-						case d < -epsilon:
-							outCount++
-						default:
-						}
-					}
-					switch {
-					case inCount > outCount:
-						inside = true
-					case inCount < outCount:
-						inside = false
-						// otherwise, keep previous value
-					}
-					continue
-				}
-				if inside && xi >= 0 {
+				change, shell := set[k]
+				winding += change
+				if (shell || winding > 0) && xi >= 0 {
 					setVoxelFunc(k)
 				}
 			}
-- 
2.43.0


From 0569ac3836a342759921b3c0e2bae1560193e87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 36/52] fix: stldice refuses a resolution or divisions below
 one

---
 cmd/stldice/stldice.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index de4c502..84f9372 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -44,6 +44,9 @@ func main() {
 	if flag.NArg() < 1 {
 		log.Fatal("Must supply at least one filename")
 	}
+	if *dim < 1 || *nX < 1 || *nY < 1 || *nZ < 1 {
+		log.Fatal("dim, nx, ny, and nz must be positive")
+	}
 	if *dim%*nX != 0 || *dim%*nY != 0 || *dim%*nZ != 0 {
 		log.Fatal("dim must be an integral multiple of nx, ny, and nz")
 	}
-- 
2.43.0


From 257b33418f54502cc78dfafd46ab33daf894e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:22 +0000
Subject: [PATCH 37/52] fix: damaged STL files are refused

---
 cmd/stldice/stldice.go                   |  3 ++-
 stl/stl.go                               | 30 +++++++++++++++++++++++-
 stl2svx/stl2svx-client/stl2svx-client.go |  4 ++--
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 84f9372..87c0c92 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -20,6 +20,7 @@ import (
 
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/stl"
 )
 
 var (
@@ -64,7 +65,7 @@ func main() {
 	prefixes := map[string]bool{}
 	for _, arg := range flag.Args() {
 		log.Printf("Loading file %q...", arg)
-		mesh, err := gl.LoadSTL(arg)
+		mesh, err := stl.Load(arg)
 		if err != nil {
 			log.Fatalf("Unable to load file %q: %v", arg, err)
 		}
diff --git a/stl/stl.go b/stl/stl.go
index 1c791f4..d5df1fe 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -2,8 +2,10 @@
 package stl
 
 import (
+	"bytes"
 	"fmt"
 	"log"
+	"os"
 	"sync"
 
 	gl "github.com/fogleman/fauxgl"
@@ -54,7 +56,7 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 
 // merge merges STL files using the provided addFunc.
 func merge(filename string, addFunc func(mesh *gl.Mesh)) error {
-	mesh, err := gl.LoadSTL(filename)
+	mesh, err := Load(filename)
 	if err != nil {
 		return err
 	}
@@ -62,3 +64,29 @@ func merge(filename string, addFunc func(mesh *gl.Mesh)) error {
 	addFunc(mesh)
 	return nil
 }
+
+// Load reads an STL file. It returns an error for a damaged file, which
+// gl.LoadSTL can panic on or take for an ASCII file without any triangles.
+func Load(filename string) (mesh *gl.Mesh, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			mesh, err = nil, fmt.Errorf("%v: damaged STL file: %v", filename, r)
+		}
+	}()
+
+	mesh, err = gl.LoadSTL(filename)
+	if err != nil {
+		return nil, fmt.Errorf("%v: %w", filename, err)
+	}
+	if len(mesh.Triangles) == 0 {
+		const headerSize = 84 // all there is in a binary file without triangles
+		buf, err := os.ReadFile(filename)
+		if err != nil {
+			return nil, err
+		}
+		if len(buf) != headerSize && !bytes.Contains(buf, []byte("endsolid")) {
+			return nil, fmt.Errorf("%v: damaged STL file", filename)
+		}
+	}
+	return mesh, nil
+}
diff --git a/stl2svx/stl2svx-client/stl2svx-client.go b/stl2svx/stl2svx-client/stl2svx-client.go
index ee60034..de01d0f 100644
--- a/stl2svx/stl2svx-client/stl2svx-client.go
+++ b/stl2svx/stl2svx-client/stl2svx-client.go
@@ -11,7 +11,7 @@ import (
 	"path/filepath"
 	"strings"
 
-	gl "github.com/fogleman/fauxgl"
+	stlfile "github.com/gmlewis/stldice/v4/stl"
 	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
 	"golang.org/x/net/context"
 	"google.golang.org/grpc"
@@ -79,7 +79,7 @@ func main() {
 func loadSTL(args []string) (out []*pb.STLFile, err error) {
 	for i, arg := range args {
 		log.Printf("loadSTL: loading file #%v: %v ...", i, arg)
-		mesh, err := gl.LoadSTL(arg)
+		mesh, err := stlfile.Load(arg)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 988045aa7438dccf52083750d1dd9d44a0156250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:22 +0000
Subject: [PATCH 38/52] fix: merge-stl recognises its earlier output under any
 prefix

---
 cmd/merge-stl/merge-stl.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cmd/merge-stl/merge-stl.go b/cmd/merge-stl/merge-stl.go
index f76d24d..4e90ca2 100644
--- a/cmd/merge-stl/merge-stl.go
+++ b/cmd/merge-stl/merge-stl.go
@@ -31,18 +31,19 @@ func main() {
 		log.Fatalf("No files found matching %v*.stl", *prefix)
 	}
 	outFile := *prefix + ".stl"
-	var newFiles []string
-	for _, f := range files { // Quick sanity check
-		if f != outFile {
-			newFiles = append(newFiles, f)
-			continue
-		}
+	if _, err := os.Lstat(outFile); !os.IsNotExist(err) { // Quick sanity check
 		if *force {
 			log.Printf("%v already exists. Overwriting due to -f flag.", outFile)
 		} else {
 			log.Fatalf("%v already exists. To overwrite, use -f flag.", outFile)
 		}
 	}
+	var newFiles []string
+	for _, f := range files {
+		if filepath.Clean(f) != filepath.Clean(outFile) { // Glob can clean the names
+			newFiles = append(newFiles, f)
+		}
+	}
 
 	if len(newFiles) == 0 {
 		log.Fatalf("No files found to merge matching %v*.stl", *prefix)
-- 
2.43.0


From f32ec87bc29deaf67ca697b1843d9bcb68ab7307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:22 +0000
Subject: [PATCH 39/52] fix: a failure to write the end of an STL file is
 reported

---
 cmd/manifold-mesh/manifold-mesh.go   |  3 ++-
 cmd/marching-cubes/marching-cubes.go |  3 ++-
 cmd/merge-stl/merge-stl.go           |  2 +-
 cmd/svx2stl/main.go                  |  3 ++-
 cmd/voxcut/voxcut.go                 |  3 ++-
 stl/stl.go                           | 36 ++++++++++++++++++++++++++++
 6 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/cmd/manifold-mesh/manifold-mesh.go b/cmd/manifold-mesh/manifold-mesh.go
index 75cde21..0a54825 100644
--- a/cmd/manifold-mesh/manifold-mesh.go
+++ b/cmd/manifold-mesh/manifold-mesh.go
@@ -13,6 +13,7 @@ import (
 	"os"
 
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/stl"
 )
 
 func main() {
@@ -35,7 +36,7 @@ func main() {
 
 	mesh := model.ManifoldMesh()
 	log.Printf("Writing file %q...", stlFile)
-	if err := mesh.SaveSTL(stlFile); err != nil {
+	if err := stl.Save(stlFile, mesh); err != nil {
 		log.Fatalf("SaveSTL: %v", err)
 	}
 
diff --git a/cmd/marching-cubes/marching-cubes.go b/cmd/marching-cubes/marching-cubes.go
index 694c738..386be88 100644
--- a/cmd/marching-cubes/marching-cubes.go
+++ b/cmd/marching-cubes/marching-cubes.go
@@ -14,6 +14,7 @@ import (
 	"path/filepath"
 
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/stl"
 )
 
 func main() {
@@ -36,7 +37,7 @@ func main() {
 
 	mesh := model.MarchingCubes()
 	log.Printf("Writing file %q...", stlFile)
-	if err := mesh.SaveSTL(stlFile); err != nil {
+	if err := stl.Save(stlFile, mesh); err != nil {
 		log.Fatalf("SaveSTL: %v", err)
 	}
 
diff --git a/cmd/merge-stl/merge-stl.go b/cmd/merge-stl/merge-stl.go
index 4e90ca2..c215771 100644
--- a/cmd/merge-stl/merge-stl.go
+++ b/cmd/merge-stl/merge-stl.go
@@ -55,7 +55,7 @@ func main() {
 		log.Fatalf("Merge: %v", err)
 	}
 
-	if err := mesh.SaveSTL(outFile); err != nil {
+	if err := stl.Save(outFile, mesh); err != nil {
 		log.Fatalf("SaveSTL: %v", err)
 	}
 
diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 68cfa38..ddf6df1 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -22,6 +22,7 @@ import (
 	"strings"
 
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/stl"
 )
 
 func main() {
@@ -41,7 +42,7 @@ func main() {
 
 		mesh := model.MarchingCubes()
 		log.Printf("Writing file %q...", stlFile)
-		if err := mesh.SaveSTL(stlFile); err != nil {
+		if err := stl.Save(stlFile, mesh); err != nil {
 			log.Fatalf("SaveSTL: %v", err)
 		}
 	}
diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index 7e37f35..fad6697 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -25,6 +25,7 @@ import (
 
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/stl"
 )
 
 var (
@@ -116,7 +117,7 @@ func main() {
 		}
 
 		log.Printf("Writing file %v ...", *stlFile)
-		if err := mesh.SaveSTL(*stlFile); err != nil {
+		if err := stl.Save(*stlFile, mesh); err != nil {
 			log.Fatalf("SaveSTL: %v", err)
 		}
 	}
diff --git a/stl/stl.go b/stl/stl.go
index d5df1fe..927ae58 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -2,7 +2,9 @@
 package stl
 
 import (
+	"bufio"
 	"bytes"
+	"encoding/binary"
 	"fmt"
 	"log"
 	"os"
@@ -90,3 +92,37 @@ func Load(filename string) (mesh *gl.Mesh, err error) {
 	}
 	return mesh, nil
 }
+
+// Save writes the mesh to a binary STL file. In contrast to gl.SaveSTL,
+// it returns an error when the end of the file cannot be written.
+func Save(filename string, mesh *gl.Mesh) error {
+	f, err := os.Create(filename)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+	w := bufio.NewWriter(f)
+
+	header := gl.STLHeader{Count: uint32(len(mesh.Triangles))}
+	if err := binary.Write(w, binary.LittleEndian, &header); err != nil {
+		return err
+	}
+	vec := func(v gl.Vector) [3]float32 {
+		return [3]float32{float32(v.X), float32(v.Y), float32(v.Z)}
+	}
+	for _, t := range mesh.Triangles {
+		d := gl.STLTriangle{
+			N:  vec(t.Normal()),
+			V1: vec(t.V1.Position),
+			V2: vec(t.V2.Position),
+			V3: vec(t.V3.Position),
+		}
+		if err := binary.Write(w, binary.LittleEndian, &d); err != nil {
+			return err
+		}
+	}
+	if err := w.Flush(); err != nil {
+		return err
+	}
+	return f.Close()
+}
-- 
2.43.0


From 3bd152b7edc963a8481cc033846beb7b079e4ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:20 +0000
Subject: [PATCH 40/52] fix: an agent that works on a slice of a canceled or
 failed job is not idle

---
 stl2svx/master/master.go | 44 ++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index d371a73..f317e74 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -101,21 +101,11 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, s *svx, z i
 			return err
 		}
 		log.Printf("Assigning agent %v to slice z=%v", address, z)
-		conn, err := grpc.Dial(address, grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxSize)), grpc.WithDefaultCallOptions(grpc.MaxCallSendMsgSize(maxSize)))
-		if err != nil {
-			log.Printf("Unable to communicate with agent %v, finding another...", address)
-			continue
-		}
-		c := pb.NewAgentClient(conn)
-		resp, err = c.SliceJob(ctx, req)
-		conn.Close()
+		resp, err = m.sliceJob(ctx, address, req)
 		if status.Code(err) == codes.Unavailable {
 			log.Printf("Lost agent %v, finding another: %v", address, err)
 			continue
 		}
-		m.amu.Lock()
-		m.idleAgents[address] = struct{}{} // Mark agent as idle
-		m.amu.Unlock()
 		if err != nil {
 			log.Printf("Error running SliceJob with agent %v: %v", address, err)
 			return err
@@ -141,6 +131,38 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, s *svx, z i
 	return nil
 }
 
+// sliceJob sends the request to the agent and returns its response, or an
+// error once the context is done. In that case the agent still works on the
+// request, and is marked as idle only after it has answered.
+func (m *master) sliceJob(ctx context.Context, address string, req *pb.SliceJobRequest) (*pb.SliceJobResponse, error) {
+	var resp *pb.SliceJobResponse
+	var err error
+	done := make(chan struct{})
+	go func() {
+		defer close(done)
+		var conn *grpc.ClientConn
+		conn, err = grpc.Dial(address, grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxSize)), grpc.WithDefaultCallOptions(grpc.MaxCallSendMsgSize(maxSize)))
+		if err != nil {
+			err = status.Error(codes.Unavailable, err.Error())
+			return
+		}
+		defer conn.Close()
+		resp, err = pb.NewAgentClient(conn).SliceJob(context.Background(), req)
+		if status.Code(err) == codes.Unavailable {
+			return
+		}
+		m.amu.Lock()
+		m.idleAgents[address] = struct{}{} // Mark agent as idle
+		m.amu.Unlock()
+	}()
+	select {
+	case <-done:
+		return resp, err
+	case <-ctx.Done():
+		return nil, ctx.Err()
+	}
+}
+
 // getIdleAgent sits in a loop waiting for an agent to become idle, then marks it busy and returns its address.
 // It returns an error when the context is done before that.
 func (m *master) getIdleAgent(ctx context.Context) (string, error) {
-- 
2.43.0


From b48996d6598b0787c6e9e10c1698ab2b306f2a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:20 +0000
Subject: [PATCH 41/52] fix: the error field of slice and job responses is not
 ignored

---
 stl2svx/master/master.go                 | 3 +++
 stl2svx/stl2svx-client/stl2svx-client.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index f317e74..622a677 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -110,6 +110,9 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, s *svx, z i
 			log.Printf("Error running SliceJob with agent %v: %v", address, err)
 			return err
 		}
+		if msg := resp.GetError(); msg != "" {
+			return fmt.Errorf("agent %v: %v", address, msg)
+		}
 		break
 	}
 
diff --git a/stl2svx/stl2svx-client/stl2svx-client.go b/stl2svx/stl2svx-client/stl2svx-client.go
index de01d0f..2489604 100644
--- a/stl2svx/stl2svx-client/stl2svx-client.go
+++ b/stl2svx/stl2svx-client/stl2svx-client.go
@@ -66,6 +66,9 @@ func main() {
 	if err != nil {
 		log.Fatalf("master: %v", err)
 	}
+	if msg := resp.GetError(); msg != "" {
+		log.Fatalf("master: %v", msg)
+	}
 
 	outFile := fmt.Sprintf("%v-%v-%v-%v-%v.svx", *prefix, *dim, *nX, *nY, *nZ)
 	log.Printf("Writing SVX file %v ...", outFile)
-- 
2.43.0


From 265ae653d3b5f5e7d7866e6eb00835df30cc0faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:20 +0000
Subject: [PATCH 42/52] fix: the master refuses jobs with a malformed cut file
 at once

---
 stl2svx/master/master.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index 622a677..a676ae4 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -50,6 +50,11 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 	if err != nil {
 		return nil, err
 	}
+	for _, cut := range in.GetStlFiles()[1:] {
+		if _, err := stl.NewMesh(cut); err != nil {
+			return nil, err
+		}
+	}
 
 	var zbuf bytes.Buffer
 	s := &svx{zipFile: zip.NewWriter(&zbuf)}
-- 
2.43.0


From a96e66c859c2d029f279b3294a784dc86689d76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 43/52] fix: the manifest of an SVX file names its images also
 when the prefix has special characters

---
 stl2svx/master/master.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index a676ae4..c00fc91 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -5,11 +5,13 @@ import (
 	"archive/zip"
 	"bytes"
 	"context"
+	"encoding/xml"
 	"fmt"
 	"image"
 	"image/draw"
 	"image/png"
 	"log"
+	"strings"
 	"sync"
 	"time"
 
@@ -205,13 +207,20 @@ func (s *svx) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	if err != nil {
 		return err
 	}
+	// The pattern of the names of the images is that of a printf function.
+	slices := fmt.Sprintf("%v/%v-%v-%v-%v-%v", in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ())
+	slices = strings.Replace(slices, "%", "%%", -1) + "-%04d.png"
+	var slicesXML bytes.Buffer
+	if err := xml.EscapeText(&slicesXML, []byte(slices)); err != nil {
+		return err
+	}
 	fmt.Fprintf(mf, `<?xml version="1.0"?>
 <grid version="1.0" gridSizeX="%v" gridSizeY="%v" gridSizeZ="%v" voxelSize="%v" subvoxelBits="8" originX="%v" originY="%v" originZ="%v" slicesOrientation="Y" >
   <channels>
-    <channel type="DENSITY" bits="8" slices="%v/%v-%v-%v-%v-%v-%%04d.png" />
+    <channel type="DENSITY" bits="8" slices="%v" />
   </channels>
 </grid>
-`, base.ModelDimX+2, base.ModelDimZ+2, base.ModelDimY+2, base.MMPV*1e-3, base.MBB.Min.X, base.MBB.Min.Z, base.MBB.Min.Y, in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ())
+`, base.ModelDimX+2, base.ModelDimZ+2, base.ModelDimY+2, base.MMPV*1e-3, base.MBB.Min.X, base.MBB.Min.Z, base.MBB.Min.Y, slicesXML.String())
 	return nil
 }
 
-- 
2.43.0


From 5394f6ce0c981abc632cb820b923f5b285f32ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:04 +0000
Subject: [PATCH 44/52] fix: svx2stl finds the manifest at any place in the
 archive

---
 cmd/svx2stl/main.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index ddf6df1..d0364d8 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -60,39 +60,48 @@ func read(filename string) (*binvox.BinVOX, error) {
 	}
 	defer r.Close()
 
+	// The manifest is needed for all other files.
 	var sliceNameFmt string
 	for _, f := range r.File {
+		if f.Name != "manifest.xml" {
+			continue
+		}
 		rc, err := f.Open()
 		if err != nil {
-			log.Fatal(err)
+			return nil, fmt.Errorf("open %q: %v", f.Name, err)
+		}
+		model, sliceNameFmt, err = parseManifest(rc)
+		rc.Close()
+		if err != nil {
+			return nil, fmt.Errorf("parseManifest: %v", err)
 		}
+		model.Scale *= float64(model.Dim()) // from the size of a voxel to that of the model
+	}
+	if model == nil {
+		return nil, fmt.Errorf("no manifest.xml in %q", filename)
+	}
 
+	for _, f := range r.File {
 		if f.Name == "manifest.xml" {
-			model, sliceNameFmt, err = parseManifest(rc)
-			if err != nil {
-				return nil, fmt.Errorf("parseManifest: %v", err)
-			}
-			model.Scale *= float64(model.Dim()) // from the size of a voxel to that of the model
-			rc.Close()
 			continue
 		}
-
 		var sliceNum int
 		if n, err := fmt.Sscanf(f.Name, sliceNameFmt, &sliceNum); err != nil || n != 1 {
 			return nil, fmt.Errorf("unable to parse %q using %q", f.Name, sliceNameFmt)
 		}
 
+		rc, err := f.Open()
+		if err != nil {
+			return nil, fmt.Errorf("open %q: %v", f.Name, err)
+		}
 		img, err := png.Decode(rc)
+		rc.Close()
 		if err != nil {
 			return nil, fmt.Errorf("png.Decode: %v", err)
 		}
-		rc.Close()
 
 		scanImage(img, model, sliceNum)
 	}
-	if model == nil {
-		return nil, fmt.Errorf("no manifest.xml in %q", filename)
-	}
 
 	return model, nil
 }
-- 
2.43.0


From d3c7b26fe27977129cc532ee49a4007c8a6e1602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:04 +0000
Subject: [PATCH 45/52] fix: svx2stl reads archives with slice numbers of more
 than four digits

---
 cmd/svx2stl/main.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index d0364d8..e07e7d8 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -19,12 +19,17 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"regexp"
 	"strings"
 
 	"github.com/gmlewis/stldice/v4/binvox"
 	"github.com/gmlewis/stldice/v4/stl"
 )
 
+// widthRE matches the verb of the slice number in the pattern of the slice
+// names; its group is what precedes the flags and the width.
+var widthRE = regexp.MustCompile(`((?:^|[^%])(?:%%)*%)0?[0-9]*d`)
+
 func main() {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, "Usage of %s:\n", filepath.Base(os.Args[0]))
@@ -81,12 +86,15 @@ func read(filename string) (*binvox.BinVOX, error) {
 		return nil, fmt.Errorf("no manifest.xml in %q", filename)
 	}
 
+	// "%04d" prints at least four digits, but would scan four at most.
+	scanFmt := widthRE.ReplaceAllString(sliceNameFmt, "${1}d")
+
 	for _, f := range r.File {
 		if f.Name == "manifest.xml" {
 			continue
 		}
 		var sliceNum int
-		if n, err := fmt.Sscanf(f.Name, sliceNameFmt, &sliceNum); err != nil || n != 1 {
+		if n, err := fmt.Sscanf(f.Name, scanFmt, &sliceNum); err != nil || n != 1 {
 			return nil, fmt.Errorf("unable to parse %q using %q", f.Name, sliceNameFmt)
 		}
 
-- 
2.43.0


From 757ad5086e261e3a06a97b750f30dd1838a225d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:04 +0000
Subject: [PATCH 46/52] fix: an agent that listens on a single or IPv6 address
 registers an address that can be dialed

---
 stl2svx/stl2svx-server/stl2svx-server.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/stl2svx/stl2svx-server/stl2svx-server.go b/stl2svx/stl2svx-server/stl2svx-server.go
index c916a7d..b96f464 100644
--- a/stl2svx/stl2svx-server/stl2svx-server.go
+++ b/stl2svx/stl2svx-server/stl2svx-server.go
@@ -4,9 +4,9 @@ package main
 
 import (
 	"flag"
-	"fmt"
 	"log"
 	"net"
+	"strconv"
 	"strings"
 
 	"github.com/gmlewis/stldice/v4/stl2svx/agent"
@@ -51,8 +51,10 @@ func main() {
 }
 
 func getAddress(tcpAddr *net.TCPAddr) string {
-	localPort := tcpAddr.String()
-	port := strings.Split(localPort, ":")
+	if !tcpAddr.IP.IsUnspecified() {
+		return tcpAddr.String() // it cannot be reached at any other address
+	}
+	port := strconv.Itoa(tcpAddr.Port)
 
 	var result string
 	ifaces, err := net.Interfaces()
@@ -72,7 +74,7 @@ func getAddress(tcpAddr *net.TCPAddr) string {
 				ip = v.IP
 				result = ip.String()
 				if !strings.HasPrefix(result, "127.") && !strings.Contains(result, ":") {
-					return fmt.Sprintf("%v:%v", result, port[len(port)-1])
+					return net.JoinHostPort(result, port)
 				}
 			case *net.IPAddr:
 				ip = v.IP
@@ -81,5 +83,5 @@ func getAddress(tcpAddr *net.TCPAddr) string {
 			log.Printf("got address: %v", result)
 		}
 	}
-	return fmt.Sprintf("%v:%v", result, port[len(port)-1])
+	return net.JoinHostPort(result, port)
 }
-- 
2.43.0


From 1957a317acf29e1a68d4332cd71279d63f852135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:14 +0000
Subject: [PATCH 47/52] fix: binvox-dice: % in a file name is no formatting
 verb

---
 cmd/binvox-dice/binvox-dice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/binvox-dice/binvox-dice.go b/cmd/binvox-dice/binvox-dice.go
index b59255a..fcc699b 100644
--- a/cmd/binvox-dice/binvox-dice.go
+++ b/cmd/binvox-dice/binvox-dice.go
@@ -96,7 +96,7 @@ func main() {
 
 	sFmt := "voxcut -ostl out%[1]v.stl"
 	for _, arg := range flag.Args() {
-		a := strings.TrimSuffix(arg, ".stl")
+		a := strings.ReplaceAll(strings.TrimSuffix(arg, ".stl"), "%", "%%") // sFmt is a format
 		sFmt += " " + a + "%[1]v.binvox"
 	}
 
-- 
2.43.0


From 61ef0058bd09aa4dcd44b447a28951c24d449fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:14 +0000
Subject: [PATCH 48/52] fix: binvox-dice: refuse bounding boxes that are empty
 or not finite

---
 cmd/binvox-dice/binvox-dice.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/binvox-dice/binvox-dice.go b/cmd/binvox-dice/binvox-dice.go
index fcc699b..6e3d57e 100644
--- a/cmd/binvox-dice/binvox-dice.go
+++ b/cmd/binvox-dice/binvox-dice.go
@@ -14,6 +14,7 @@ import (
 	"flag"
 	"fmt"
 	"log"
+	"math"
 	"os"
 	"regexp"
 	"strconv"
@@ -77,6 +78,15 @@ func main() {
 		log.Fatalf("unable to parse mbb %v: %v", parts[6], err)
 	}
 
+	for _, v := range []float64{llx, lly, llz, urx, ury, urz} {
+		if math.IsNaN(v) || math.IsInf(v, 0) {
+			log.Fatalf("mbb %q is not finite", *mbbString)
+		}
+	}
+	if llx >= urx || lly >= ury || llz >= urz {
+		log.Fatalf("mbb %q is empty: its first corner must be below the second one in X, Y, and Z", *mbbString)
+	}
+
 	fmt.Println("#!/bin/bash -x")
 	fmt.Println("# Generated with command line:")
 	fmt.Printf("# binvox-dice \\\n#\t-factor %v \\\n#\t-mbb %q \\\n#\t-subx %v \\\n#\t-suby %v \\\n#\t-subz %v \\\n#\t%v\n", *factor, *mbbString, *subX, *subY, *subZ, strings.Join(flag.Args(), " "))
-- 
2.43.0


From ec3ffe0c9e634080074fd561901dd99d6298fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:15 +0000
Subject: [PATCH 49/52] fix: binvox-dice: refuse a factor below one

---
 cmd/binvox-dice/binvox-dice.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/binvox-dice/binvox-dice.go b/cmd/binvox-dice/binvox-dice.go
index 6e3d57e..72f7b8c 100644
--- a/cmd/binvox-dice/binvox-dice.go
+++ b/cmd/binvox-dice/binvox-dice.go
@@ -49,6 +49,10 @@ func main() {
 		log.Fatal("Must supply at least one filename")
 	}
 
+	if *factor < 1 {
+		log.Fatalf("factor must be at least 1, got %v", *factor)
+	}
+
 	parts := mbbRE.FindStringSubmatch(*mbbString)
 	if len(parts) != 7 {
 		log.Fatalf("Unable to parse mbb %q", *mbbString)
-- 
2.43.0


From 70644df78976f498ba4256383566ff94919a6756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:04 +0000
Subject: [PATCH 50/52] fix: stldice and the SVX service added a layer of
 voxels to models that fit exactly

Rounding errors lifted the size of 5 % of them above the whole number
before it was rounded up, so that a model had one voxel more than -dim says.
---
 cmd/stldice/stldice.go | 7 ++++---
 stl2svx/stl/stl.go     | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 87c0c92..349a217 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -132,9 +132,10 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 	modelDimInMM := mbb.Size()
 	log.Printf("diceMesh(mbb=(%v,%v,%v)-(%v,%v,%v), size=%v, scale=%v, dim=%v, n=[%v,%v,%v], outPrefix=%v); %v voxels per millimeter; %v millimeters per voxel", mbb.Min.X, mbb.Min.Y, mbb.Min.Z, mbb.Max.X, mbb.Max.Y, mbb.Max.Z, modelDimInMM, scale, dim, nx, ny, nz, outPrefix, vpmm, mmpv)
 
-	newModelDimX := int(math.Ceil(modelDimInMM.X * vpmm))
-	newModelDimY := int(math.Ceil(modelDimInMM.Y * vpmm))
-	newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm))
+	const roundingGuard = 1 - 1e-9 // keeps rounding errors from adding a layer to an exact fit
+	newModelDimX := int(math.Ceil(modelDimInMM.X * vpmm * roundingGuard))
+	newModelDimY := int(math.Ceil(modelDimInMM.Y * vpmm * roundingGuard))
+	newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm * roundingGuard))
 	log.Printf("number of voxels needed along each axis to cover entire model: [%v,%v,%v]", newModelDimX, newModelDimY, newModelDimZ)
 
 	// subregion dimensions
diff --git a/stl2svx/stl/stl.go b/stl2svx/stl/stl.go
index 2617941..aa5a260 100644
--- a/stl2svx/stl/stl.go
+++ b/stl2svx/stl/stl.go
@@ -75,9 +75,10 @@ func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
 	vpmm := float64(dim) / scale // voxels per millimeter
 	mmpv := 1.0 / vpmm           // millimeters per voxel
 	modelDimInMM := mbb.Size()
-	newModelDimX := int(math.Ceil(modelDimInMM.X * vpmm))
-	newModelDimY := int(math.Ceil(modelDimInMM.Y * vpmm))
-	newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm))
+	const roundingGuard = 1 - 1e-9 // keeps rounding errors from adding a layer to an exact fit
+	newModelDimX := int(math.Ceil(modelDimInMM.X * vpmm * roundingGuard))
+	newModelDimY := int(math.Ceil(modelDimInMM.Y * vpmm * roundingGuard))
+	newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm * roundingGuard))
 	dimX := newModelDimX / int(nX)
 	dimY := newModelDimY / int(nY)
 	dimZ := newModelDimZ / int(nZ)
-- 
2.43.0


From 4fcbd379b5dc15c97be1de578a454f3dbdaa1b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:15 +0000
Subject: [PATCH 51/52] fix: ASCII STL files that are cut off are refused

gl.LoadSTL returned the triangles up to the end of the file without an error.
---
 stl/stl.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stl/stl.go b/stl/stl.go
index 927ae58..7b9197a 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -68,7 +68,7 @@ func merge(filename string, addFunc func(mesh *gl.Mesh)) error {
 }
 
 // Load reads an STL file. It returns an error for a damaged file, which
-// gl.LoadSTL can panic on or take for an ASCII file without any triangles.
+// gl.LoadSTL can panic on or take for an ASCII file with fewer triangles.
 func Load(filename string) (mesh *gl.Mesh, err error) {
 	defer func() {
 		if r := recover(); r != nil {
@@ -80,13 +80,16 @@ func Load(filename string) (mesh *gl.Mesh, err error) {
 	if err != nil {
 		return nil, fmt.Errorf("%v: %w", filename, err)
 	}
-	if len(mesh.Triangles) == 0 {
-		const headerSize = 84 // all there is in a binary file without triangles
+	fi, err := os.Stat(filename)
+	if err != nil {
+		return nil, err
+	}
+	if binarySize := int64(84 + 50*len(mesh.Triangles)); fi.Size() != binarySize { // read as ASCII
 		buf, err := os.ReadFile(filename)
 		if err != nil {
 			return nil, err
 		}
-		if len(buf) != headerSize && !bytes.Contains(buf, []byte("endsolid")) {
+		if !bytes.Contains(buf, []byte("endsolid")) {
 			return nil, fmt.Errorf("%v: damaged STL file", filename)
 		}
 	}
-- 
2.43.0


From 5e908c4290d343043653392f72b0b7d05208466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:34 +0000
Subject: [PATCH 52/52] fix: stldice, binvox-dice and voxcut-dice report that
 their commands could not be written

A script that was cut off, as by a full disk, came with exit status 0.
---
 cmd/binvox-dice/binvox-dice.go | 17 +++++++++++------
 cmd/stldice/stldice.go         | 15 ++++++++++-----
 cmd/voxcut-dice/voxcut-dice.go |  4 +++-
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/cmd/binvox-dice/binvox-dice.go b/cmd/binvox-dice/binvox-dice.go
index 72f7b8c..9744e46 100644
--- a/cmd/binvox-dice/binvox-dice.go
+++ b/cmd/binvox-dice/binvox-dice.go
@@ -11,6 +11,7 @@
 package main
 
 import (
+	"bufio"
 	"flag"
 	"fmt"
 	"log"
@@ -91,9 +92,10 @@ func main() {
 		log.Fatalf("mbb %q is empty: its first corner must be below the second one in X, Y, and Z", *mbbString)
 	}
 
-	fmt.Println("#!/bin/bash -x")
-	fmt.Println("# Generated with command line:")
-	fmt.Printf("# binvox-dice \\\n#\t-factor %v \\\n#\t-mbb %q \\\n#\t-subx %v \\\n#\t-suby %v \\\n#\t-subz %v \\\n#\t%v\n", *factor, *mbbString, *subX, *subY, *subZ, strings.Join(flag.Args(), " "))
+	out := bufio.NewWriter(os.Stdout)
+	fmt.Fprintln(out, "#!/bin/bash -x")
+	fmt.Fprintln(out, "# Generated with command line:")
+	fmt.Fprintf(out, "# binvox-dice \\\n#\t-factor %v \\\n#\t-mbb %q \\\n#\t-subx %v \\\n#\t-suby %v \\\n#\t-subz %v \\\n#\t%v\n", *factor, *mbbString, *subX, *subY, *subZ, strings.Join(flag.Args(), " "))
 
 	xf := *factor
 	if !*subX {
@@ -124,9 +126,9 @@ func main() {
 			for xi := 0; xi < xf; xi++ {
 				x1 := gl.V(0, 0, llx).Lerp(gl.V(0, 0, urx), float64(xi)/float64(xf)).Z
 				x2 := gl.V(0, 0, llx).Lerp(gl.V(0, 0, urx), float64(xi+1)/float64(xf)).Z
-				fmt.Println()
+				fmt.Fprintln(out)
 				for _, arg := range flag.Args() {
-					fmt.Printf("binvox -pb -d %v -bb %g %g %g %g %g %g %v\n", maxD, x1, y1, z1, x2, y2, z2, arg)
+					fmt.Fprintf(out, "binvox -pb -d %v -bb %g %g %g %g %g %g %v\n", maxD, x1, y1, z1, x2, y2, z2, arg)
 				}
 
 				// Now output the voxcut commands to process all the .binvox files...
@@ -134,10 +136,13 @@ func main() {
 				if numCuts > 0 {
 					c = fmt.Sprintf("_%v", numCuts)
 				}
-				fmt.Printf(sFmt+"\n", c)
+				fmt.Fprintf(out, sFmt+"\n", c)
 
 				numCuts++
 			}
 		}
 	}
+	if err := out.Flush(); err != nil {
+		log.Fatalf("unable to write the commands: %v", err)
+	}
 }
diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 349a217..b48a7d4 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -7,6 +7,7 @@
 package main
 
 import (
+	"bufio"
 	"flag"
 	"fmt"
 	"log"
@@ -98,7 +99,8 @@ func main() {
 	}
 
 	// Print out the commands needed to complete the operation.
-	fmt.Println("#!/bin/bash -x") // Do not use -e due to unwritten (empty) binvox files stopping the script.
+	out := bufio.NewWriter(os.Stdout)
+	fmt.Fprintln(out, "#!/bin/bash -x") // Do not use -e due to unwritten (empty) binvox files stopping the script.
 	var pfxs []string
 	for k := range prefixes {
 		pfxs = append(pfxs, k)
@@ -110,14 +112,17 @@ func main() {
 	}
 	common := fmt.Sprintf("%v-%v-%v-%v", *dim, *nX, *nY, *nZ)
 	for _, v := range pfxs {
-		fmt.Printf("voxcut -ostl %[1]v-%[4]v%[3]v.stl %[2]v-%[4]v%[3]v.binvox", stlOutPrefix, strings.TrimSuffix(flag.Arg(0), ".stl"), v, common)
+		fmt.Fprintf(out, "voxcut -ostl %[1]v-%[4]v%[3]v.stl %[2]v-%[4]v%[3]v.binvox", stlOutPrefix, strings.TrimSuffix(flag.Arg(0), ".stl"), v, common)
 		for _, arg := range flag.Args()[1:] {
-			fmt.Printf(" %v-%v%v.binvox", strings.TrimSuffix(arg, ".stl"), common, v)
+			fmt.Fprintf(out, " %v-%v%v.binvox", strings.TrimSuffix(arg, ".stl"), common, v)
 		}
-		fmt.Println()
+		fmt.Fprintln(out)
 	}
 	if len(pfxs) > 1 { // Merge all the STL files back together
-		fmt.Printf("merge-stl -f -prefix %v-%v\n", stlOutPrefix, common)
+		fmt.Fprintf(out, "merge-stl -f -prefix %v-%v\n", stlOutPrefix, common)
+	}
+	if err := out.Flush(); err != nil {
+		log.Fatalf("Unable to write the commands: %v", err)
 	}
 
 	log.Println("Done.")
diff --git a/cmd/voxcut-dice/voxcut-dice.go b/cmd/voxcut-dice/voxcut-dice.go
index 646e62e..6471605 100644
--- a/cmd/voxcut-dice/voxcut-dice.go
+++ b/cmd/voxcut-dice/voxcut-dice.go
@@ -74,7 +74,9 @@ func main() {
 				args = append(args, flag.Args()...)
 
 				if *dryRun {
-					fmt.Println(strings.Join(args, " "))
+					if _, err := fmt.Println(strings.Join(args, " ")); err != nil {
+						log.Fatalf("Unable to write the command: %v", err)
+					}
 					continue
 				}
 				log.Printf("\n\nRunning: %v", strings.Join(args, " "))
-- 
2.43.0

