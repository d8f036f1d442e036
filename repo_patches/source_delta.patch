From 3ba891f72e4390fbb62b2c1a95a74b7411c10811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 01/57] fix: close the holes ManifoldMesh left in 107 of the
 256 cell configurations

97 configurations had no template and were skipped with a log message, and ten
used a template whose outline does not match that of the neighboring cells.
---
 binvox/manifold.go | 71 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 22 deletions(-)

diff --git a/binvox/manifold.go b/binvox/manifold.go
index 7213aa7..659bbe5 100644
--- a/binvox/manifold.go
+++ b/binvox/manifold.go
@@ -427,42 +427,22 @@ func grid2tris(k Key, n neighborBitMap, v2v voxelToVectorFunc) (tris []*gl.Trian
 		return apply(k, v2v, g0357)
 	case g0 | g1 | g2 | g6 | g7: // (inverse = g345 = case g3 | g4 | g5:)
 		return apply(k, mirrorZ(rotateTrisCounterClockwiseZ(v2v)), flipNormals(g0357))
-	case g3 | g4 | g5: // (inverse = g01267 = case g0 | g1 | g2 | g6 | g7:)
-		return apply(k, mirrorZ(rotateTrisCounterClockwiseZ(v2v)), g0357)
 
 	case g2 | g3 | g4:
 		return apply(k, v2v, g234)
-	case g0 | g1 | g5 | g6 | g7: // (inverse = g234 = case g2 | g3 | g4:)
-		return apply(k, v2v, flipNormals(g234))
 	case g0 | g6 | g7: // (inverse = g12345 = case g1 | g2 | g3 | g4 | g5:)
 		return apply(k, mirrorZ(v2v), flipNormals(g234))
-	case g1 | g2 | g3 | g4 | g5: // (inverse = g067 = case g0 | g6 | g7:)
-		return apply(k, mirrorZ(v2v), g234)
-	case g1 | g6 | g7: // (inverse = g02345 = case g0 | g2 | g3 | g4 | g5:)
-		return apply(k, mirrorX(v2v), flipNormals(g234))
-	case g0 | g2 | g3 | g4 | g5: // (inverse = g167 = case g1 | g6 | g7:)
-		return apply(k, mirrorX(v2v), g234)
 	case g0 | g1 | g6: // (inverse = g23457 = case g2 | g3 | g4 | g5 | g7:)
 		return apply(k, rotateTris180Z(v2v), g234)
-	case g2 | g3 | g4 | g5 | g7: // (inverse = g016 = case g0 | g1 | g6:)
-		return apply(k, rotateTris180Z(v2v), flipNormals(g234))
 	case g0 | g1 | g7: // (inverse = g23456 = case g2 | g3 | g4 | g5 | g6:)
 		return apply(k, rotateTris180Z(mirrorX(v2v)), flipNormals(g234))
-	case g2 | g3 | g4 | g5 | g6: // (inverse = g017 = case g0 | g1 | g7:)
-		return apply(k, rotateTris180Z(mirrorX(v2v)), g234)
 	case g2 | g4 | g5: // (inverse = g01367 = case g0 | g1 | g3 | g6 | g7:)
 		return apply(k, mirrorZ(rotateTris180Z(v2v)), flipNormals(g234))
-	case g0 | g1 | g3 | g6 | g7: // (inverse = g245 = case g2 | g4 | g5:)
-		return apply(k, mirrorZ(rotateTris180Z(v2v)), g234)
 	case g2 | g3 | g5: // (inverse = g01467 = case g0 | g1 | g4 | g6 | g7:)
 		return apply(k, rotateTris180Z(mirrorX(rotateTris180Z(v2v))), flipNormals(g234))
-	case g0 | g1 | g4 | g6 | g7: // (inverse = g235 = case g2 | g3 | g5:)
-		return apply(k, rotateTris180Z(mirrorX(rotateTris180Z(v2v))), g234)
 
 	case g0 | g1 | g6 | g7:
 		return apply(k, v2v, g0167)
-	case g2 | g3 | g4 | g5: // (inverse = g0167 = case g0 | g1 | g6 | g7:)
-		return apply(k, v2v, flipNormals(g0167))
 
 	case g0 | g1 | g5 | g6:
 		return apply(k, v2v, g0156)
@@ -531,12 +511,59 @@ func grid2tris(k Key, n neighborBitMap, v2v voxelToVectorFunc) (tris []*gl.Trian
 	case g0 | g2 | g4 | g5 | g7:
 		return apply(k, rotateTrisCounterClockwiseZ(v2v), g13456)
 
-	default:
-		log.Printf("grid2tris: k=%v: unhandled:\n%v", k, n)
+	default: // no hand-made template
+		return apply(k, v2v, coneTris(n))
 	}
 	return nil
 }
 
+// cellCorners are the locations of the g0-g7 grid points of a cell.
+var cellCorners = [8]gl.Vector{
+	{X: -dd, Y: dd, Z: -dd}, {X: dd, Y: dd, Z: -dd}, {X: dd, Y: -dd, Z: -dd}, {X: -dd, Y: -dd, Z: -dd},
+	{X: -dd, Y: dd, Z: dd}, {X: dd, Y: dd, Z: dd}, {X: dd, Y: -dd, Z: dd}, {X: -dd, Y: -dd, Z: dd},
+}
+
+// cellFaces are the grid points of the six faces of a cell, listed
+// counter-clockwise when looking at the cell from the outside.
+var cellFaces = [6][4]int{{0, 1, 2, 3}, {7, 6, 5, 4}, {4, 5, 1, 0}, {3, 2, 6, 7}, {1, 5, 6, 2}, {0, 3, 7, 4}}
+
+// coneTris returns the triangles for any combination of grid points, by
+// joining the outline of the model on the faces of the cell to its center.
+// The outline of each face matches that of the templates, so that the
+// surface continues without a gap in the cell on the other side of the face.
+func coneTris(n neighborBitMap) (tris []*gl.Triangle) {
+	for _, f := range cellFaces {
+		var in [4]bool
+		var mid [4]gl.Vector // mid[i] lies between grid points i and i+1 of the face
+		var center gl.Vector
+		for i, g := range f {
+			in[i] = n&(1<<uint(g)) != 0
+			mid[i] = cellCorners[g].Add(cellCorners[f[(i+1)%4]]).MulScalar(0.5)
+			center = center.Add(cellCorners[g].MulScalar(0.25))
+		}
+		cone := func(a, b gl.Vector) {
+			tris = append(tris, &gl.Triangle{V1: gl.Vertex{Position: a}, V2: gl.Vertex{Position: b}})
+		}
+		diagonal := in[0] == in[2] && in[1] == in[3] && in[0] != in[1]
+		for i := range in {
+			if !in[i] || in[(i+3)%4] { // not the first of a run of grid points
+				continue
+			}
+			if diagonal { // cut off the empty grid point i-1
+				cone(mid[(i+3)%4], mid[(i+2)%4])
+				continue
+			}
+			end := i
+			for in[(end+1)%4] {
+				end = (end + 1) % 4
+			}
+			cone(mid[(i+3)%4], center)
+			cone(center, mid[end])
+		}
+	}
+	return tris
+}
+
 // TriangleLess provides a Less function for sort.Slice.
 func TriangleLess(t []*gl.Triangle) func(a, b int) bool {
 	return func(a, b int) bool {
-- 
2.43.0


From edd3ef961d1478ff81c33e1080b77d4dffdeb930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 02/57] fix: partial reads returned one voxel too many in each
 direction

---
 binvox/read.go | 2 +-
 vshell/read.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/binvox/read.go b/binvox/read.go
index ae9d2f5..930b8ee 100644
--- a/binvox/read.go
+++ b/binvox/read.go
@@ -152,7 +152,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*BinVOX, error) {
 			if xi >= nx {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
-			if value == 1 && xi >= sx && xi <= sx+cx && yi >= sy && yi <= sy+cy && zi >= sz && zi <= sz+cz {
+			if value == 1 && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
 				voxels[Key{X: xi, Y: yi, Z: zi}] = struct{}{}
 			}
 			yi++
diff --git a/vshell/read.go b/vshell/read.go
index 4a27bb4..1be6883 100644
--- a/vshell/read.go
+++ b/vshell/read.go
@@ -159,7 +159,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 			if xi >= nx {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
-			if value != 0 && value != 0xffffffff && xi >= sx && xi <= sx+cx && yi >= sy && yi <= sy+cy && zi >= sz && zi <= sz+cz {
+			if value != 0 && value != 0xffffffff && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
 				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: NeighborBitMap(value)})
 			}
 			yi++
-- 
2.43.0


From 331853b5e90593a2d25a7e4c2e455c97aad1c5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 03/57] fix: report errors when writing a binvox or vshell
 header

---
 binvox/write.go |  8 ++++++--
 vshell/write.go | 12 ++++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/binvox/write.go b/binvox/write.go
index a172bb6..6f6f594 100644
--- a/binvox/write.go
+++ b/binvox/write.go
@@ -39,7 +39,9 @@ data
 
 func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 	if len(b.WhiteVoxels) == 0 {
-		fmt.Fprintf(w, headerFMT, 0, 0, 0, b.TX, b.TY, b.TZ, b.Scale)
+		if _, err := fmt.Fprintf(w, headerFMT, 0, 0, 0, b.TX, b.TY, b.TZ, b.Scale); err != nil {
+			return 0, fmt.Errorf("unable to write header: %v", err)
+		}
 		return 0, nil
 	}
 
@@ -55,7 +57,9 @@ func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 
 	header := fmt.Sprintf(headerFMT, nx, ny, nz, b.TX, b.TY, b.TZ, b.Scale)
 	log.Printf("New header: %v", header)
-	fmt.Fprint(w, header)
+	if _, err := fmt.Fprint(w, header); err != nil {
+		return 0, fmt.Errorf("unable to write header: %v", err)
+	}
 
 	ch := make(chan rle, 100)
 	go b.encode(ch, b.WhiteVoxels, sx, sy, sz, nx, ny, nz)
diff --git a/vshell/write.go b/vshell/write.go
index bcd6556..e14ecae 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -38,7 +38,9 @@ data
 
 func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 	if len(vs.Voxels) == 0 {
-		fmt.Fprintf(w, headerFMT, 0, 0, 0, vs.TX, vs.TY, vs.TZ, vs.Scale)
+		if _, err := fmt.Fprintf(w, headerFMT, 0, 0, 0, vs.TX, vs.TY, vs.TZ, vs.Scale); err != nil {
+			return 0, fmt.Errorf("unable to write header: %v", err)
+		}
 		return 0, nil
 	}
 
@@ -60,10 +62,16 @@ func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error)
 
 	header := fmt.Sprintf(headerFMT, nx, ny, nz, vs.TX, vs.TY, vs.TZ, vs.Scale)
 	log.Printf("New header: %v", header)
-	fmt.Fprint(w, header)
+	if _, err := fmt.Fprint(w, header); err != nil {
+		return 0, fmt.Errorf("unable to write header: %v", err)
+	}
 
 	ch := make(chan rle, 100)
 	go vs.encode(ch, lookup, sx, sy, sz, nx, ny, nz)
+	defer func() { // on a write error, let the encoder finish
+		for range ch {
+		}
+	}()
 
 	var numVoxels int64
 	for v := range ch {
-- 
2.43.0


From 8c8e8b23fb2659c5c1e0974059e6023979369382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 04/57] fix: a written subregion keeps its location and
 resolution

---
 binvox/write.go | 12 +++++++++++-
 vshell/write.go | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/binvox/write.go b/binvox/write.go
index 6f6f594..a9e7940 100644
--- a/binvox/write.go
+++ b/binvox/write.go
@@ -55,7 +55,17 @@ func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 		nz = b.NZ
 	}
 
-	header := fmt.Sprintf(headerFMT, nx, ny, nz, b.TX, b.TY, b.TZ, b.Scale)
+	tx, ty, tz, scale := b.TX, b.TY, b.TZ, b.Scale
+	if vpmm := b.VoxelsPerMM(); vpmm > 0 { // keep the subregion in place and its voxels the same size
+		tx += float64(sx) / vpmm
+		ty += float64(sy) / vpmm
+		tz += float64(sz) / vpmm
+		if dim := (&BinVOX{NX: nx, NY: ny, NZ: nz}).Dim(); dim != b.Dim() {
+			scale = float64(dim) / vpmm
+		}
+	}
+
+	header := fmt.Sprintf(headerFMT, nx, ny, nz, tx, ty, tz, scale)
 	log.Printf("New header: %v", header)
 	if _, err := fmt.Fprint(w, header); err != nil {
 		return 0, fmt.Errorf("unable to write header: %v", err)
diff --git a/vshell/write.go b/vshell/write.go
index e14ecae..bf11aba 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -60,7 +60,17 @@ func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error)
 		lookup[key{v.X, v.Y, v.Z}] = i
 	}
 
-	header := fmt.Sprintf(headerFMT, nx, ny, nz, vs.TX, vs.TY, vs.TZ, vs.Scale)
+	tx, ty, tz, scale := vs.TX, vs.TY, vs.TZ, vs.Scale
+	if vpmm := vs.VoxelsPerMM(); vpmm > 0 { // keep the subregion in place and its voxels the same size
+		tx += float64(sx) / vpmm
+		ty += float64(sy) / vpmm
+		tz += float64(sz) / vpmm
+		if dim := (&VShell{NX: nx, NY: ny, NZ: nz}).Dim(); dim != vs.Dim() {
+			scale = float64(dim) / vpmm
+		}
+	}
+
+	header := fmt.Sprintf(headerFMT, nx, ny, nz, tx, ty, tz, scale)
 	log.Printf("New header: %v", header)
 	if _, err := fmt.Fprint(w, header); err != nil {
 		return 0, fmt.Errorf("unable to write header: %v", err)
-- 
2.43.0


From 0ca535ee9213bf8aa59037f318452787f2adb331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 05/57] fix: vshell.New ignored models that only have color
 voxels

---
 vshell/vshell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vshell/vshell.go b/vshell/vshell.go
index 3996f63..ff2dcab 100644
--- a/vshell/vshell.go
+++ b/vshell/vshell.go
@@ -58,7 +58,7 @@ func New(bv *binvox.BinVOX) (*VShell, error) {
 		TX: bv.TX, TY: bv.TY, TZ: bv.TZ,
 		Scale: bv.Scale,
 	}
-	if len(bv.WhiteVoxels) > 0 {
+	if len(bv.WhiteVoxels)+len(bv.ColorVoxels) > 0 {
 		if err := vs.Add(bv); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 7af9bcd5fda308077d7f9039445b5511f3a671c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 06/57] fix: run counts of more than 65535 overflowed in vshell
 files

---
 vshell/write.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vshell/write.go b/vshell/write.go
index bf11aba..3806589 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 )
 
@@ -139,7 +140,7 @@ func (vs *VShell) encode(ch chan<- rle, lookup map[key]int, sx, sy, sz, nx, ny,
 				if v, ok := lookup[k]; ok {
 					newValue = uint32(vs.Voxels[v].N)
 				}
-				if newValue != value {
+				if newValue != value || count == math.MaxUint16 {
 					if count > 0 { // To account for first value being sent.
 						ch <- rle{value, count}
 					}
-- 
2.43.0


From 0d3f75e84abd8907672be0f1100c5c38527c056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 07/57] fix: voxels without neighbors were lost in vshell files

---
 vshell/read.go   | 2 +-
 vshell/vshell.go | 2 +-
 vshell/write.go  | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/vshell/read.go b/vshell/read.go
index 1be6883..7333ced 100644
--- a/vshell/read.go
+++ b/vshell/read.go
@@ -160,7 +160,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
 			if value != 0 && value != 0xffffffff && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
-				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: NeighborBitMap(value)})
+				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: NeighborBitMap(value) &^ x0y0z0})
 			}
 			yi++
 			if yi >= ny {
diff --git a/vshell/vshell.go b/vshell/vshell.go
index ff2dcab..d2a172f 100644
--- a/vshell/vshell.go
+++ b/vshell/vshell.go
@@ -120,7 +120,7 @@ const ( // NeighborBitMap values
 	X0Y_1Z0
 	X0Y_1Z1
 	X0Y0Z_1
-	x0y0z0 // Unused - the center voxel - but needed as a place-holder for the bit pattern.
+	x0y0z0 // The center voxel - a place-holder that only appears in files, for a voxel without neighbors.
 	X0Y0Z1
 	X0Y1Z_1
 	X0Y1Z0
diff --git a/vshell/write.go b/vshell/write.go
index 3806589..b1f1cc0 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -139,6 +139,9 @@ func (vs *VShell) encode(ch chan<- rle, lookup map[key]int, sx, sy, sz, nx, ny,
 				var newValue uint32
 				if v, ok := lookup[k]; ok {
 					newValue = uint32(vs.Voxels[v].N)
+					if newValue == 0 { // a voxel without neighbors is not an empty voxel
+						newValue = uint32(x0y0z0)
+					}
 				}
 				if newValue != value || count == math.MaxUint16 {
 					if count > 0 { // To account for first value being sent.
-- 
2.43.0


From 36db0d5e08015415e77272adf06587f6287bc9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 08/57] fix: merged voxels were misplaced by truncation and by
 shifts of mixed sign

---
 vshell/merge.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index ad161c7..c409545 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -3,6 +3,7 @@ package vshell
 import (
 	"fmt"
 	"log"
+	"math"
 
 	"github.com/gmlewis/stldice/v4/binvox"
 )
@@ -132,33 +133,32 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 		return 0, 0, 0, fmt.Errorf("vshell.VoxelsPerMM (%v) != binvox.VoxelsPerMM (%v)", vpmm, bv.VoxelsPerMM())
 	}
 
-	dx = int((bv.TX - vs.TX) * vpmm)
-	dy = int((bv.TY - vs.TY) * vpmm)
-	dz = int((bv.TZ - vs.TZ) * vpmm)
-	if bv.TX < vs.TX {
-		vs.TX = bv.TX
-	} else {
-
-	}
-	if bv.TY < vs.TY {
-		vs.TY = bv.TY
-	}
-	if bv.TZ < vs.TZ {
-		vs.TZ = bv.TZ
+	// Both models keep their own location in world space. For each axis, either
+	// the new voxels or the old voxels need to be shifted.
+	shift := func(vsT *float64, bvT float64) (d, move int) {
+		d = int(math.Round((bvT - *vsT) * vpmm))
+		if d < 0 {
+			*vsT = bvT
+			return 0, -d
+		}
+		return d, 0
 	}
+	dx, mx := shift(&vs.TX, bv.TX)
+	dy, my := shift(&vs.TY, bv.TY)
+	dz, mz := shift(&vs.TZ, bv.TZ)
 
-	if dx >= 0 && dy >= 0 && dz >= 0 {
+	if mx == 0 && my == 0 && mz == 0 {
 		log.Printf("shifting %v new voxels by (%v,%v,%v) to merge with shell", len(bv.WhiteVoxels), dx, dy, dz)
 		return dx, dy, dz, nil
 	}
 
-	log.Printf("moving %v voxels by (%v,%v,%v)", len(vs.Voxels), -dx, -dy, -dz)
+	log.Printf("moving %v voxels by (%v,%v,%v)", len(vs.Voxels), mx, my, mz)
 	beforeVPMM := vs.VoxelsPerMM()
 	// log.Printf("GML: beforeVPMM=%v, before scale=%v", beforeVPMM, vs.Scale)
 	for i := range vs.Voxels {
-		vs.Voxels[i].X -= dx
-		vs.Voxels[i].Y -= dy
-		vs.Voxels[i].Z -= dz
+		vs.Voxels[i].X += mx
+		vs.Voxels[i].Y += my
+		vs.Voxels[i].Z += mz
 		if vs.Voxels[i].X >= vs.NX {
 			vs.NX = vs.Voxels[i].X + 1
 		}
@@ -175,10 +175,10 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 		vs.Scale *= afterVPMM / beforeVPMM
 		// log.Printf("GML: after scale=%v", vs.Scale)
 	}
-	log.Printf("done moving %v voxels by (%v,%v,%v)", len(vs.Voxels), -dx, -dy, -dz)
+	log.Printf("done moving %v voxels by (%v,%v,%v)", len(vs.Voxels), mx, my, mz)
 	log.Printf("New shell dimensions are: (%v,%v,%v)", vs.NX, vs.NY, vs.NZ)
 
-	return 0, 0, 0, nil
+	return dx, dy, dz, nil
 }
 
 func (m lookupMap) findNeighbors(k key, old shellMap) (result NeighborBitMap, toCheck []key) {
-- 
2.43.0


From dab0c304db7b30884e45cf7e74be348da5437039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 09/57] fix: compare resolutions by their relative difference
 before merging

Truncating them to integers rejected 4.9999 and 5, which are equal up to
rounding, and accepted 5.1 and 5.9, or 0.1 and 0.9.
---
 vshell/merge.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index c409545..cae62b8 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -33,6 +33,10 @@ func Merge(binfiles []string) (*VShell, error) {
 	return vs, nil
 }
 
+// maxVPMMError is the largest relative difference between the resolutions of
+// two models that can be merged.
+const maxVPMMError = 0.01
+
 type lookupMap map[key]struct{}
 type shellMap map[key]*VShVoxel
 
@@ -129,8 +133,8 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 // the addition of the BinVOX model.
 func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 	vpmm := vs.VoxelsPerMM()
-	if int(vpmm) != int(bv.VoxelsPerMM()) { // Course test for large discrepancies
-		return 0, 0, 0, fmt.Errorf("vshell.VoxelsPerMM (%v) != binvox.VoxelsPerMM (%v)", vpmm, bv.VoxelsPerMM())
+	if bvpmm := bv.VoxelsPerMM(); math.Abs(vpmm-bvpmm) > maxVPMMError*math.Max(vpmm, bvpmm) { // Course test for large discrepancies
+		return 0, 0, 0, fmt.Errorf("vshell.VoxelsPerMM (%v) != binvox.VoxelsPerMM (%v)", vpmm, bvpmm)
 	}
 
 	// Both models keep their own location in world space. For each axis, either
-- 
2.43.0


From cd841d8a0c706af7b416de02d4bf6e208d02cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 10/57] fix: merge models correctly when some of them are empty

---
 vshell/merge.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index cae62b8..92da541 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -45,8 +45,15 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 	if vs == nil || bv == nil {
 		return fmt.Errorf("empty vs or bv")
 	}
+	if bv.Dim() == 0 && len(bv.WhiteVoxels)+len(bv.ColorVoxels) == 0 { // an empty model
+		return nil
+	}
 	var dx, dy, dz int
-	if len(vs.Voxels) > 0 {
+	if len(vs.Voxels) == 0 { // nothing to align with yet
+		vs.NX, vs.NY, vs.NZ = bv.NX, bv.NY, bv.NZ
+		vs.TX, vs.TY, vs.TZ = bv.TX, bv.TY, bv.TZ
+		vs.Scale = bv.Scale
+	} else {
 		if dx, dy, dz, err = vs.update(bv); err != nil {
 			return err
 		}
-- 
2.43.0


From c2bb5a5e20f10138dc1b1b825a4c97c87f32fd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 11/57] fix: merge-stl crashed without input and overwrote
 ./out.stl without -f

---
 cmd/merge-stl/merge-stl.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/merge-stl/merge-stl.go b/cmd/merge-stl/merge-stl.go
index 2b86a6d..15c6b7a 100644
--- a/cmd/merge-stl/merge-stl.go
+++ b/cmd/merge-stl/merge-stl.go
@@ -30,10 +30,10 @@ func main() {
 	if err != nil {
 		log.Fatalf("No files found matching %v*.stl", *prefix)
 	}
-	outFile := *prefix + ".stl"
+	outFile := filepath.Clean(*prefix + ".stl")
 	var newFiles []string
 	for _, f := range files { // Quick sanity check
-		if f != outFile {
+		if filepath.Clean(f) != outFile {
 			newFiles = append(newFiles, f)
 			continue
 		}
@@ -44,6 +44,10 @@ func main() {
 		}
 	}
 
+	if len(newFiles) == 0 {
+		log.Fatalf("No files found to merge matching %v*.stl", *prefix)
+	}
+
 	log.Printf("Merging %v STL files into %v using %v workers...", len(newFiles), outFile, *numWorkers)
 	mesh, err := stl.Merge(newFiles, *numWorkers)
 	if err != nil {
-- 
2.43.0


From 732cd07bd84904108206e7d087339061d8e58d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 12/57] fix: merge-binvox overwrote its output without -f and
 crashed without input

---
 cmd/merge-binvox/merge-binvox.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/cmd/merge-binvox/merge-binvox.go b/cmd/merge-binvox/merge-binvox.go
index f70491b..f127c78 100644
--- a/cmd/merge-binvox/merge-binvox.go
+++ b/cmd/merge-binvox/merge-binvox.go
@@ -31,21 +31,18 @@ func main() {
 		log.Fatalf("No files found matching %v*.binvox", *prefix)
 	}
 	outFile := *prefix + ".vsh"
-	var newFiles []string
-	for _, f := range files { // Quick sanity check
-		if f != outFile {
-			newFiles = append(newFiles, f)
-			continue
-		}
-		if *force {
-			log.Printf("%v already exists. Overwriting due to -f flag.", outFile)
-		} else {
+	if len(files) == 0 {
+		log.Fatalf("No files found matching %v*.binvox", *prefix)
+	}
+	if _, err := os.Stat(outFile); err == nil {
+		if !*force {
 			log.Fatalf("%v already exists. To overwrite, use -f flag.", outFile)
 		}
+		log.Printf("%v already exists. Overwriting due to -f flag.", outFile)
 	}
 
-	log.Printf("Merging %v binvox files into %v...", len(newFiles), outFile)
-	vsh, err := vshell.Merge(newFiles)
+	log.Printf("Merging %v binvox files into %v...", len(files), outFile)
+	vsh, err := vshell.Merge(files)
 	if err != nil {
 		log.Fatalf("Merge: %v", err)
 	}
-- 
2.43.0


From 87d8a9c4f0c8ce402c89067fa8aeedc037152ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 13/57] fix: stl.Merge recorded errors of several workers
 without a lock, and hung without workers

---
 stl/stl.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stl/stl.go b/stl/stl.go
index d004dfb..b2892b3 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -10,10 +10,13 @@ import (
 
 // Merge merges the STL files using a worker pool of numWorkers.
 func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
+	if numWorkers < 1 {
+		numWorkers = 1
+	}
 	var wg sync.WaitGroup
 	ch := make(chan struct{}, numWorkers)
 
-	var mu sync.Mutex // protects mesh
+	var mu sync.Mutex // protects mesh and mergeErr
 	addFunc := func(meshToAdd *gl.Mesh) {
 		mu.Lock()
 		if mesh == nil {
@@ -30,7 +33,9 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 		wg.Add(1)
 		go func(filename string) {
 			if err := merge(filename, addFunc); err != nil {
+				mu.Lock()
 				mergeErr = err
+				mu.Unlock()
 			}
 			<-ch // release a worker
 			wg.Done()
-- 
2.43.0


From ce001fb589d79d9157dc8123c8e19df7478fb2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 14/57] fix: voxcut ignored the translations of the base and
 cutting models

---
 cmd/voxcut/voxcut.go | 53 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index e499602..6ecbfd2 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 
 	gl "github.com/fogleman/fauxgl"
@@ -61,7 +62,7 @@ func main() {
 	}
 
 	for i := 1; i < flag.NArg(); i++ {
-		cut, err := binvox.Read(flag.Arg(i), *startX, *startY, *startZ, *countX, *countY, *countZ)
+		cut, err := readCut(flag.Arg(i), base)
 		if err != nil {
 			log.Printf("skipping: %v", err)
 			continue
@@ -123,6 +124,47 @@ func main() {
 	log.Println("Done.")
 }
 
+// offset returns the offset that maps base indices to cut indices
+// by taking into account the translations.
+func offset(base, cut *binvox.BinVOX) (dx, dy, dz int) {
+	vpmm := base.VoxelsPerMM()
+	dx = int(math.Round((base.TX - cut.TX) * vpmm))
+	dy = int(math.Round((base.TY - cut.TY) * vpmm))
+	dz = int(math.Round((base.TZ - cut.TZ) * vpmm))
+	return dx, dy, dz
+}
+
+// readCut reads the part of the cutting model that covers the
+// subregion of the base model that is being processed.
+func readCut(filename string, base *binvox.BinVOX) (*binvox.BinVOX, error) {
+	cut, err := binvox.Read(filename, 0, 0, 0, 1, 1, 1) // Read only one voxel to get the header info.
+	if err != nil {
+		return nil, err
+	}
+	dx, dy, dz := offset(base, cut)
+
+	window := func(start, count, d, baseN, cutN int) (int, int) {
+		if count == 0 {
+			count = baseN
+		}
+		first, last := start+d, start+d+count // last is exclusive
+		if first < 0 {
+			first = 0
+		}
+		if last > cutN {
+			last = cutN
+		}
+		return first, last - first
+	}
+	sx, cx := window(*startX, *countX, dx, base.NX, cut.NX)
+	sy, cy := window(*startY, *countY, dy, base.NY, cut.NY)
+	sz, cz := window(*startZ, *countZ, dz, base.NZ, cut.NZ)
+	if cx <= 0 || cy <= 0 || cz <= 0 {
+		return nil, fmt.Errorf("%v does not overlap the base model", filename)
+	}
+	return binvox.Read(filename, sx, sy, sz, cx, cy, cz)
+}
+
 // voxcut cuts the base voxels by the cut voxels and returns the newVoxels.
 // It accounts for different translation settings in the base and cutting voxels.
 func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error) {
@@ -134,16 +176,11 @@ func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error
 	}
 
 	newVoxels = binvox.WhiteVoxelMap{}
-	vpmm := base.VoxelsPerMM()
-
-	// Map base indices to cut indices by taking into account the translations.
-	dx := int((base.TX - cut.TX) * vpmm)
-	dy := int((base.TY - cut.TY) * vpmm)
-	dz := int((base.TZ - cut.TZ) * vpmm)
+	dx, dy, dz := offset(base, cut)
 	log.Printf("Translating cut voxels by [%v,%v,%v]", dx, dy, dz)
 
 	keyFunc := func(v binvox.Key, vc binvox.Color) {
-		c, ok := cut.Get(v.X, v.Y, v.Z)
+		c, ok := cut.Get(v.X+dx, v.Y+dy, v.Z+dz)
 		if !ok { // Nothing to cut - keep voxel.
 			newVoxels[v] = struct{}{}
 			return
-- 
2.43.0


From 8371caa5eba1c8f18410ab7780c01a3bf132d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 15/57] fix: an empty region stopped voxcut-dice before it
 reached the remaining regions

---
 cmd/voxcut/voxcut.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index 6ecbfd2..08827e0 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -69,12 +69,17 @@ func main() {
 		}
 
 		log.Printf("\n\nCutting voxel model with %q...", flag.Arg(i))
+		if len(base.WhiteVoxels) == 0 {
+			log.Print("no voxels in this region... no need to write file")
+			return
+		}
 		base.WhiteVoxels, err = voxcut(base, cut)
 		if err != nil {
 			log.Fatalf("arg #%v: cut with %q: %v", i, flag.Arg(i), err)
 		}
 		if len(base.WhiteVoxels) == 0 {
-			log.Fatal("result of cut leaves no non-zero voxels... no need to write file")
+			log.Print("result of cut leaves no non-zero voxels... no need to write file")
+			return
 		}
 		log.Printf("Done cutting voxel model with %q.", flag.Arg(i))
 	}
-- 
2.43.0


From 629dc9965fc54978bd62721fb627f476e14bf7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 16/57] fix: voxcut wrote vox files whose layout did not match
 their chunk sizes

---
 cmd/voxcut/voxcut.go | 66 ++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 36 deletions(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index 08827e0..67aa763 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -98,7 +98,7 @@ func main() {
 		if err != nil {
 			log.Fatalf("Unable to create file %v: %v", *voxFile, err)
 		}
-		if err := writeVOX(f, base.WhiteVoxels); err != nil {
+		if err := writeVOX(f, base.WhiteVoxels, *startX, *startY, *startZ); err != nil {
 			log.Fatalf("writeVOX: %v", err)
 		}
 		if err := f.Close(); err != nil {
@@ -211,14 +211,35 @@ func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error
 	return newVoxels, nil
 }
 
-// writeVOX writes a vox file from the base voxels.
-func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
+// maxVOX is the maximum dimension of a vox file, because
+// its voxel coordinates are single bytes.
+const maxVOX = 256
+
+// writeVOX writes a vox file from the base voxels,
+// using (sx,sy,sz) as the origin of the file.
+func writeVOX(f io.Writer, base binvox.WhiteVoxelMap, sx, sy, sz int) error {
+	var sizeX, sizeY, sizeZ int
+	for v := range base {
+		if x := v.X - sx + 1; x > sizeX {
+			sizeX = x
+		}
+		if y := v.Y - sy + 1; y > sizeY {
+			sizeY = y
+		}
+		if z := v.Z - sz + 1; z > sizeZ {
+			sizeZ = z
+		}
+	}
+	if sizeX > maxVOX || sizeY > maxVOX || sizeZ > maxVOX {
+		return fmt.Errorf("model (%v,%v,%v) is too large for a vox file (maximum dimension is %v) - use voxcut-dice", sizeX, sizeY, sizeZ, maxVOX)
+	}
+
 	header := gl.VOXHeader{Magic: [4]byte{'V', 'O', 'X', ' '}, Version: 150}
 	if err := binary.Write(f, binary.LittleEndian, &header); err != nil {
 		return fmt.Errorf("header: %v", err)
 	}
 
-	chunk := gl.VOXChunk{ID: [4]byte{'M', 'A', 'I', 'N'}, ChildrenBytes: int32(12 + len(base)*4 + 4)}
+	chunk := gl.VOXChunk{ID: [4]byte{'M', 'A', 'I', 'N'}, ChildrenBytes: int32(24 + 12 + len(base)*4 + 4)}
 	if err := binary.Write(f, binary.LittleEndian, &chunk); err != nil {
 		return fmt.Errorf("MAIN: %v", err)
 	}
@@ -227,26 +248,8 @@ func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
 		return fmt.Errorf("SIZE: %v", err)
 	}
 
-	var maxX, maxY, maxZ int
-	for v := range base {
-		if v.X > maxX {
-			maxX = v.X
-		}
-		if v.Y > maxY {
-			maxY = v.Y
-		}
-		if v.Z > maxZ {
-			maxZ = v.Z
-		}
-	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxX)); err != nil {
-		return fmt.Errorf("maxX: %v", err)
-	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxY)); err != nil {
-		return fmt.Errorf("maxY: %v", err)
-	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxZ)); err != nil {
-		return fmt.Errorf("maxZ: %v", err)
+	if err := binary.Write(f, binary.LittleEndian, [3]int32{int32(sizeX), int32(sizeY), int32(sizeZ)}); err != nil {
+		return fmt.Errorf("size: %v", err)
 	}
 
 	chunk = gl.VOXChunk{ID: [4]byte{'X', 'Y', 'Z', 'I'}, ContentBytes: int32(len(base)*4 + 4)}
@@ -264,18 +267,9 @@ func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
 		// if vc.A >= 0.5 && vc.R+vc.G+vc.B > 1.5 {  // WHAT?!?
 		// 	i = 1
 		// }
-		if err := binary.Write(f, binary.LittleEndian, int32(v.X)); err != nil {
-			return fmt.Errorf("X: %v", err)
-		}
-		if err := binary.Write(f, binary.LittleEndian, int32(v.Y)); err != nil {
-			return fmt.Errorf("Y: %v", err)
-		}
-		if err := binary.Write(f, binary.LittleEndian, int32(v.Z)); err != nil {
-			return fmt.Errorf("Z: %v", err)
-		}
-		i := int32(1)
-		if err := binary.Write(f, binary.LittleEndian, i); err != nil {
-			return fmt.Errorf("I: %v", err)
+		voxel := gl.VOXVoxel{X: uint8(v.X - sx), Y: uint8(v.Y - sy), Z: uint8(v.Z - sz), I: 1}
+		if err := binary.Write(f, binary.LittleEndian, &voxel); err != nil {
+			return fmt.Errorf("voxel: %v", err)
 		}
 	}
 	return nil
-- 
2.43.0


From d9911309f253c433709bac7112ed1e5dfad424aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 17/57] fix: voxcut-dice never ended when size was not positive

---
 cmd/voxcut-dice/voxcut-dice.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/voxcut-dice/voxcut-dice.go b/cmd/voxcut-dice/voxcut-dice.go
index 41afde7..50d115e 100644
--- a/cmd/voxcut-dice/voxcut-dice.go
+++ b/cmd/voxcut-dice/voxcut-dice.go
@@ -36,6 +36,10 @@ func main() {
 		log.Fatal("Must specify at least one of -obinvox, -ostl, or -ovox")
 	}
 
+	if *size <= 0 {
+		log.Fatal("size must be positive")
+	}
+
 	base, err := binvox.Read(flag.Arg(0), 0, 0, 0, 1, 1, 1) // Read only one voxel to get the header info.
 	if err != nil {
 		log.Fatal(err)
-- 
2.43.0


From 7d43b8aa852e5fa690580a7c5296cc9071c06d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 18/57] fix: stldice left out the far end of models that do not
 divide evenly

---
 cmd/stldice/stldice.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 030334e..e2d67c8 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -128,18 +128,19 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 	modelDimInMM := mbb.Size()
 	log.Printf("diceMesh(mbb=(%v,%v,%v)-(%v,%v,%v), size=%v, scale=%v, dim=%v, n=[%v,%v,%v], outPrefix=%v); %v voxels per millimeter; %v millimeters per voxel", mbb.Min.X, mbb.Min.Y, mbb.Min.Z, mbb.Max.X, mbb.Max.Y, mbb.Max.Z, modelDimInMM, scale, dim, nx, ny, nz, outPrefix, vpmm, mmpv)
 
-	newModelDimX := int(math.Ceil(modelDimInMM.X * vpmm))
-	newModelDimY := int(math.Ceil(modelDimInMM.Y * vpmm))
-	newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm))
+	const epsilon = 1e-6 // of a voxel, so that rounding errors don't add a layer of voxels
+	newModelDimX := int(math.Ceil(modelDimInMM.X*vpmm - epsilon))
+	newModelDimY := int(math.Ceil(modelDimInMM.Y*vpmm - epsilon))
+	newModelDimZ := int(math.Ceil(modelDimInMM.Z*vpmm - epsilon))
 	log.Printf("number of voxels needed along each axis to cover entire model: [%v,%v,%v]", newModelDimX, newModelDimY, newModelDimZ)
 
-	// subregion dimensions
-	dimX := newModelDimX / nx
-	dimY := newModelDimY / ny
-	dimZ := newModelDimZ / nz
-	if dimX == 0 || dimY == 0 || dimZ == 0 {
-		return nil, fmt.Errorf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
+	if newModelDimX < nx || newModelDimY < ny || newModelDimZ < nz {
+		return nil, fmt.Errorf("too many divisions: model dimensions = (%v,%v,%v)", newModelDimX, newModelDimY, newModelDimZ)
 	}
+	// subregion dimensions, rounded up so that the subregions cover the entire model
+	dimX := (newModelDimX + nx - 1) / nx
+	dimY := (newModelDimY + ny - 1) / ny
+	dimZ := (newModelDimZ + nz - 1) / nz
 
 	maxDim := dimX
 	if dimY > maxDim {
-- 
2.43.0


From 45fb7ea3be190f751b8dad4d8cd7b98d76947a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 19/57] fix: stldice left existing tiles out of the commands
 that complete the operation

---
 cmd/stldice/stldice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index e2d67c8..1f4ac41 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -162,6 +162,7 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 				outFile := newPrefix + ".binvox"
 				if _, err := os.Stat(outFile); err == nil || os.IsExist(err) {
 					log.Printf("Skipping writing existing file %v", outFile)
+					prefixes = append(prefixes, strings.TrimPrefix(newPrefix, outPrefix))
 					continue
 				}
 
-- 
2.43.0


From a06b05a0495607da882cf45f857958b815d42a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 20/57] fix: an interrupted stldice left a truncated tile that
 the next run accepted as complete

---
 cmd/stldice/stldice.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 1f4ac41..317350c 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -181,7 +181,12 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 					continue
 				}
 				log.Printf("Writing %v voxels to %v", len(bv.WhiteVoxels), outFile)
-				if err := bv.Write(outFile, 0, 0, 0, 0, 0, 0); err != nil {
+				// Existing files are skipped, so outFile must only exist when it is complete.
+				tmpFile := outFile + ".tmp"
+				if err := bv.Write(tmpFile, 0, 0, 0, 0, 0, 0); err != nil {
+					return nil, err
+				}
+				if err := os.Rename(tmpFile, outFile); err != nil {
 					return nil, err
 				}
 				prefixes = append(prefixes, strings.TrimPrefix(newPrefix, outPrefix))
-- 
2.43.0


From b125a248a1945e372779c650187f01fd35b74129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 21/57] fix: voxelizing a subregion returned voxels with
 negative X

---
 binvox/voxelize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index 2b282c2..659e913 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -270,7 +270,9 @@ func (b *BinVOX) floodFill(zi int, set setMap, setVoxelFunc func(k Key), xMinMax
 				}
 				k := Key{xi, yi, zi}
 				if len(set[k]) > 0 { // triangles intersect this voxel.
-					setVoxelFunc(k)
+					if xi >= 0 {
+						setVoxelFunc(k)
+					}
 					var inCount, outCount int
 					for _, tri := range set[k] {
 						if _, ok := seenTris[tri]; ok {
-- 
2.43.0


From 9497cb02eb4332b72c62ec211302e7eec3289ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 22/57] fix: malformed jobs crashed the stl2svx servers
 (missing vertices, zero divisions)

---
 stl2svx/stl/stl.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/stl2svx/stl/stl.go b/stl2svx/stl/stl.go
index f243bce..07959b8 100644
--- a/stl2svx/stl/stl.go
+++ b/stl2svx/stl/stl.go
@@ -29,14 +29,13 @@ type STL struct {
 // dim represents the number of voxels in the widest dimension.
 // nX, nY, nZ represent the number of subdivisions in each dimension.
 func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
-	var tris []*gl.Triangle
-	for _, t := range p.GetTriangles() {
-		tris = append(tris, gl.NewTriangleForPoints(
-			gl.V(t.V1.X, t.V1.Y, t.V1.Z),
-			gl.V(t.V2.X, t.V2.Y, t.V2.Z),
-			gl.V(t.V3.X, t.V3.Y, t.V3.Z)))
+	if dim <= 0 || nX <= 0 || nY <= 0 || nZ <= 0 {
+		return nil, fmt.Errorf("dimensions must be positive: dim=%v, divisions=(%v,%v,%v)", dim, nX, nY, nZ)
+	}
+	mesh, err := NewMesh(p)
+	if err != nil {
+		return nil, err
 	}
-	mesh := gl.NewTriangleMesh(tris)
 	mbb := mesh.BoundingBox()
 
 	scale := mbb.Max.X - mbb.Min.X
@@ -46,6 +45,9 @@ func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
 	if dz := mbb.Max.Z - mbb.Min.Z; dz > scale {
 		scale = dz
 	}
+	if !(scale > 0) || math.IsInf(scale, 0) {
+		return nil, fmt.Errorf("unable to voxelize a model with bounding box %v", mbb)
+	}
 	vpmm := float64(dim) / scale // voxels per millimeter
 	mmpv := 1.0 / vpmm           // millimeters per voxel
 	modelDimInMM := mbb.Size()
@@ -76,3 +78,23 @@ func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
 		SubregionScale: subregionScale,
 	}, nil
 }
+
+// NewMesh parses a pb.STLFile and returns its mesh of triangles.
+func NewMesh(p *pb.STLFile) (*gl.Mesh, error) {
+	var tris []*gl.Triangle
+	for i, t := range p.GetTriangles() {
+		if t.GetV1() == nil || t.GetV2() == nil || t.GetV3() == nil {
+			return nil, fmt.Errorf("triangle #%v is missing a vertex", i)
+		}
+		for _, v := range []*pb.Vertex{t.V1, t.V2, t.V3} {
+			if sum := math.Abs(v.X) + math.Abs(v.Y) + math.Abs(v.Z); math.IsNaN(sum) || math.IsInf(sum, 0) {
+				return nil, fmt.Errorf("triangle #%v has an invalid vertex: %v", i, v)
+			}
+		}
+		tris = append(tris, gl.NewTriangleForPoints(
+			gl.V(t.V1.X, t.V1.Y, t.V1.Z),
+			gl.V(t.V2.X, t.V2.Y, t.V2.Z),
+			gl.V(t.V3.X, t.V3.Y, t.V3.Z)))
+	}
+	return gl.NewTriangleMesh(tris), nil
+}
-- 
2.43.0


From 0c45fa85c129981395159a47896fd94e933c4437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 23/57] fix: stl2svx left out the far end of models that do not
 divide evenly

---
 stl2svx/stl/stl.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/stl2svx/stl/stl.go b/stl2svx/stl/stl.go
index 07959b8..5e7d3a1 100644
--- a/stl2svx/stl/stl.go
+++ b/stl2svx/stl/stl.go
@@ -51,15 +51,17 @@ func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
 	vpmm := float64(dim) / scale // voxels per millimeter
 	mmpv := 1.0 / vpmm           // millimeters per voxel
 	modelDimInMM := mbb.Size()
-	newModelDimX := int(math.Ceil(modelDimInMM.X * vpmm))
-	newModelDimY := int(math.Ceil(modelDimInMM.Y * vpmm))
-	newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm))
-	dimX := newModelDimX / int(nX)
-	dimY := newModelDimY / int(nY)
-	dimZ := newModelDimZ / int(nZ)
-	if dimX == 0 || dimY == 0 || dimZ == 0 {
-		return nil, fmt.Errorf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
+	const epsilon = 1e-6 // of a voxel, so that rounding errors don't add a layer of voxels
+	newModelDimX := int(math.Ceil(modelDimInMM.X*vpmm - epsilon))
+	newModelDimY := int(math.Ceil(modelDimInMM.Y*vpmm - epsilon))
+	newModelDimZ := int(math.Ceil(modelDimInMM.Z*vpmm - epsilon))
+	if newModelDimX < int(nX) || newModelDimY < int(nY) || newModelDimZ < int(nZ) {
+		return nil, fmt.Errorf("too many divisions: model dimensions = (%v,%v,%v)", newModelDimX, newModelDimY, newModelDimZ)
 	}
+	// subregion dimensions, rounded up so that the subregions cover the entire model
+	dimX := (newModelDimX + int(nX) - 1) / int(nX)
+	dimY := (newModelDimY + int(nY) - 1) / int(nY)
+	dimZ := (newModelDimZ + int(nZ) - 1) / int(nZ)
 	maxDim := dimX
 	if dimY > maxDim {
 		maxDim = dimY
-- 
2.43.0


From 992980a9e3323d854e585902fa66528da96073b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 24/57] fix: an agent exited on thin or empty cuts, on n_z > 1
 and on malformed slice jobs

---
 stl2svx/agent/agent.go | 46 +++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/stl2svx/agent/agent.go b/stl2svx/agent/agent.go
index 6b237ba..ced3f47 100644
--- a/stl2svx/agent/agent.go
+++ b/stl2svx/agent/agent.go
@@ -57,7 +57,7 @@ func New(ctx context.Context, address, masterAddress string) (*agent, error) {
 func (m *agent) SliceJob(ctx context.Context, in *pb.SliceJobRequest) (resp *pb.SliceJobResponse, imErr error) {
 	log.Printf("Agent processing slice z=%v...", in.GetZ())
 
-	ch, err := generateMR(in)
+	_, ch, err := generateMR(in)
 	if err != nil {
 		return nil, err
 	}
@@ -95,23 +95,37 @@ type bvInfo struct {
 // be performed by each mapper. It also sends all the data each mapper needs
 // through the provided channel.
 // dimZ is the number of agents needed to output the images.
-func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
+func generateMR(in *pb.SliceJobRequest) (base *stl.STL, ch chan *bvInfo, err error) {
+	job := in.GetNewJobRequest()
+	if len(job.GetStlFiles()) == 0 {
+		return nil, nil, fmt.Errorf("must pass at least one STL file to SliceJob")
+	}
+	base, err = stl.New(job.GetStlFiles()[0], job.GetDim(), job.GetNX(), job.GetNY(), job.GetNZ())
+	if err != nil {
+		return nil, nil, fmt.Errorf("stl.New: %v", err)
+	}
+	if z := in.GetZ(); z < 0 || z >= int64(base.ModelDimZ) {
+		return nil, nil, fmt.Errorf("slice z=%v is outside of the model (0-%v)", z, base.ModelDimZ-1)
+	}
+	meshes := []*gl.Mesh{base.Mesh}
+	for _, stlFile := range job.GetStlFiles()[1:] {
+		mesh, err := stl.NewMesh(stlFile)
+		if err != nil {
+			return nil, nil, fmt.Errorf("stl.NewMesh: %v", err)
+		}
+		meshes = append(meshes, mesh)
+	}
+
 	ch = make(chan *bvInfo)
 	go func() {
-		job := in.GetNewJobRequest()
-		var base *stl.STL
-		for i, stlFile := range job.GetStlFiles() {
-			stlMesh, err := stl.New(stlFile, job.GetDim(), job.GetNX(), job.GetNY(), job.GetNZ())
-			if err != nil {
-				log.Fatalf("stl.New: %v", err)
-			}
-			if i == 0 {
-				base = stlMesh
-			}
-			log.Printf("generateMR: i=%v, %v triangles", i, len(stlMesh.Mesh.Triangles))
+		for i, mesh := range meshes {
+			log.Printf("generateMR: i=%v, %v triangles", i, len(mesh.Triangles))
 
 			// Now dice it up.
 			for zi := 0; zi < int(job.GetNZ()); zi++ {
+				if zi != int(in.GetZ())/base.DimZ {
+					continue // the slice is not within this subregion
+				}
 				z1 := base.MBB.Min.Z + float64(zi*base.DimZ)*base.MMPV
 				for yi := 0; yi < int(job.GetNY()); yi++ {
 					y1 := base.MBB.Min.Y + float64(yi*base.DimY)*base.MMPV
@@ -128,7 +142,7 @@ func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
 								Scale: base.SubregionScale,
 							},
 							base: i == 0,
-							mesh: stlMesh.Mesh,
+							mesh: mesh,
 						}
 
 						log.Printf("generateMR: sending STL #%v to mapper", i)
@@ -139,7 +153,7 @@ func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
 		}
 		close(ch)
 	}()
-	return ch, nil
+	return base, ch, nil
 }
 
 type voxelInfo struct {
@@ -151,7 +165,7 @@ type voxelInfo struct {
 // then sends them to the imager.
 func voxelize(bvi *bvInfo, zi int, ch chan<- voxelInfo) {
 	bv := bvi.bv
-	if err := bv.VoxelizeZ(bvi.mesh, zi); err != nil {
+	if err := bv.VoxelizeZ(bvi.mesh, zi-bvi.dz); err != nil {
 		log.Printf("voxelize(%v): %v", zi, err)
 		return
 	}
-- 
2.43.0


From 1ba1b2925a6abb97be0677479fb8f50edb080310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 25/57] fix: stl2svx images did not have the size that the SVX
 manifest declares

---
 stl2svx/agent/agent.go   | 21 +++++++++++----------
 stl2svx/master/master.go |  2 +-
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/stl2svx/agent/agent.go b/stl2svx/agent/agent.go
index ced3f47..aafc6bc 100644
--- a/stl2svx/agent/agent.go
+++ b/stl2svx/agent/agent.go
@@ -57,7 +57,7 @@ func New(ctx context.Context, address, masterAddress string) (*agent, error) {
 func (m *agent) SliceJob(ctx context.Context, in *pb.SliceJobRequest) (resp *pb.SliceJobResponse, imErr error) {
 	log.Printf("Agent processing slice z=%v...", in.GetZ())
 
-	_, ch, err := generateMR(in)
+	base, ch, err := generateMR(in)
 	if err != nil {
 		return nil, err
 	}
@@ -66,7 +66,7 @@ func (m *agent) SliceJob(ctx context.Context, in *pb.SliceJobRequest) (resp *pb.
 	var wg sync.WaitGroup
 	wg.Add(1)
 	go func() {
-		resp, imErr = imager(in, vxCh)
+		resp, imErr = imager(in, base, vxCh)
 		wg.Done()
 	}()
 
@@ -203,28 +203,29 @@ type pixelKey struct {
 // imager takes the voxels from voxelize and creates
 // a 2D image at the provided z height.
 // It outputs an image to disk.
-func imager(in *pb.SliceJobRequest, ch <-chan voxelInfo) (*pb.SliceJobResponse, error) {
-	job := in.GetNewJobRequest()
+func imager(in *pb.SliceJobRequest, base *stl.STL, ch <-chan voxelInfo) (*pb.SliceJobResponse, error) {
 	z := in.GetZ()
 	log.Printf("imager: z=%v", z)
 	pixels := make(map[pixelKey]bool)
 	for value := range ch {
-		base := value.Base
+		isBase := value.Base
+		if value.X >= base.ModelDimX || value.Y >= base.ModelDimY {
+			continue // the last subregion can extend beyond the bounds of the base.
+		}
 		// k := pixelKey{value.X, value.Y}
-		k := pixelKey{value.X, int(job.GetDim()) - 1 - value.Y} // mirror the Y axis
+		k := pixelKey{value.X, base.ModelDimY - 1 - value.Y} // mirror the Y axis
 		if v, ok := pixels[k]; ok {
 			if v {
-				pixels[k] = base
+				pixels[k] = isBase
 			}
 		} else {
-			pixels[k] = base
+			pixels[k] = isBase
 		}
 	}
 	log.Printf("imager(%v): processed %v voxels", z, len(pixels))
 
 	// Convert collected pixels into an image.
-	sz := int(job.GetDim())
-	rect := image.Rect(0, 0, sz+2, sz+2)
+	rect := image.Rect(0, 0, base.ModelDimX+2, base.ModelDimY+2)
 	img := image.NewGray(rect)
 	// Shapeways requires a single pixel boundary in every dimension!!!
 	draw.Draw(img, rect, image.Black, image.ZP, draw.Over)
diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index adf15dc..f1afdd7 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -161,7 +161,7 @@ func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 
 func (m *master) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
 	// For Shapeways, create a black base and a black top.
-	rect := image.Rect(0, 0, int(in.GetDim()+2), int(in.GetDim()+2))
+	rect := image.Rect(0, 0, base.ModelDimX+2, base.ModelDimY+2)
 	img := image.NewGray(rect)
 	draw.Draw(img, rect, image.Black, image.ZP, draw.Over)
 	m.zmu.Lock()
-- 
2.43.0


From d9c440d000b93c51159847afe0f40cac53183e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 26/57] fix: the SVX manifest named other slices than the
 archive contains

---
 stl2svx/master/master.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index f1afdd7..d031f01 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -152,10 +152,10 @@ func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	fmt.Fprintf(mf, `<?xml version="1.0"?>
 <grid version="1.0" gridSizeX="%v" gridSizeY="%v" gridSizeZ="%v" voxelSize="%v" subvoxelBits="8" originX="%v" originY="%v" originZ="%v" slicesOrientation="Y" >
   <channels>
-    <channel type="DENSITY" bits="8" slices="%v/%v-%v-%v-%v-%v-%%04d.png" />
+    <channel type="DENSITY" bits="8" slices="%v/out-%v-%v-%v-%v-%%04d.png" />
   </channels>
 </grid>
-`, base.ModelDimX+2, base.ModelDimZ+2, base.ModelDimY+2, base.MMPV*1e-3, base.MBB.Min.X, base.MBB.Min.Z, base.MBB.Min.Y, in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ())
+`, base.ModelDimX+2, base.ModelDimZ+2, base.ModelDimY+2, base.MMPV*1e-3, base.MBB.Min.X, base.MBB.Min.Z, base.MBB.Min.Y, in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ())
 	return nil
 }
 
-- 
2.43.0


From 77e5ca678eb2d448cb89089c3617f1fb4105649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 27/57] fix: jobs with n_z > 1 only produced the slices of the
 first subregion

---
 stl2svx/master/master.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index d031f01..77aaf44 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -53,7 +53,7 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 	m.writeBlankImages(in, base)
 
 	var wg sync.WaitGroup
-	for z := 0; z < base.DimZ; z++ {
+	for z := 0; z < base.ModelDimZ; z++ {
 		wg.Add(1)
 		go func(z int) {
 			m.runAgent(ctx, in, z)
@@ -142,7 +142,7 @@ func (m *master) getIdleAgent() string {
 
 func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	const outFile = "manifest.xml"
-	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.DimZ)
+	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.ModelDimZ)
 	m.zmu.Lock()
 	defer m.zmu.Unlock()
 	mf, err := m.zipFile.Create(outFile)
@@ -177,5 +177,5 @@ func (m *master) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
 		}
 	}
 	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), 0))
-	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.DimZ+1))
+	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.ModelDimZ+1))
 }
-- 
2.43.0


From 5504a2ce8cb93e2624e9609f9782b93530c8d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 28/57] fix: concurrent jobs of a master wrote to the same SVX
 file

---
 stl2svx/master/master.go | 41 +++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index 77aaf44..6884b2a 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -28,9 +28,12 @@ const (
 type master struct {
 	amu        sync.Mutex          // protects agents and idleAgents
 	idleAgents map[string]struct{} // just a map of idle agents
+}
 
-	zmu     sync.Mutex  // protects zipFile
-	zipFile *zip.Writer // resulting SVX file
+// svx represents the resulting SVX file of a single job.
+type svx struct {
+	zmu     sync.Mutex // protects zipFile
+	zipFile *zip.Writer
 }
 
 func New() *master {
@@ -47,22 +50,22 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 	}
 
 	var zbuf bytes.Buffer
-	m.zipFile = zip.NewWriter(&zbuf)
+	out := &svx{zipFile: zip.NewWriter(&zbuf)}
 
-	m.writeManifest(in, base)
-	m.writeBlankImages(in, base)
+	out.writeManifest(in, base)
+	out.writeBlankImages(in, base)
 
 	var wg sync.WaitGroup
 	for z := 0; z < base.ModelDimZ; z++ {
 		wg.Add(1)
 		go func(z int) {
-			m.runAgent(ctx, in, z)
+			m.runAgent(ctx, in, out, z)
 			wg.Done()
 		}(z)
 	}
 	wg.Wait()
 
-	if err := m.zipFile.Close(); err != nil {
+	if err := out.zipFile.Close(); err != nil {
 		return nil, err
 	}
 
@@ -80,7 +83,7 @@ func (m *master) RegisterAgent(ctx context.Context, in *pb.RegisterAgentRequest)
 }
 
 // runAgent runs the agent on the given z slice.
-func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int) {
+func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, out *svx, z int) {
 	req := &pb.SliceJobRequest{NewJobRequest: in, Z: int64(z)}
 	var conn *grpc.ClientConn
 	var address string
@@ -110,9 +113,9 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int) {
 	outFile := fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), z+1)
 
 	log.Printf("runAgent(%v): writing %v to zip file...", z, outFile)
-	m.zmu.Lock()
-	defer m.zmu.Unlock()
-	f, err := m.zipFile.Create(outFile)
+	out.zmu.Lock()
+	defer out.zmu.Unlock()
+	f, err := out.zipFile.Create(outFile)
 	if err != nil {
 		log.Printf("runAgent(%v) error: %v", z, err)
 		return
@@ -140,12 +143,12 @@ func (m *master) getIdleAgent() string {
 	}
 }
 
-func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
+func (out *svx) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	const outFile = "manifest.xml"
 	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.ModelDimZ)
-	m.zmu.Lock()
-	defer m.zmu.Unlock()
-	mf, err := m.zipFile.Create(outFile)
+	out.zmu.Lock()
+	defer out.zmu.Unlock()
+	mf, err := out.zipFile.Create(outFile)
 	if err != nil {
 		return err
 	}
@@ -159,15 +162,15 @@ func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	return nil
 }
 
-func (m *master) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
+func (out *svx) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
 	// For Shapeways, create a black base and a black top.
 	rect := image.Rect(0, 0, base.ModelDimX+2, base.ModelDimY+2)
 	img := image.NewGray(rect)
 	draw.Draw(img, rect, image.Black, image.ZP, draw.Over)
-	m.zmu.Lock()
-	defer m.zmu.Unlock()
+	out.zmu.Lock()
+	defer out.zmu.Unlock()
 	outf := func(fn string) {
-		f, err := m.zipFile.Create(fn)
+		f, err := out.zipFile.Create(fn)
 		if err != nil {
 			log.Printf("error: %v", err)
 			return
-- 
2.43.0


From d4627ea734a661400c67bbf1993945a44483d4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 29/57] fix: a job returned an incomplete SVX file when an
 agent failed, and lost that agent

---
 stl2svx/master/master.go | 109 ++++++++++++++++++++++++++-------------
 1 file changed, 72 insertions(+), 37 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index 6884b2a..6c14176 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -4,6 +4,7 @@ package master
 import (
 	"archive/zip"
 	"bytes"
+	"errors"
 	"fmt"
 	"image"
 	"image/draw"
@@ -13,6 +14,8 @@ import (
 	"time"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 
 	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
 	"github.com/gmlewis/stldice/v4/stl2svx/stl"
@@ -52,18 +55,33 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 	var zbuf bytes.Buffer
 	out := &svx{zipFile: zip.NewWriter(&zbuf)}
 
-	out.writeManifest(in, base)
-	out.writeBlankImages(in, base)
+	if err := out.writeManifest(in, base); err != nil {
+		return nil, err
+	}
+	if err := out.writeBlankImages(in, base); err != nil {
+		return nil, err
+	}
 
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+	errCh := make(chan error, base.ModelDimZ)
 	var wg sync.WaitGroup
 	for z := 0; z < base.ModelDimZ; z++ {
 		wg.Add(1)
 		go func(z int) {
-			m.runAgent(ctx, in, out, z)
-			wg.Done()
+			defer wg.Done()
+			if err := m.runAgent(ctx, in, out, z); err != nil {
+				errCh <- err
+				cancel() // the SVX file would be incomplete
+			}
 		}(z)
 	}
 	wg.Wait()
+	select {
+	case err := <-errCh:
+		return nil, err
+	default:
+	}
 
 	if err := out.zipFile.Close(); err != nil {
 		return nil, err
@@ -83,31 +101,28 @@ func (m *master) RegisterAgent(ctx context.Context, in *pb.RegisterAgentRequest)
 }
 
 // runAgent runs the agent on the given z slice.
-func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, out *svx, z int) {
+func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, out *svx, z int) error {
 	req := &pb.SliceJobRequest{NewJobRequest: in, Z: int64(z)}
-	var conn *grpc.ClientConn
-	var address string
+	var resp *pb.SliceJobResponse
 	for {
-		address = m.getIdleAgent()
-		log.Printf("Assigning agent %v to slice z=%v", address, z)
-		var err error
-		conn, err = grpc.Dial(address, grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxSize)), grpc.WithDefaultCallOptions(grpc.MaxCallSendMsgSize(maxSize)))
+		address, err := m.getIdleAgent(ctx)
 		if err != nil {
+			return err
+		}
+		log.Printf("Assigning agent %v to slice z=%v", address, z)
+		resp, err = sliceJob(ctx, address, req)
+		if status.Code(err) == codes.Unavailable && ctx.Err() == nil {
 			log.Printf("Unable to communicate with agent %v, finding another...", address)
 			continue
 		}
+		m.amu.Lock()
+		m.idleAgents[address] = struct{}{} // Mark agent as idle
+		m.amu.Unlock()
+		if err != nil {
+			return fmt.Errorf("error running SliceJob z=%v with agent %v: %v", z, address, err)
+		}
 		break
 	}
-	defer conn.Close()
-	c := pb.NewAgentClient(conn)
-	resp, err := c.SliceJob(ctx, req)
-	if err != nil {
-		log.Printf("Error running SliceJob with agent %v: %v", address, err)
-		return
-	}
-	m.amu.Lock()
-	m.idleAgents[address] = struct{}{} // Mark agent as idle
-	m.amu.Unlock()
 
 	// Write the PNG to the zip file.
 	outFile := fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), z+1)
@@ -117,17 +132,38 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, out *svx, z
 	defer out.zmu.Unlock()
 	f, err := out.zipFile.Create(outFile)
 	if err != nil {
-		log.Printf("runAgent(%v) error: %v", z, err)
-		return
+		return fmt.Errorf("runAgent(%v) error: %v", z, err)
 	}
 	if _, err := f.Write(resp.GetPngFile()); err != nil {
-		log.Printf("runAgent(%v) error: %v", z, err)
+		return fmt.Errorf("runAgent(%v) error: %v", z, err)
 	}
+	return nil
+}
+
+// sliceJob runs a single SliceJob on the agent.
+func sliceJob(ctx context.Context, address string, req *pb.SliceJobRequest) (*pb.SliceJobResponse, error) {
+	conn, err := grpc.Dial(address, grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxSize)), grpc.WithDefaultCallOptions(grpc.MaxCallSendMsgSize(maxSize)))
+	if err != nil {
+		return nil, status.Error(codes.Unavailable, err.Error())
+	}
+	defer conn.Close()
+	c := pb.NewAgentClient(conn)
+	resp, err := c.SliceJob(ctx, req)
+	if err != nil {
+		return nil, err
+	}
+	if resp.GetError() != "" {
+		return nil, errors.New(resp.GetError())
+	}
+	return resp, nil
 }
 
 // getIdleAgent sits in a loop waiting for an agent to become idle, then marks it busy and returns its address.
-func (m *master) getIdleAgent() string {
+func (m *master) getIdleAgent(ctx context.Context) (string, error) {
 	for {
+		if err := ctx.Err(); err != nil {
+			return "", err
+		}
 		m.amu.Lock()
 		var address string
 		if len(m.idleAgents) > 0 {
@@ -136,7 +172,7 @@ func (m *master) getIdleAgent() string {
 			}
 			delete(m.idleAgents, address)
 			m.amu.Unlock()
-			return address
+			return address, nil
 		}
 		m.amu.Unlock()
 		time.Sleep(idleWaitTime)
@@ -152,33 +188,32 @@ func (out *svx) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(mf, `<?xml version="1.0"?>
+	_, err = fmt.Fprintf(mf, `<?xml version="1.0"?>
 <grid version="1.0" gridSizeX="%v" gridSizeY="%v" gridSizeZ="%v" voxelSize="%v" subvoxelBits="8" originX="%v" originY="%v" originZ="%v" slicesOrientation="Y" >
   <channels>
     <channel type="DENSITY" bits="8" slices="%v/out-%v-%v-%v-%v-%%04d.png" />
   </channels>
 </grid>
 `, base.ModelDimX+2, base.ModelDimZ+2, base.ModelDimY+2, base.MMPV*1e-3, base.MBB.Min.X, base.MBB.Min.Z, base.MBB.Min.Y, in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ())
-	return nil
+	return err
 }
 
-func (out *svx) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
+func (out *svx) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) error {
 	// For Shapeways, create a black base and a black top.
 	rect := image.Rect(0, 0, base.ModelDimX+2, base.ModelDimY+2)
 	img := image.NewGray(rect)
 	draw.Draw(img, rect, image.Black, image.ZP, draw.Over)
 	out.zmu.Lock()
 	defer out.zmu.Unlock()
-	outf := func(fn string) {
+	outf := func(fn string) error {
 		f, err := out.zipFile.Create(fn)
 		if err != nil {
-			log.Printf("error: %v", err)
-			return
-		}
-		if err := png.Encode(f, img); err != nil {
-			log.Printf("error: %v", err)
+			return err
 		}
+		return png.Encode(f, img)
+	}
+	if err := outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), 0)); err != nil {
+		return err
 	}
-	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), 0))
-	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.ModelDimZ+1))
+	return outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.ModelDimZ+1))
 }
-- 
2.43.0


From 60c6a3fb0ebabfcbcb633a56de28e5c362a59373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 30/57] fix: stldice-slave never returned the mesh it was asked
 for

---
 server/stldice-slave/stldice-slave.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index 0efa300..d3418d4 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -125,7 +125,7 @@ func (s *server) GetSTLMesh(ctx context.Context, in *pb.GetSTLMeshRequest) (*pb.
 			return nil, err
 		}
 	}
-	return &pb.GetSTLMeshReply{}, nil
+	return &pb.GetSTLMeshReply{StlFile: buf.Bytes()}, nil
 }
 
 func main() {
-- 
2.43.0


From 16fb16a976c7c8f9d70122382738f803ab079ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 31/57] fix: an incomplete triangle in an ASCII STL file
 crashed stldice-slave

---
 server/stldice-slave/stldice-slave.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index d3418d4..d5513e6 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -182,6 +182,9 @@ func loadSTLA(r io.Reader) (*gl.Mesh, error) {
 			vertexes = append(vertexes, gl.Vector{f[0], f[1], f[2]})
 		}
 	}
+	if len(vertexes)%3 != 0 {
+		return nil, fmt.Errorf("incomplete triangle in STL file: %v vertexes", len(vertexes))
+	}
 	var triangles []*gl.Triangle
 	for i := 0; i < len(vertexes); i += 3 {
 		t := gl.Triangle{}
-- 
2.43.0


From 7936f530b1ff7a89ecb813df019db65586de1169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 32/57] fix: AddSTLMesh reported success after storing an STL
 file as binvox, and the next AddSTLMesh or SubSTLMesh crashed stldice-slave

---
 server/stldice-slave/stldice-slave.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index d5513e6..edd784d 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -6,6 +6,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"flag"
 	"fmt"
 	"io"
@@ -223,7 +224,7 @@ func loadSTLB(r io.Reader) (*gl.Mesh, error) {
 // voxelize voxelizes a mesh using the provided VoxelRegion.
 func voxelize(voxelRegion *pb.VoxelRegion, mesh *gl.Mesh) (*binvox.BinVOX, error) {
 	// TODO(gmlewis); write this.
-	return nil, nil
+	return nil, errors.New("voxelize is not implemented")
 }
 
 // voxelOp performs a boolean union or a boolean difference on the two meshes and returns the result.
-- 
2.43.0


From b3b239e397804db1fedfac424f651bf74c360ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 33/57] fix: svx2stl crashed when manifest.xml was missing or
 not the first file

---
 cmd/svx2stl/main.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 833b2af..1abe5d9 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -60,20 +60,31 @@ func read(filename string) (*binvox.BinVOX, error) {
 	defer r.Close()
 
 	var sliceNameFmt string
-	for _, f := range r.File {
-		rc, err := f.Open()
-		if err != nil {
-			log.Fatal(err)
-		}
-
+	for _, f := range r.File { // the manifest is not necessarily the first file
 		if f.Name == "manifest.xml" {
+			rc, err := f.Open()
+			if err != nil {
+				log.Fatal(err)
+			}
 			model, sliceNameFmt, err = parseManifest(rc)
 			if err != nil {
 				return nil, fmt.Errorf("parseManifest: %v", err)
 			}
 			rc.Close()
+		}
+	}
+	if model == nil {
+		return nil, fmt.Errorf("could not find manifest.xml in %q", filename)
+	}
+
+	for _, f := range r.File {
+		if f.Name == "manifest.xml" {
 			continue
 		}
+		rc, err := f.Open()
+		if err != nil {
+			log.Fatal(err)
+		}
 
 		var sliceNum int
 		if n, err := fmt.Sscanf(f.Name, sliceNameFmt, &sliceNum); err != nil || n != 1 {
-- 
2.43.0


From 66da3e141768f3ae3ff4100a6757a7578d6bbca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 34/57] fix: svx2stl wrote models at 1/dim of their size

---
 cmd/svx2stl/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 1abe5d9..dca6731 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -76,6 +76,7 @@ func read(filename string) (*binvox.BinVOX, error) {
 	if model == nil {
 		return nil, fmt.Errorf("could not find manifest.xml in %q", filename)
 	}
+	model.Scale *= float64(model.Dim()) // from the size of a voxel to the size of the model
 
 	for _, f := range r.File {
 		if f.Name == "manifest.xml" {
-- 
2.43.0


From 1dc88513f93b77c585b11acba6f5814002f73448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 35/57] fix: svx2stl mirrored models whose slices are oriented
 along Y

---
 cmd/svx2stl/main.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index dca6731..f5984af 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -8,6 +8,7 @@ package main
 
 import (
 	"archive/zip"
+	"bytes"
 	"encoding/xml"
 	"flag"
 	"fmt"
@@ -59,17 +60,19 @@ func read(filename string) (*binvox.BinVOX, error) {
 	}
 	defer r.Close()
 
-	var sliceNameFmt string
+	var sliceNameFmt, orientation string
 	for _, f := range r.File { // the manifest is not necessarily the first file
 		if f.Name == "manifest.xml" {
 			rc, err := f.Open()
 			if err != nil {
 				log.Fatal(err)
 			}
-			model, sliceNameFmt, err = parseManifest(rc)
+			var buf bytes.Buffer
+			model, sliceNameFmt, err = parseManifest(io.TeeReader(rc, &buf))
 			if err != nil {
 				return nil, fmt.Errorf("parseManifest: %v", err)
 			}
+			orientation = parseOrientation(buf.Bytes())
 			rc.Close()
 		}
 	}
@@ -98,23 +101,39 @@ func read(filename string) (*binvox.BinVOX, error) {
 		}
 		rc.Close()
 
-		scanImage(img, model, sliceNum)
+		scanImage(img, model, sliceNum, orientation)
 	}
 
 	return model, nil
 }
 
-func scanImage(img image.Image, model *binvox.BinVOX, z int) {
+func scanImage(img image.Image, model *binvox.BinVOX, z int, orientation string) {
 	for y := img.Bounds().Min.Y; y < img.Bounds().Max.Y; y++ {
 		for x := img.Bounds().Min.X; x < img.Bounds().Max.X; x++ {
 			c := color.GrayModel.Convert(img.At(x, y)).(color.Gray)
-			if c.Y >= 128 {
+			if c.Y < 128 {
+				continue
+			}
+			if orientation == "Y" { // slices are X-Z planes
+				model.Add(x, z, y)
+			} else {
 				model.Add(x, y, z)
 			}
 		}
 	}
 }
 
+// parseOrientation returns the axis that is perpendicular to the slices.
+func parseOrientation(manifest []byte) string {
+	var grid struct {
+		SlicesOrientation string `xml:"slicesOrientation,attr"`
+	}
+	if err := xml.Unmarshal(manifest, &grid); err != nil {
+		return ""
+	}
+	return strings.ToUpper(grid.SlicesOrientation)
+}
+
 func parseManifest(f io.Reader) (*binvox.BinVOX, string, error) {
 	buf, err := ioutil.ReadAll(f)
 	if err != nil {
-- 
2.43.0


From 3484e8b1cc0cf774086cf207aa1b1144adf0d16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 36/57] fix: Voxelize left holes where a slice goes through a
 vertex of the mesh

---
 binvox/voxelize.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index 659e913..058b1bb 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -141,16 +141,21 @@ func intersectZPlane(mesh *gl.Mesh, z float64) (result []*intersectionPair) {
 func intersectTriZPlane(t *gl.Triangle, z float64) (*intersectionPair, bool) {
 	v1, ok1 := intersectSegment(t.V1.Position, t.V2.Position, z)
 	v2, ok2 := intersectSegment(t.V2.Position, t.V3.Position, z)
-	if ok1 && ok2 {
+	// If the plane goes through V2, then both points are V2 and the other end
+	// of the intersection could be on the third segment.
+	if ok1 && ok2 && v1.Distance(v2) > epsilon {
 		return &intersectionPair{v1: v1, v2: v2, tri: t}, true
 	}
 	v3, ok3 := intersectSegment(t.V3.Position, t.V1.Position, z)
-	if ok1 && ok3 {
+	if ok1 && ok3 && v1.Distance(v3) > epsilon {
 		return &intersectionPair{v1: v1, v2: v3, tri: t}, true
 	}
 	if ok2 && ok3 {
 		return &intersectionPair{v1: v2, v2: v3, tri: t}, true
 	}
+	if ok1 && (ok2 || ok3) {
+		return &intersectionPair{v1: v1, v2: v1, tri: t}, true
+	}
 	return nil, false
 }
 
-- 
2.43.0


From a29801783008b3ccd421d0c2d37f5bf703735837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 37/57] fix: Voxelize left holes in, and filled rows outside
 of, concave and overlapping solids

---
 binvox/voxelize.go | 101 +++++++++++++++++++++++++++++++--------------
 1 file changed, 69 insertions(+), 32 deletions(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index 058b1bb..a9832a0 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"log"
 	"math"
+	"sort"
 	"sync"
 
 	gl "github.com/fogleman/fauxgl"
@@ -116,8 +117,66 @@ func (b *BinVOX) voxelizeZ(mesh *gl.Mesh, zi int, dz, vpmm float64, setVoxelFunc
 		// log.Printf("voxelizeZ(%v): pair=%#v", zi, pair)
 		b.rasterizeShellPair(pair, zi, z, dz, vpmm, set, xMinMax)
 	}
+	crossings := make(map[int][]crossing)
+	for _, t := range mesh.Triangles {
+		b.addCrossings(t, z, vpmm, crossings)
+	}
 	// log.Printf("voxelizeZ(%v): flood filling %v raster lines", zi, len(xMinMax))
-	b.floodFill(zi, set, setVoxelFunc, xMinMax)
+	b.floodFill(zi, set, setVoxelFunc, xMinMax, crossings)
+}
+
+// crossing represents a point (in voxel units) where the center line of a
+// raster line goes through the surface of the mesh. depth is +1 when it
+// enters the model and -1 when it leaves the model with increasing x.
+// side 0 is the slice just below the plane, and side 1 is the slice just above
+// it. They only differ when the plane goes through vertices of the mesh.
+type crossing struct {
+	x     float64
+	depth int
+	side  int
+}
+
+// addCrossings adds the crossings of a triangle at height z to each raster line.
+func (b *BinVOX) addCrossings(t *gl.Triangle, z, vpmm float64, crossings map[int][]crossing) {
+	edges := [][2]gl.Vector{
+		{t.V1.Position, t.V2.Position},
+		{t.V2.Position, t.V3.Position},
+		{t.V3.Position, t.V1.Position},
+	}
+	for side := 0; side < 2; side++ {
+		above := func(v gl.Vector) bool { return v.Z > z || (v.Z == z && side == 0) }
+		// up and down are the points on the edges that go up or down through the plane.
+		var up, down gl.Vector
+		var found bool
+		for _, e := range edges {
+			// Neighboring triangles have to agree on the point on their common edge.
+			switch {
+			case !above(e[0]) && above(e[1]):
+				up = e[0].Lerp(e[1], (z-e[0].Z)/(e[1].Z-e[0].Z))
+				found = true
+			case above(e[0]) && !above(e[1]):
+				down = e[1].Lerp(e[0], (z-e[1].Z)/(e[0].Z-e[1].Z))
+			}
+		}
+		if !found {
+			continue
+		}
+
+		// Seen from above, the model is on the left side when going from down to up.
+		depth := 1
+		x1, y1 := vpmm*(up.X-b.TX), vpmm*(up.Y-b.TY)
+		x2, y2 := vpmm*(down.X-b.TX), vpmm*(down.Y-b.TY)
+		if y1 > y2 {
+			depth = -1
+			x1, y1, x2, y2 = x2, y2, x1, y1
+		}
+		first := math.Max(0, math.Ceil(y1-0.5))
+		last := math.Min(float64(b.NY), math.Ceil(y2-0.5))
+		for y := first; y < last; y++ {
+			x := x1 + (x2-x1)*(y+0.5-y1)/(y2-y1)
+			crossings[int(y)] = append(crossings[int(y)], crossing{x: x, depth: depth, side: side})
+		}
+	}
 }
 
 // intersectionPair represents an intersection between a triangle and the z-plane.
@@ -262,46 +321,24 @@ func (x xMinMaxMap) update(xi, yi int) {
 }
 
 // floodFill flood-fills the internal voxels within the voxel shell.
-func (b *BinVOX) floodFill(zi int, set setMap, setVoxelFunc func(k Key), xMinMax xMinMaxMap) {
+func (b *BinVOX) floodFill(zi int, set setMap, setVoxelFunc func(k Key), xMinMax xMinMaxMap, crossings map[int][]crossing) {
 	var wg sync.WaitGroup
 	for yi, mm := range xMinMax { // yi >= 0 && yi < b.NY
 		wg.Add(1)
 		go func(yi, min, max int) {
-			var inside bool
-			seenTris := make(map[*gl.Triangle]struct{}) // Only process each triangle once.
+			row := crossings[yi]
+			sort.Slice(row, func(i, j int) bool { return row[i].x < row[j].x })
+			var depth [2]int // number of solids that contain the center of the voxel
 			for xi := min; xi <= max; xi++ {
 				if xi >= b.NX { // Don't care past the subregion of interest.
 					break
 				}
-				k := Key{xi, yi, zi}
-				if len(set[k]) > 0 { // triangles intersect this voxel.
-					if xi >= 0 {
-						setVoxelFunc(k)
-					}
-					var inCount, outCount int
-					for _, tri := range set[k] {
-						if _, ok := seenTris[tri]; ok {
-							continue
-						}
-						seenTris[tri] = struct{}{}
-						switch d := tri.V1.Normal.Dot(gl.V(-1, 0, 0)); {
-						case d > epsilon:
-							inCount++
-						case d < -epsilon:
-							outCount++
-						default:
-						}
-					}
-					switch {
-					case inCount > outCount:
-						inside = true
-					case inCount < outCount:
-						inside = false
-						// otherwise, keep previous value
-					}
-					continue
+				for ; len(row) > 0 && row[0].x <= float64(xi)+0.5; row = row[1:] {
+					depth[row[0].side] += row[0].depth
 				}
-				if inside && xi >= 0 {
+				k := Key{xi, yi, zi}
+				// triangles intersect this voxel or its center is inside.
+				if xi >= 0 && (len(set[k]) > 0 || depth[0] > 0 || depth[1] > 0) {
 					setVoxelFunc(k)
 				}
 			}
-- 
2.43.0


From e4f3a28d22864d60ca5db5600634658f50df7c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 38/57] fix: neighbors of merged voxels were lost when the list
 of shell voxels was reallocated

---
 vshell/merge.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index 92da541..6a6a714 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -100,7 +100,7 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 	}
 
 	log.Printf("processing %v voxels...", len(lookup))
-	var shellCount int
+	var newShell []VShVoxel // appended last, since old refers to the elements of vs.Voxels
 	toRemove := make(lookupMap)
 	for k := range lookup {
 		neighbors, toCheck := lookup.findNeighbors(k, old)
@@ -118,10 +118,10 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 			continue
 		}
 
-		shellCount++
-		vs.Voxels = append(vs.Voxels, VShVoxel{X: k.X, Y: k.Y, Z: k.Z, N: neighbors})
+		newShell = append(newShell, VShVoxel{X: k.X, Y: k.Y, Z: k.Z, N: neighbors})
 	}
-	log.Printf("added %v voxels to shell", shellCount)
+	vs.Voxels = append(vs.Voxels, newShell...)
+	log.Printf("added %v voxels to shell", len(newShell))
 	if len(toRemove) > 0 {
 		log.Printf("removing %v voxels from old shell...", len(toRemove))
 		newVoxels := make([]VShVoxel, 0, len(vs.Voxels)-len(toRemove))
-- 
2.43.0


From 79bd59c4c633d297337eb9183f28bbebec792d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 39/57] fix: agents registered an address that they do not
 listen on, or an invalid one

---
 stl2svx/stl2svx-server/stl2svx-server.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/stl2svx/stl2svx-server/stl2svx-server.go b/stl2svx/stl2svx-server/stl2svx-server.go
index c916a7d..3bd35bf 100644
--- a/stl2svx/stl2svx-server/stl2svx-server.go
+++ b/stl2svx/stl2svx-server/stl2svx-server.go
@@ -4,9 +4,9 @@ package main
 
 import (
 	"flag"
-	"fmt"
 	"log"
 	"net"
+	"strconv"
 	"strings"
 
 	"github.com/gmlewis/stldice/v4/stl2svx/agent"
@@ -50,11 +50,13 @@ func main() {
 	s.Serve(lis)
 }
 
+// getAddress returns the address that the master can use to reach this agent.
 func getAddress(tcpAddr *net.TCPAddr) string {
-	localPort := tcpAddr.String()
-	port := strings.Split(localPort, ":")
+	if len(tcpAddr.IP) > 0 && !tcpAddr.IP.IsUnspecified() {
+		return tcpAddr.String() // the agent can not be reached at any other address
+	}
+	port := strconv.Itoa(tcpAddr.Port)
 
-	var result string
 	ifaces, err := net.Interfaces()
 	if err != nil {
 		log.Fatalf("net.Interfaces: %v", err)
@@ -70,16 +72,15 @@ func getAddress(tcpAddr *net.TCPAddr) string {
 			switch v := addr.(type) {
 			case *net.IPNet:
 				ip = v.IP
-				result = ip.String()
+				result := ip.String()
 				if !strings.HasPrefix(result, "127.") && !strings.Contains(result, ":") {
-					return fmt.Sprintf("%v:%v", result, port[len(port)-1])
+					return net.JoinHostPort(result, port)
 				}
 			case *net.IPAddr:
 				ip = v.IP
-				result = ip.String()
 			}
-			log.Printf("got address: %v", result)
+			log.Printf("got address: %v", ip)
 		}
 	}
-	return fmt.Sprintf("%v:%v", result, port[len(port)-1])
+	return net.JoinHostPort("127.0.0.1", port)
 }
-- 
2.43.0


From e9778d4dddb3872b6cfffb344ecd94ca9e8c3923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 40/57] fix: stldice-slave and stldice-master ignored -port

---
 server/stldice-master/stldice-master.go | 2 ++
 server/stldice-slave/stldice-slave.go   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/server/stldice-master/stldice-master.go b/server/stldice-master/stldice-master.go
index cf892de..63fd08a 100644
--- a/server/stldice-master/stldice-master.go
+++ b/server/stldice-master/stldice-master.go
@@ -37,6 +37,8 @@ func (s *server) GetSTLMesh(ctx context.Context, in *pb.GetSTLMeshRequest) (*pb.
 }
 
 func main() {
+	flag.Parse()
+
 	lis, err := net.Listen("tcp", *port)
 	if err != nil {
 		log.Fatalf("failed to listen: %v", err)
diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index edd784d..d5862b7 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -130,6 +130,8 @@ func (s *server) GetSTLMesh(ctx context.Context, in *pb.GetSTLMeshRequest) (*pb.
 }
 
 func main() {
+	flag.Parse()
+
 	lis, err := net.Listen("tcp", *port)
 	if err != nil {
 		log.Fatalf("failed to listen: %v", err)
-- 
2.43.0


From 60875fb48dd718c854a42bfcc6a5dde471c6bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 41/57] fix: runs of voxels were accepted in files whose grid
 has no voxels

---
 binvox/read.go | 2 +-
 vshell/read.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/binvox/read.go b/binvox/read.go
index 930b8ee..a8e37e9 100644
--- a/binvox/read.go
+++ b/binvox/read.go
@@ -149,7 +149,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*BinVOX, error) {
 		// The y-coordinate runs fastest, then the z-coordinate, then the x-coordinate.
 		// Note that we are only saving the white pixels.
 		for i := 0; i < int(count); i++ {
-			if xi >= nx {
+			if xi >= nx || ny == 0 || nz == 0 {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
 			if value == 1 && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
diff --git a/vshell/read.go b/vshell/read.go
index 7333ced..79ccde6 100644
--- a/vshell/read.go
+++ b/vshell/read.go
@@ -156,7 +156,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 		// The y-coordinate runs fastest, then the z-coordinate, then the x-coordinate.
 		// Note that we are only saving the white pixels.
 		for i := 0; i < int(count); i++ {
-			if xi >= nx {
+			if xi >= nx || ny == 0 || nz == 0 {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
 			if value != 0 && value != 0xffffffff && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
-- 
2.43.0


From 440490e794c7fbff59672ef48aeb68755cafe923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 42/57] fix: svx2stl rejected archives with more slices than
 the digits of their names

---
 cmd/svx2stl/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index f5984af..595e419 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -20,6 +20,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"regexp"
 	"strings"
 
 	"github.com/gmlewis/stldice/v4/binvox"
@@ -50,6 +51,8 @@ func main() {
 	log.Println("Done.")
 }
 
+var widthRE = regexp.MustCompile(`%[0-9]+d`)
+
 func read(filename string) (*binvox.BinVOX, error) {
 	log.Printf("Loading file %q...", filename)
 	var model *binvox.BinVOX
@@ -79,6 +82,8 @@ func read(filename string) (*binvox.BinVOX, error) {
 	if model == nil {
 		return nil, fmt.Errorf("could not find manifest.xml in %q", filename)
 	}
+	// The width of the name's verb is a minimum when printing, but a maximum when scanning.
+	sliceScanFmt := widthRE.ReplaceAllString(sliceNameFmt, "%d")
 	model.Scale *= float64(model.Dim()) // from the size of a voxel to the size of the model
 
 	for _, f := range r.File {
@@ -91,7 +96,7 @@ func read(filename string) (*binvox.BinVOX, error) {
 		}
 
 		var sliceNum int
-		if n, err := fmt.Sscanf(f.Name, sliceNameFmt, &sliceNum); err != nil || n != 1 {
+		if n, err := fmt.Sscanf(f.Name, sliceScanFmt, &sliceNum); err != nil || n != 1 {
 			return nil, fmt.Errorf("unable to parse %q using %q", f.Name, sliceNameFmt)
 		}
 
-- 
2.43.0


From c92975966fa99c2c209029f008000a9150f07be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:56 +0000
Subject: [PATCH 43/57] fix: stl2svx wrote images while the zip file and its
 manifest were still being created

---
 cmd/stl2svx/stl2svx.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/stl2svx/stl2svx.go b/cmd/stl2svx/stl2svx.go
index eef70ab..6e3d961 100644
--- a/cmd/stl2svx/stl2svx.go
+++ b/cmd/stl2svx/stl2svx.go
@@ -181,9 +181,11 @@ func generateMR(args []string, dimOnly bool) (ch chan *bvInfo, dimZ int, err err
 				if dimX == 0 || dimY == 0 || dimZ == 0 {
 					log.Fatalf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
 				}
-				// dimZ has now been calculated... parent function can return.
-				wg.Done()
-				if dimOnly { // generate the manifest file.
+				// dimZ has now been calculated... parent function can return,
+				// unless it needs the zip file.
+				if !dimOnly {
+					wg.Done()
+				} else { // generate the manifest file.
 					// Note that "Up" in Shapeways is +Y, so swap Y and Z (and keep mirroring Y when writing the image).
 					// Shapeways will *not* accept slicesOrientation="Z" despite documentation.
 					// Also swap the originY/Z values.
@@ -196,6 +198,7 @@ func generateMR(args []string, dimOnly bool) (ch chan *bvInfo, dimZ int, err err
 `, newModelDimX+2, newModelDimZ+2, newModelDimY+2, mmpv*1e-3, mbb.Min.X, mbb.Min.Z, mbb.Min.Y, *dim, *dim, *nX, *nY, *nZ)
 					log.Printf("SVX manifest.xml file:\n\n%v\n\n", b)
 					writeManifest(b, *dim)
+					wg.Done()
 					break // don't continue
 				}
 				maxDim := dimX
-- 
2.43.0


From 1c1e6b84fcc146619bac8b7cb813c80d6e2214f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:58 +0000
Subject: [PATCH 44/57] fix: stl2svx never closed its output, so that bucket
 objects were not created, and ignored errors

---
 cmd/stl2svx/stl2svx.go | 56 ++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/cmd/stl2svx/stl2svx.go b/cmd/stl2svx/stl2svx.go
index 6e3d961..b50217d 100644
--- a/cmd/stl2svx/stl2svx.go
+++ b/cmd/stl2svx/stl2svx.go
@@ -38,6 +38,7 @@ var (
 	bucket = flag.String("bucket", "", "Google Cloud Storage bucket in which to save images (e.g. 'gmlewis.appspot.com')")
 
 	storageBucket *storage.BucketHandle
+	outFile       io.WriteCloser
 	zipFile       *zip.Writer
 )
 
@@ -63,13 +64,16 @@ func main() {
 		defer client.Close()
 	}
 
-	// If any STL files are passed in, this is the master.
-	if *stl != "" {
-		master()
+	if *stl == "" {
+		log.Fatal("empty -stl flag")
 	}
+	master()
 
 	if err := zipFile.Close(); err != nil {
-		log.Printf("error: %v", err)
+		log.Fatalf("error: %v", err)
+	}
+	if err := outFile.Close(); err != nil {
+		log.Fatalf("error: %v", err)
 	}
 
 	log.Print("Done.")
@@ -88,11 +92,10 @@ func master() {
 	outf := func(fn string) {
 		f, err := zipFile.Create(fn)
 		if err != nil {
-			log.Printf("error: %v", err)
-			return
+			log.Fatalf("error: %v", err)
 		}
 		if err := png.Encode(f, img); err != nil {
-			log.Printf("error: %v", err)
+			log.Fatalf("error: %v", err)
 		}
 	}
 	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", *dim, *dim, *nX, *nY, *nZ, 0))
@@ -116,7 +119,10 @@ func agent(agentID int) {
 	var wg sync.WaitGroup
 	wg.Add(1)
 	go func() {
-		log.Println(imager(agentID, vxCh))
+		if err := imager(agentID, vxCh); err != nil {
+			log.Fatal(err)
+		}
+		log.Printf("imager(%v) done.", agentID)
 		wg.Done()
 	}()
 
@@ -254,8 +260,7 @@ type voxelInfo struct {
 func voxelize(bvi *bvInfo, zi int, ch chan<- voxelInfo) {
 	bv := bvi.bv
 	if err := bv.VoxelizeZ(bvi.mesh, zi); err != nil {
-		log.Printf("voxelize(%v): %v", zi, err)
-		return
+		log.Fatalf("voxelize(%v): %v", zi, err)
 	}
 
 	vType := "cut"
@@ -291,7 +296,7 @@ type pixelKey struct {
 // imager takes the voxels from voxelize and creates
 // a 2D image at the provided z height.
 // It outputs an image to disk.
-func imager(z int, ch <-chan voxelInfo) string {
+func imager(z int, ch <-chan voxelInfo) error {
 	log.Printf("imager: z=%v", z)
 	pixels := make(map[pixelKey]bool)
 	for value := range ch {
@@ -328,18 +333,17 @@ func imager(z int, ch <-chan voxelInfo) string {
 	log.Printf("imager(%v): writing %v to zip file...", z, outFile)
 	f, err := zipFile.Create(outFile)
 	if err != nil {
-		return fmt.Sprintf("imager(%v) error: %v", z, err)
+		return fmt.Errorf("imager(%v) error: %v", z, err)
 	}
 
 	if err := png.Encode(f, img); err != nil {
-		return fmt.Sprintf("imager(%v) error: %v", z, err)
+		return fmt.Errorf("imager(%v) error: %v", z, err)
 	}
-	return fmt.Sprintf("imager(%v) done.", z)
+	return nil
 }
 
 func writeManifest(buf string, dim int) {
-	var f io.WriteCloser
-	const outFile = "manifest.xml"
+	const manifestFile = "manifest.xml"
 	zipName := fmt.Sprintf("out%v.svx", dim)
 	if *bucket != "" {
 		log.Printf("writing %v to bucket %v...", zipName, *bucket)
@@ -349,23 +353,23 @@ func writeManifest(buf string, dim int) {
 		w.ContentType = "archive/zip"
 		// Entries are immutable, be aggressive about caching (1 day).
 		w.CacheControl = "public, max-age=86400"
-		f = w
+		outFile = w
 	} else {
 		log.Printf("writing %v locally...", zipName)
 		w, err := os.Create(zipName)
 		if err != nil {
-			log.Printf("error: %v", err)
-			return
+			log.Fatalf("error: %v", err)
 		}
-		f = w
+		outFile = w
 	}
 
-	zipFile = zip.NewWriter(f)
-	log.Printf("Writing file %v ...", outFile)
-	mf, err := zipFile.Create(outFile)
+	zipFile = zip.NewWriter(outFile)
+	log.Printf("Writing file %v ...", manifestFile)
+	mf, err := zipFile.Create(manifestFile)
 	if err != nil {
-		log.Printf("error: %v", err)
-		return
+		log.Fatalf("error: %v", err)
+	}
+	if _, err := fmt.Fprint(mf, buf); err != nil {
+		log.Fatalf("error: %v", err)
 	}
-	fmt.Fprint(mf, buf)
 }
-- 
2.43.0


From 0898941cf4e01c6fb304e48c9d4a9f2e59821454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:00 +0000
Subject: [PATCH 45/57] fix: stl2svx lost the rest of the model when its
 dimensions are not multiples of the divisions

---
 cmd/stl2svx/stl2svx.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cmd/stl2svx/stl2svx.go b/cmd/stl2svx/stl2svx.go
index b50217d..a410eb5 100644
--- a/cmd/stl2svx/stl2svx.go
+++ b/cmd/stl2svx/stl2svx.go
@@ -178,15 +178,17 @@ func generateMR(args []string, dimOnly bool) (ch chan *bvInfo, dimZ int, err err
 				vpmm := float64(*dim) / scale // voxels per millimeter
 				mmpv = 1.0 / vpmm             // millimeters per voxel
 				modelDimInMM := mbb.Size()
-				newModelDimX := int(math.Ceil(modelDimInMM.X * vpmm))
-				newModelDimY := int(math.Ceil(modelDimInMM.Y * vpmm))
-				newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm))
-				dimX = newModelDimX / *nX
-				dimY = newModelDimY / *nY
-				dimZ = newModelDimZ / *nZ
-				if dimX == 0 || dimY == 0 || dimZ == 0 {
-					log.Fatalf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
+				const epsilon = 1e-6 // of a voxel, so that rounding errors don't add a layer of voxels
+				newModelDimX := int(math.Ceil(modelDimInMM.X*vpmm - epsilon))
+				newModelDimY := int(math.Ceil(modelDimInMM.Y*vpmm - epsilon))
+				newModelDimZ := int(math.Ceil(modelDimInMM.Z*vpmm - epsilon))
+				if newModelDimX < *nX || newModelDimY < *nY || newModelDimZ < *nZ {
+					log.Fatalf("too many divisions: model dimensions = (%v,%v,%v)", newModelDimX, newModelDimY, newModelDimZ)
 				}
+				// subregion dimensions, rounded up so that the subregions cover the entire model
+				dimX = (newModelDimX + *nX - 1) / *nX
+				dimY = (newModelDimY + *nY - 1) / *nY
+				dimZ = (newModelDimZ + *nZ - 1) / *nZ
 				// dimZ has now been calculated... parent function can return,
 				// unless it needs the zip file.
 				if !dimOnly {
-- 
2.43.0


From 797cd1a69624feaaf1e689b81ed03d02081725b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:02 +0000
Subject: [PATCH 46/57] fix: stl2svx stopped when the model was divided along Z

---
 cmd/stl2svx/stl2svx.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cmd/stl2svx/stl2svx.go b/cmd/stl2svx/stl2svx.go
index a410eb5..1796594 100644
--- a/cmd/stl2svx/stl2svx.go
+++ b/cmd/stl2svx/stl2svx.go
@@ -144,16 +144,16 @@ type bvInfo struct {
 // generateMR controls how the MapReduce will run by defining the jobs to
 // be performed by each mapper. It also sends all the data each mapper needs
 // through the provided channel.
-// dimZ is the number of agents needed to output the images.
-func generateMR(args []string, dimOnly bool) (ch chan *bvInfo, dimZ int, err error) {
+// modelDimZ is the number of agents needed to output the images.
+func generateMR(args []string, dimOnly bool) (ch chan *bvInfo, modelDimZ int, err error) {
 	ch = make(chan *bvInfo)
-	var wg sync.WaitGroup // Wait to return when dimZ has been calculated
+	var wg sync.WaitGroup // Wait to return when modelDimZ has been calculated
 	wg.Add(1)
 	go func() {
 		var (
 			mbb                  *gl.Box
 			subregionScale, mmpv float64
-			dimX, dimY           int
+			dimX, dimY, dimZ     int
 		)
 
 		for i, arg := range args {
@@ -189,7 +189,8 @@ func generateMR(args []string, dimOnly bool) (ch chan *bvInfo, dimZ int, err err
 				dimX = (newModelDimX + *nX - 1) / *nX
 				dimY = (newModelDimY + *nY - 1) / *nY
 				dimZ = (newModelDimZ + *nZ - 1) / *nZ
-				// dimZ has now been calculated... parent function can return,
+				modelDimZ = newModelDimZ
+				// modelDimZ has now been calculated... parent function can return,
 				// unless it needs the zip file.
 				if !dimOnly {
 					wg.Done()
@@ -249,7 +250,7 @@ func generateMR(args []string, dimOnly bool) (ch chan *bvInfo, dimZ int, err err
 		close(ch)
 	}()
 	wg.Wait()
-	return ch, dimZ, nil
+	return ch, modelDimZ, nil
 }
 
 type voxelInfo struct {
@@ -261,7 +262,10 @@ type voxelInfo struct {
 // then sends them to the imager.
 func voxelize(bvi *bvInfo, zi int, ch chan<- voxelInfo) {
 	bv := bvi.bv
-	if err := bv.VoxelizeZ(bvi.mesh, zi); err != nil {
+	if zi < bvi.dz || zi >= bvi.dz+bv.NZ {
+		return // the slice is not within this subregion
+	}
+	if err := bv.VoxelizeZ(bvi.mesh, zi-bvi.dz); err != nil {
 		log.Fatalf("voxelize(%v): %v", zi, err)
 	}
 
-- 
2.43.0


From 42005f40341090ebcfd645eb1a6f3e7936a91983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:23 +0000
Subject: [PATCH 47/57] fix: the images of stl2svx did not have the size that
 its SVX manifest declares

---
 cmd/stl2svx/stl2svx.go | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/cmd/stl2svx/stl2svx.go b/cmd/stl2svx/stl2svx.go
index 1796594..94024a3 100644
--- a/cmd/stl2svx/stl2svx.go
+++ b/cmd/stl2svx/stl2svx.go
@@ -80,13 +80,13 @@ func main() {
 }
 
 func master() {
-	_, dimZ, err := generateMR(strings.Split(*stl, ","), true) // just get dimZ
+	_, model, err := generateMR(strings.Split(*stl, ","), true) // just get the dimensions
 	if err != nil {
 		log.Fatal(err)
 	}
 
 	// For Shapeways, create a black base and a black top.
-	rect := image.Rect(0, 0, *dim+2, *dim+2)
+	rect := image.Rect(0, 0, model.X+2, model.Y+2)
 	img := image.NewGray(rect)
 	draw.Draw(img, rect, image.Black, image.ZP, draw.Over)
 	outf := func(fn string) {
@@ -100,17 +100,17 @@ func master() {
 	}
 	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", *dim, *dim, *nX, *nY, *nZ, 0))
 
-	for i := 0; i < dimZ; i++ {
+	for i := 0; i < model.Z; i++ {
 		agent(i)
 	}
 
-	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", *dim, *dim, *nX, *nY, *nZ, dimZ+1))
+	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", *dim, *dim, *nX, *nY, *nZ, model.Z+1))
 }
 
 func agent(agentID int) {
 	log.Printf("Agent %v to process: %v...", agentID, *stl)
 
-	ch, _, err := generateMR(strings.Split(*stl, ","), false)
+	ch, model, err := generateMR(strings.Split(*stl, ","), false)
 	if err != nil {
 		log.Fatal(err)
 	}
@@ -119,7 +119,7 @@ func agent(agentID int) {
 	var wg sync.WaitGroup
 	wg.Add(1)
 	go func() {
-		if err := imager(agentID, vxCh); err != nil {
+		if err := imager(agentID, model, vxCh); err != nil {
 			log.Fatal(err)
 		}
 		log.Printf("imager(%v) done.", agentID)
@@ -144,10 +144,11 @@ type bvInfo struct {
 // generateMR controls how the MapReduce will run by defining the jobs to
 // be performed by each mapper. It also sends all the data each mapper needs
 // through the provided channel.
-// modelDimZ is the number of agents needed to output the images.
-func generateMR(args []string, dimOnly bool) (ch chan *bvInfo, modelDimZ int, err error) {
+// model holds the dimensions of the entire model in voxels;
+// model.Z is the number of agents needed to output the images.
+func generateMR(args []string, dimOnly bool) (ch chan *bvInfo, model binvox.Key, err error) {
 	ch = make(chan *bvInfo)
-	var wg sync.WaitGroup // Wait to return when modelDimZ has been calculated
+	var wg sync.WaitGroup // Wait to return when model has been calculated
 	wg.Add(1)
 	go func() {
 		var (
@@ -189,8 +190,8 @@ func generateMR(args []string, dimOnly bool) (ch chan *bvInfo, modelDimZ int, er
 				dimX = (newModelDimX + *nX - 1) / *nX
 				dimY = (newModelDimY + *nY - 1) / *nY
 				dimZ = (newModelDimZ + *nZ - 1) / *nZ
-				modelDimZ = newModelDimZ
-				// modelDimZ has now been calculated... parent function can return,
+				model = binvox.Key{X: newModelDimX, Y: newModelDimY, Z: newModelDimZ}
+				// model has now been calculated... parent function can return,
 				// unless it needs the zip file.
 				if !dimOnly {
 					wg.Done()
@@ -250,7 +251,7 @@ func generateMR(args []string, dimOnly bool) (ch chan *bvInfo, modelDimZ int, er
 		close(ch)
 	}()
 	wg.Wait()
-	return ch, modelDimZ, nil
+	return ch, model, nil
 }
 
 type voxelInfo struct {
@@ -302,13 +303,16 @@ type pixelKey struct {
 // imager takes the voxels from voxelize and creates
 // a 2D image at the provided z height.
 // It outputs an image to disk.
-func imager(z int, ch <-chan voxelInfo) error {
+func imager(z int, model binvox.Key, ch <-chan voxelInfo) error {
 	log.Printf("imager: z=%v", z)
 	pixels := make(map[pixelKey]bool)
 	for value := range ch {
 		base := value.Base
+		if value.X >= model.X || value.Y >= model.Y {
+			continue // the last subregion can extend beyond the bounds of the base.
+		}
 		// k := pixelKey{value.X, value.Y}
-		k := pixelKey{value.X, *dim - 1 - value.Y} // mirror the Y axis
+		k := pixelKey{value.X, model.Y - 1 - value.Y} // mirror the Y axis
 		if v, ok := pixels[k]; ok {
 			if v {
 				pixels[k] = base
@@ -320,7 +324,7 @@ func imager(z int, ch <-chan voxelInfo) error {
 	log.Printf("imager(%v): processed %v voxels", z, len(pixels))
 
 	// Convert collected pixels into an image.
-	rect := image.Rect(0, 0, *dim+2, *dim+2)
+	rect := image.Rect(0, 0, model.X+2, model.Y+2)
 	img := image.NewGray(rect)
 	// Shapeways requires a single pixel boundary in every dimension!!!
 	draw.Draw(img, rect, image.Black, image.ZP, draw.Over)
-- 
2.43.0


From 0a3fb5c7931d520ddec3d363983b7ed9b527cafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:45 +0000
Subject: [PATCH 48/57] fix: stldice-mr crashed on the first voxel, because
 gleam does not encode structs

---
 cmd/stldice-mr/stldice-mr.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/cmd/stldice-mr/stldice-mr.go b/cmd/stldice-mr/stldice-mr.go
index 979da4a..f627587 100644
--- a/cmd/stldice-mr/stldice-mr.go
+++ b/cmd/stldice-mr/stldice-mr.go
@@ -168,11 +168,6 @@ func generateMR(args []string) (chan interface{}, error) {
 	return ch, nil
 }
 
-type voxelInfo struct {
-	X, Y int
-	Base bool
-}
-
 // voxelize takes an STL file and dices it into voxels
 // then sends them to the imager.
 func voxelize(row []interface{}) error {
@@ -211,7 +206,9 @@ func voxelize(row []interface{}) error {
 			// log.Printf("key %v out-of-bounds (%v,%v,%v)", k, *nX, *nY, *nZ)
 			return // common for a cut to extend beyond the bounds of the base.
 		}
-		gio.Emit(k.Z, voxelInfo{k.X, k.Y, m.Base})
+		if err := gio.Emit(k.Z, k.X, k.Y, m.Base); err != nil {
+			log.Fatalf("voxelize: %v", err)
+		}
 	}
 	for k := range bv.WhiteVoxels {
 		keyFunc(k)
@@ -230,15 +227,14 @@ type pixelKey struct {
 // a 2D image at the provided z height.
 // It outputs an image to disk.
 func imager(row []interface{}) error {
-	z := row[0].(uint64)
+	z := row[0].(int64)
 	log.Printf("imager: z=%v", z)
 	pixels := make(map[pixelKey]bool)
-	for _, r := range row[1].([]interface{}) {
-		vim := r.(map[interface{}]interface{})
-		// log.Printf("vim=%#v, vim[X]=%#v, vim[Y]=%#v, vim[Base]=%#v", vim, vim["X"], vim["Y"], vim["Base"])
-		x := int(vim["X"].(uint64))
-		y := int(vim["Y"].(uint64))
-		base := vim["Base"].(bool)
+	for _, r := range row[1:] {
+		voxel := r.([]interface{}) // X, Y, base
+		x := int(voxel[0].(int64))
+		y := int(voxel[1].(int64))
+		base := voxel[2].(bool)
 		k := pixelKey{x, y}
 		if v, ok := pixels[k]; ok {
 			if v {
-- 
2.43.0


From 53c667df0fc286a6a090ec69750808a2d821692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:47 +0000
Subject: [PATCH 49/57] fix: stldice-mr drew all subregions at the same place

---
 cmd/stldice-mr/stldice-mr.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/stldice-mr/stldice-mr.go b/cmd/stldice-mr/stldice-mr.go
index f627587..a19abaf 100644
--- a/cmd/stldice-mr/stldice-mr.go
+++ b/cmd/stldice-mr/stldice-mr.go
@@ -158,7 +158,7 @@ func generateMR(args []string) (chan interface{}, error) {
 						}
 
 						log.Printf("generateMR: sending %v to mapper", arg)
-						ch <- data
+						ch <- []interface{}{data, xi * dimX, yi * dimY, zi * dimZ}
 					}
 				}
 			}
@@ -172,8 +172,10 @@ func generateMR(args []string) (chan interface{}, error) {
 // then sends them to the imager.
 func voxelize(row []interface{}) error {
 	// log.Printf("voxelize: len(row)=%v", len(row))
+	in := row[0].([]interface{}) // MapIn and the position of its subregion
+	dx, dy, dz := int(in[1].(int64)), int(in[2].(int64)), int(in[3].(int64))
 	m := &mr.MapIn{}
-	if err := proto.Unmarshal(row[0].([]byte), m); err != nil {
+	if err := proto.Unmarshal(in[0].([]byte), m); err != nil {
 		return err
 	}
 
@@ -202,6 +204,9 @@ func voxelize(row []interface{}) error {
 	log.Printf("voxelize: sending %v %v voxels to imager...", len(bv.WhiteVoxels), vType)
 
 	keyFunc := func(k binvox.Key) {
+		k.X += dx
+		k.Y += dy
+		k.Z += dz
 		if k.X < 0 || k.Y < 0 || k.Z < 0 {
 			// log.Printf("key %v out-of-bounds (%v,%v,%v)", k, *nX, *nY, *nZ)
 			return // common for a cut to extend beyond the bounds of the base.
-- 
2.43.0


From c57a3ad6072eb006b52a84b04476377a9072daed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:49 +0000
Subject: [PATCH 50/57] fix: stldice-mr lost the rest of the model when its
 dimensions are not multiples of the divisions

---
 cmd/stldice-mr/stldice-mr.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/cmd/stldice-mr/stldice-mr.go b/cmd/stldice-mr/stldice-mr.go
index a19abaf..eb78347 100644
--- a/cmd/stldice-mr/stldice-mr.go
+++ b/cmd/stldice-mr/stldice-mr.go
@@ -86,6 +86,7 @@ func generateMR(args []string) (chan interface{}, error) {
 			mbb                  *gl.Box
 			subregionScale, mmpv float64
 			dimX, dimY, dimZ     int
+			model                binvox.Key // dimensions of the entire model in voxels
 		)
 
 		for i, arg := range args {
@@ -109,15 +110,18 @@ func generateMR(args []string) (chan interface{}, error) {
 				vpmm := float64(*dim) / scale // voxels per millimeter
 				mmpv = 1.0 / vpmm             // millimeters per voxel
 				modelDimInMM := mbb.Size()
-				newModelDimX := int(math.Ceil(modelDimInMM.X * vpmm))
-				newModelDimY := int(math.Ceil(modelDimInMM.Y * vpmm))
-				newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm))
-				dimX = newModelDimX / *nX
-				dimY = newModelDimY / *nY
-				dimZ = newModelDimZ / *nZ
-				if dimX == 0 || dimY == 0 || dimZ == 0 {
-					log.Fatalf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
+				const epsilon = 1e-6 // of a voxel, so that rounding errors don't add a layer of voxels
+				newModelDimX := int(math.Ceil(modelDimInMM.X*vpmm - epsilon))
+				newModelDimY := int(math.Ceil(modelDimInMM.Y*vpmm - epsilon))
+				newModelDimZ := int(math.Ceil(modelDimInMM.Z*vpmm - epsilon))
+				if newModelDimX < *nX || newModelDimY < *nY || newModelDimZ < *nZ {
+					log.Fatalf("too many divisions: model dimensions = (%v,%v,%v)", newModelDimX, newModelDimY, newModelDimZ)
 				}
+				model = binvox.Key{X: newModelDimX, Y: newModelDimY, Z: newModelDimZ}
+				// subregion dimensions, rounded up so that the subregions cover the entire model
+				dimX = (newModelDimX + *nX - 1) / *nX
+				dimY = (newModelDimY + *nY - 1) / *nY
+				dimZ = (newModelDimZ + *nZ - 1) / *nZ
 				maxDim := dimX
 				if dimY > maxDim {
 					maxDim = dimY
@@ -158,7 +162,7 @@ func generateMR(args []string) (chan interface{}, error) {
 						}
 
 						log.Printf("generateMR: sending %v to mapper", arg)
-						ch <- []interface{}{data, xi * dimX, yi * dimY, zi * dimZ}
+						ch <- []interface{}{data, xi * dimX, yi * dimY, zi * dimZ, model.X, model.Y, model.Z}
 					}
 				}
 			}
@@ -172,8 +176,9 @@ func generateMR(args []string) (chan interface{}, error) {
 // then sends them to the imager.
 func voxelize(row []interface{}) error {
 	// log.Printf("voxelize: len(row)=%v", len(row))
-	in := row[0].([]interface{}) // MapIn and the position of its subregion
+	in := row[0].([]interface{}) // MapIn, the position of its subregion, and the dimensions of the model
 	dx, dy, dz := int(in[1].(int64)), int(in[2].(int64)), int(in[3].(int64))
+	model := binvox.Key{X: int(in[4].(int64)), Y: int(in[5].(int64)), Z: int(in[6].(int64))}
 	m := &mr.MapIn{}
 	if err := proto.Unmarshal(in[0].([]byte), m); err != nil {
 		return err
@@ -211,6 +216,9 @@ func voxelize(row []interface{}) error {
 			// log.Printf("key %v out-of-bounds (%v,%v,%v)", k, *nX, *nY, *nZ)
 			return // common for a cut to extend beyond the bounds of the base.
 		}
+		if k.X >= model.X || k.Y >= model.Y || k.Z >= model.Z {
+			return // the last subregion can extend beyond the bounds of the base.
+		}
 		if err := gio.Emit(k.Z, k.X, k.Y, m.Base); err != nil {
 			log.Fatalf("voxelize: %v", err)
 		}
-- 
2.43.0


From bcabe3721c821c3903e4a8d8cc4724d7b1e21a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:37 +0000
Subject: [PATCH 51/57] fix: the scripts of stldice, binvox-dice and
 voxcut-dice broke on file names with blanks or other special characters

---
 cmd/binvox-dice/binvox-dice.go | 16 ++++++++--------
 cmd/stldice/stldice.go         |  9 +++++----
 cmd/voxcut-dice/voxcut-dice.go |  3 ++-
 internal/shell/shell.go        | 26 ++++++++++++++++++++++++++
 4 files changed, 41 insertions(+), 13 deletions(-)
 create mode 100644 internal/shell/shell.go

diff --git a/cmd/binvox-dice/binvox-dice.go b/cmd/binvox-dice/binvox-dice.go
index b59255a..dcc42a3 100644
--- a/cmd/binvox-dice/binvox-dice.go
+++ b/cmd/binvox-dice/binvox-dice.go
@@ -20,6 +20,7 @@ import (
 	"strings"
 
 	gl "github.com/fogleman/fauxgl"
+	"github.com/gmlewis/stldice/v4/internal/shell"
 )
 
 const (
@@ -79,7 +80,7 @@ func main() {
 
 	fmt.Println("#!/bin/bash -x")
 	fmt.Println("# Generated with command line:")
-	fmt.Printf("# binvox-dice \\\n#\t-factor %v \\\n#\t-mbb %q \\\n#\t-subx %v \\\n#\t-suby %v \\\n#\t-subz %v \\\n#\t%v\n", *factor, *mbbString, *subX, *subY, *subZ, strings.Join(flag.Args(), " "))
+	fmt.Printf("# binvox-dice \\\n#\t-factor %v \\\n#\t-mbb %q \\\n#\t-subx %v \\\n#\t-suby %v \\\n#\t-subz %v \\\n#\t%v\n", *factor, *mbbString, *subX, *subY, *subZ, strings.ReplaceAll(shell.Join(flag.Args()), "\n", "\n#\t"))
 
 	xf := *factor
 	if !*subX {
@@ -94,12 +95,6 @@ func main() {
 		zf = 1
 	}
 
-	sFmt := "voxcut -ostl out%[1]v.stl"
-	for _, arg := range flag.Args() {
-		a := strings.TrimSuffix(arg, ".stl")
-		sFmt += " " + a + "%[1]v.binvox"
-	}
-
 	var numCuts int
 	for zi := 0; zi < zf; zi++ {
 		z1 := gl.V(0, 0, llz).Lerp(gl.V(0, 0, urz), float64(zi)/float64(zf)).Z
@@ -112,6 +107,7 @@ func main() {
 				x2 := gl.V(0, 0, llx).Lerp(gl.V(0, 0, urx), float64(xi+1)/float64(xf)).Z
 				fmt.Println()
 				for _, arg := range flag.Args() {
+					arg = shell.Quote(arg)
 					fmt.Printf("binvox -pb -d %v -bb %g %g %g %g %g %g %v\n", maxD, x1, y1, z1, x2, y2, z2, arg)
 				}
 
@@ -120,7 +116,11 @@ func main() {
 				if numCuts > 0 {
 					c = fmt.Sprintf("_%v", numCuts)
 				}
-				fmt.Printf(sFmt+"\n", c)
+				fmt.Printf("voxcut -ostl out%v.stl", c)
+				for _, arg := range flag.Args() {
+					fmt.Printf(" %v", shell.Quote(strings.TrimSuffix(arg, ".stl")+c+".binvox"))
+				}
+				fmt.Println()
 
 				numCuts++
 			}
diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 317350c..21de37c 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -20,6 +20,7 @@ import (
 
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/internal/shell"
 )
 
 var (
@@ -106,14 +107,14 @@ func main() {
 	}
 	common := fmt.Sprintf("%v-%v-%v-%v", *dim, *nX, *nY, *nZ)
 	for _, v := range pfxs {
-		fmt.Printf("voxcut -ostl %[1]v-%[4]v%[3]v.stl %[2]v-%[4]v%[3]v.binvox", stlOutPrefix, strings.TrimSuffix(flag.Arg(0), ".stl"), v, common)
-		for _, arg := range flag.Args()[1:] {
-			fmt.Printf(" %v-%v%v.binvox", strings.TrimSuffix(arg, ".stl"), common, v)
+		fmt.Printf("voxcut -ostl %v", shell.Quote(fmt.Sprintf("%v-%v%v.stl", stlOutPrefix, common, v)))
+		for _, arg := range flag.Args() {
+			fmt.Printf(" %v", shell.Quote(fmt.Sprintf("%v-%v%v.binvox", strings.TrimSuffix(arg, ".stl"), common, v)))
 		}
 		fmt.Println()
 	}
 	if len(pfxs) > 1 { // Merge all the STL files back together
-		fmt.Printf("merge-stl -f -prefix %v-%v\n", stlOutPrefix, common)
+		fmt.Printf("merge-stl -f -prefix %v\n", shell.Quote(fmt.Sprintf("%v-%v", stlOutPrefix, common)))
 	}
 
 	log.Println("Done.")
diff --git a/cmd/voxcut-dice/voxcut-dice.go b/cmd/voxcut-dice/voxcut-dice.go
index 50d115e..7cad6fc 100644
--- a/cmd/voxcut-dice/voxcut-dice.go
+++ b/cmd/voxcut-dice/voxcut-dice.go
@@ -11,6 +11,7 @@ import (
 	"strings"
 
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/internal/shell"
 )
 
 var (
@@ -74,7 +75,7 @@ func main() {
 				args = append(args, flag.Args()...)
 
 				if *dryRun {
-					fmt.Println(strings.Join(args, " "))
+					fmt.Println(shell.Join(args))
 					continue
 				}
 				log.Printf("\n\nRunning: %v", strings.Join(args, " "))
diff --git a/internal/shell/shell.go b/internal/shell/shell.go
new file mode 100644
index 0000000..e495ccc
--- /dev/null
+++ b/internal/shell/shell.go
@@ -0,0 +1,26 @@
+// Package shell has helpers to write shell scripts.
+package shell
+
+import (
+	"regexp"
+	"strings"
+)
+
+var plainRE = regexp.MustCompile(`^[-+.,:/@%_=0-9A-Za-z]+$`)
+
+// Quote quotes an argument of a command if the shell would not take it literally.
+func Quote(arg string) string {
+	if plainRE.MatchString(arg) {
+		return arg
+	}
+	return "'" + strings.ReplaceAll(arg, "'", `'\''`) + "'"
+}
+
+// Join quotes the arguments of a command and joins them.
+func Join(args []string) string {
+	var quoted []string
+	for _, arg := range args {
+		quoted = append(quoted, Quote(arg))
+	}
+	return strings.Join(quoted, " ")
+}
-- 
2.43.0


From 3cd14c667e910264a11f61ce73b828ddb9078ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:18 +0000
Subject: [PATCH 52/57] fix: merge-stl and merge-binvox took special characters
 of the prefix for a pattern

---
 cmd/merge-binvox/merge-binvox.go | 6 +++++-
 cmd/merge-stl/merge-stl.go       | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/merge-binvox/merge-binvox.go b/cmd/merge-binvox/merge-binvox.go
index f127c78..c5a2075 100644
--- a/cmd/merge-binvox/merge-binvox.go
+++ b/cmd/merge-binvox/merge-binvox.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/gmlewis/stldice/v4/vshell"
 )
@@ -18,6 +19,9 @@ var (
 	prefix = flag.String("prefix", "out", "Prefix of files to merge and name of .vsh file to write (default='out')")
 )
 
+// literal replaces characters that have a special meaning in the patterns of filepath.Glob.
+var literal = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`)
+
 func main() {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, "Usage of %s:\n", filepath.Base(os.Args[0]))
@@ -26,7 +30,7 @@ func main() {
 	}
 	flag.Parse()
 
-	files, err := filepath.Glob(*prefix + "*.binvox")
+	files, err := filepath.Glob(literal.Replace(*prefix) + "*.binvox")
 	if err != nil {
 		log.Fatalf("No files found matching %v*.binvox", *prefix)
 	}
diff --git a/cmd/merge-stl/merge-stl.go b/cmd/merge-stl/merge-stl.go
index 15c6b7a..12ecdf1 100644
--- a/cmd/merge-stl/merge-stl.go
+++ b/cmd/merge-stl/merge-stl.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/gmlewis/stldice/v4/stl"
 )
@@ -18,6 +19,9 @@ var (
 	prefix     = flag.String("prefix", "out", "Prefix of files to merge and name of .stl file to write (default='out')")
 )
 
+// literal replaces characters that have a special meaning in the patterns of filepath.Glob.
+var literal = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`)
+
 func main() {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, "Usage of %s:\n", os.Args[0])
@@ -26,7 +30,7 @@ func main() {
 	}
 	flag.Parse()
 
-	files, err := filepath.Glob(*prefix + "*.stl")
+	files, err := filepath.Glob(literal.Replace(*prefix) + "*.stl")
 	if err != nil {
 		log.Fatalf("No files found matching %v*.stl", *prefix)
 	}
-- 
2.43.0


From f59228787e46d58c8f469023b41a9e389e3db10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:44 +0000
Subject: [PATCH 53/57] fix: svx2stl took a manifest without valid grid and
 voxel sizes for a model of 1 mm voxels or NaNs

---
 cmd/svx2stl/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 595e419..0f0b5fa 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -18,6 +18,7 @@ import (
 	"io"
 	"io/ioutil"
 	"log"
+	"math"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -194,6 +195,12 @@ func parseManifest(f io.Reader) (*binvox.BinVOX, string, error) {
 	if len(v.Grid.Channels.Channel) == 0 {
 		return nil, "", fmt.Errorf("expected at least one grid channel")
 	}
+	if v.Grid.GridSizeX <= 0 || v.Grid.GridSizeY <= 0 || v.Grid.GridSizeZ <= 0 {
+		return nil, "", fmt.Errorf("invalid grid size (%v,%v,%v)", v.Grid.GridSizeX, v.Grid.GridSizeY, v.Grid.GridSizeZ)
+	}
+	if !(v.Grid.VoxelSize > 0) || math.IsInf(v.Grid.VoxelSize, 0) {
+		return nil, "", fmt.Errorf("invalid voxel size %v", v.Grid.VoxelSize)
+	}
 
 	model := &binvox.BinVOX{
 		NX:    v.Grid.GridSizeX,
-- 
2.43.0


From fd7ad866312d626dc1826aba8b76dead03858d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:44 +0000
Subject: [PATCH 54/57] fix: svx2stl failed on archives with entries for
 directories

---
 cmd/svx2stl/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 0f0b5fa..591e096 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -88,7 +88,7 @@ func read(filename string) (*binvox.BinVOX, error) {
 	model.Scale *= float64(model.Dim()) // from the size of a voxel to the size of the model
 
 	for _, f := range r.File {
-		if f.Name == "manifest.xml" {
+		if f.Name == "manifest.xml" || strings.HasSuffix(f.Name, "/") { // no slice, or a directory
 			continue
 		}
 		rc, err := f.Open()
-- 
2.43.0


From 935daf87f090df643134a0ccb2a4fa13edc3d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:24 +0000
Subject: [PATCH 55/57] fix: stldice-mr exited with 0 when images could not be
 written

---
 cmd/stldice-mr/stldice-mr.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/cmd/stldice-mr/stldice-mr.go b/cmd/stldice-mr/stldice-mr.go
index eb78347..f1cb003 100644
--- a/cmd/stldice-mr/stldice-mr.go
+++ b/cmd/stldice-mr/stldice-mr.go
@@ -14,10 +14,12 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 
 	"github.com/chrislusf/gleam/distributed"
 	"github.com/chrislusf/gleam/flow"
 	"github.com/chrislusf/gleam/gio"
+	"github.com/chrislusf/gleam/util"
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
 	"github.com/gmlewis/stldice/v4/mr"
@@ -57,12 +59,20 @@ func main() {
 		log.Fatal(err)
 	}
 
+	var mu sync.Mutex // protects failed
+	failed := false
 	f := flow.New("stldice-mr").
 		Channel(ch).                       // input source files.
 		Map("voxelizer", MapperVoxelizer). // invoke the registered "voxelizer" mapper function.
 		GroupBy("", flow.Field(1)).        // send all Z values to the same reducer.
 		Map("imager", MapperImager).
-		Fprintf(os.Stderr, "Done.\n") // Needed to force pipeline to run.
+		OutputRow(func(row *util.Row) error { // Needed to force pipeline to run. Each row is the error of an image.
+			log.Printf("imager: %v", append(row.K, row.V...))
+			mu.Lock()
+			failed = true
+			mu.Unlock()
+			return nil
+		})
 
 	if *isDistributed {
 		log.Println("Running in distributed mode.")
@@ -74,6 +84,13 @@ func main() {
 		log.Printf("Running in standalone mode.")
 		f.Run()
 	}
+
+	mu.Lock()
+	defer mu.Unlock()
+	if failed {
+		log.Fatal("Unable to write all images.")
+	}
+	log.Print("Done.")
 }
 
 // generateMR controls how the MapReduce will run by defining the jobs to
@@ -238,8 +255,16 @@ type pixelKey struct {
 
 // imager takes the voxels from voxelize and creates
 // a 2D image at the provided z height.
-// It outputs an image to disk.
+// It outputs an image to disk. Since the error of a mapper gets
+// lost, it sends an error to the output of the flow instead.
 func imager(row []interface{}) error {
+	if err := writeImage(row); err != nil {
+		return gio.Emit(row[0], err.Error())
+	}
+	return nil
+}
+
+func writeImage(row []interface{}) error {
 	z := row[0].(int64)
 	log.Printf("imager: z=%v", z)
 	pixels := make(map[pixelKey]bool)
-- 
2.43.0


From bf44ab9fd697f13f935131ba7edf9a40d75a51d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:56 +0000
Subject: [PATCH 56/57] fix: an agent that was started before its master ended
 instead of waiting for it

---
 stl2svx/agent/agent.go | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/stl2svx/agent/agent.go b/stl2svx/agent/agent.go
index aafc6bc..8656135 100644
--- a/stl2svx/agent/agent.go
+++ b/stl2svx/agent/agent.go
@@ -17,6 +17,8 @@ import (
 	"github.com/gmlewis/stldice/v4/stl2svx/stl"
 	"golang.org/x/net/context"
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 )
 
 const (
@@ -31,23 +33,22 @@ type agent struct{}
 // with the master.
 func New(ctx context.Context, address, masterAddress string) (*agent, error) {
 	// Register with the master.
-	var conn *grpc.ClientConn
+	req := &pb.RegisterAgentRequest{Address: address}
 	for {
-		var err error
-		conn, err = grpc.Dial(masterAddress, grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxSize)), grpc.WithDefaultCallOptions(grpc.MaxCallSendMsgSize(maxSize)))
-		if err != nil {
-			log.Printf("Agent %v unable to communicate with master, sleeping...", address)
-			time.Sleep(idleWaitTime)
-			continue
+		conn, err := grpc.Dial(masterAddress, grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxSize)), grpc.WithDefaultCallOptions(grpc.MaxCallSendMsgSize(maxSize)))
+		if err == nil {
+			_, err = pb.NewMasterClient(conn).RegisterAgent(ctx, req)
+			conn.Close()
 		}
-		break
-	}
-	defer conn.Close()
-	c := pb.NewMasterClient(conn)
-	req := &pb.RegisterAgentRequest{Address: address}
-	_, err := c.RegisterAgent(ctx, req)
-	if err != nil {
-		return nil, fmt.Errorf("unable to register with master: %v", err)
+		if err == nil {
+			break
+		}
+		if status.Code(err) != codes.Unavailable || ctx.Err() != nil {
+			return nil, fmt.Errorf("unable to register with master: %v", err)
+		}
+		// Dial doesn't wait for the connection, so it is the call that fails.
+		log.Printf("Agent %v unable to communicate with master, sleeping...", address)
+		time.Sleep(idleWaitTime)
 	}
 
 	log.Printf("Successfully registered agent %v with master %v", address, masterAddress)
-- 
2.43.0


From fdda48f55c4007c0f3603fc095f62ada78026ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:55 +0000
Subject: [PATCH 57/57] fix: a registered address of another server made all
 later jobs fail

---
 stl2svx/master/master.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index 6c14176..337ad8f 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -111,7 +111,7 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, out *svx, z
 		}
 		log.Printf("Assigning agent %v to slice z=%v", address, z)
 		resp, err = sliceJob(ctx, address, req)
-		if status.Code(err) == codes.Unavailable && ctx.Err() == nil {
+		if code := status.Code(err); (code == codes.Unavailable || code == codes.Unimplemented) && ctx.Err() == nil { // no agent there
 			log.Printf("Unable to communicate with agent %v, finding another...", address)
 			continue
 		}
-- 
2.43.0

