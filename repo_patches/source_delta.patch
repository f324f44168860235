From e9771410df86d04ce1e94422964be776a077d8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 01/64] fix: build the BV tree of a tile that has no detail
 mesh

The branch computing the bounds from the polygon vertices was complete but
unreachable behind a panic.
---
 detour/navmeshcreate.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 5512bd1..f65bd41 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -289,7 +289,6 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 			it.BMax[1] = uint16(int32Clamp(int32((bmax[1]-params.BMin[1])*quantFactor), 0, 0xffff))
 			it.BMax[2] = uint16(int32Clamp(int32((bmax[2]-params.BMin[2])*quantFactor), 0, 0xffff))
 		} else {
-			panic("UNTESTED")
 			p := params.Polys[i*params.Nvp*2:]
 			it.BMin[0] = params.Verts[p[0]*3+0]
 			it.BMin[1] = params.Verts[p[0]*3+1]
-- 
2.43.0


From c95e6ec24002f456a66bb32ed900870f8fb4d991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 02/64] fix: CreateNavMeshData without a BV tree

The tree was not accounted for in the data size, yet was serialized, which
panicked on the undersized buffer.
---
 detour/navmeshcreate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index f65bd41..1eb62cf 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -718,7 +718,10 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	navDMeshes := make([]PolyDetail, params.PolyCount)
 	navDVerts := make([]float32, 3*uniqueDetailVertCount)
 	navDTris := make([]uint8, 4*detailTriCount)
-	navBvtree := make([]BvNode, params.PolyCount*2)
+	var navBvtree []BvNode
+	if params.BuildBvTree {
+		navBvtree = make([]BvNode, params.PolyCount*2)
+	}
 	offMeshCons := make([]OffMeshConnection, storedOffMeshConCount)
 
 	// Fill header
-- 
2.43.0


From beeb44619cbfd073224614c40d9975d15ff2d8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 03/64] fix: polygon queries on tiles with off-mesh connections
 and no BV tree

They terminated the process instead of skipping the connection polygons.
---
 detour/query.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 1dd9e18..0a10e1f 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1307,8 +1307,6 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 			p := &tile.Polys[i]
 			// Do not return off-mesh connection polygons.
 			if p.Type() == polyTypeOffMeshConnection {
-
-				log.Fatalf("do return off-mesh connection polygons")
 				continue
 			}
 			// Must pass filter
-- 
2.43.0


From 1afae62fc2c6aa762d8f8ee4857c9380e776dcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 04/64] fix: serialize the flags and side of every off-mesh
 connection

They were read and written at a fixed offset, so all connections of a tile
shared those of the last one, and the first connection was corrupted.
---
 detour/tile.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/detour/tile.go b/detour/tile.go
index 31dcf75..9a57d2c 100644
--- a/detour/tile.go
+++ b/detour/tile.go
@@ -191,8 +191,8 @@ func (s *MeshTile) unserialize(hdr *MeshHeader, src []byte) {
 		o.Pos[5] = math.Float32frombits(little.Uint32(src[off+20:]))
 		o.Rad = math.Float32frombits(little.Uint32(src[off+24:]))
 		o.Poly = little.Uint16(src[off+28:])
-		o.Flags = src[30]
-		o.Side = src[31]
+		o.Flags = src[off+30]
+		o.Side = src[off+31]
 		o.UserID = little.Uint32(src[off+32:])
 		off += 36
 	}
@@ -286,8 +286,8 @@ func serializeTileData(dst []byte,
 		little.PutUint32(dst[off+20:], uint32(math.Float32bits(o.Pos[5])))
 		little.PutUint32(dst[off+24:], uint32(math.Float32bits(o.Rad)))
 		little.PutUint16(dst[off+28:], o.Poly)
-		dst[30] = o.Flags
-		dst[31] = o.Side
+		dst[off+30] = o.Flags
+		dst[off+31] = o.Side
 		little.PutUint32(dst[off+32:], o.UserID)
 		off += 36
 	}
-- 
2.43.0


From cc1c3c1e9d0db0f2e4206fbb9f55cd7c6a0356b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 05/64] fix: portal point when entering an off-mesh connection

The vertex index was looked up in the polygon being left instead of the
connection polygon.
---
 detour/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index 0a10e1f..2b41e42 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -844,7 +844,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if toTile.Links[i].Ref == from {
 				// TODO: AR, repass here and test
 				v := toTile.Links[i].Edge
-				vidx := fromPoly.Verts[v] * 3
+				vidx := toPoly.Verts[v] * 3
 				copy(left, toTile.Verts[vidx:vidx+3])
 				copy(right, toTile.Verts[vidx:vidx+3])
 				return Success
-- 
2.43.0


From 8a4a984bbca7144d7fe982b012e39834b646ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 06/64] fix: off-mesh connections land on the nearest polygon

The end points were looked up with FindNearestPolyInTile, which ignores the
last polygon found, considers polygon 0 of tile 0 instead, and measures the
distance to polygons not under the point as zero. Use the query code.
---
 detour/mesh.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 82ac9ca..cb33970 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -806,7 +806,7 @@ func (m *NavMesh) baseOffMeshLinks(tile *MeshTile) {
 		// Find polygon to connect to.
 		p = con.Pos[0:3] // First vertex
 		nearestPt := make([]float32, 3)
-		ref := m.FindNearestPolyInTile(tile, p, ext, nearestPt)
+		ref := m.landingPoly(tile, p, ext, nearestPt)
 		if ref == 0 {
 			continue
 		}
@@ -850,6 +850,23 @@ func (m *NavMesh) baseOffMeshLinks(tile *MeshTile) {
 	}
 }
 
+// anyPoly is a query filter which accepts all polygons.
+type anyPoly struct{ StandardQueryFilter }
+
+func (*anyPoly) PassFilter(PolyRef, *MeshTile, *Poly) bool { return true }
+
+// landingPoly finds the polygon of a tile nearest to an off-mesh connection
+// end point.
+func (m *NavMesh) landingPoly(tile *MeshTile, center, extents, nearestPt d3.Vec3) PolyRef {
+	q := &NavMeshQuery{nav: m}
+	query := newFindNearestPolyQuery(q, center)
+	q.queryPolygonsInTile(tile, center.Sub(extents), center.Add(extents), &anyPoly{}, query)
+	if query.nearestRef != 0 {
+		nearestPt.Assign(query.nearestPoint)
+	}
+	return query.nearestRef
+}
+
 // FindNearestPolyInTile finds the nearest polygon within a tile.
 func (m *NavMesh) FindNearestPolyInTile(tile *MeshTile, center, extents, nearestPt d3.Vec3) PolyRef {
 	bmin := center.Sub(extents)
@@ -1168,7 +1185,7 @@ func (m *NavMesh) connectExtOffMeshLinks(tile, target *MeshTile, side int32) {
 		// Find polygon to connect to.
 		p := targetCon.Pos[3:6]
 		nearestPt := d3.NewVec3()
-		ref := m.FindNearestPolyInTile(tile, p, ext, nearestPt)
+		ref := m.landingPoly(tile, p, ext, nearestPt)
 		if ref == 0 {
 			continue
 		}
-- 
2.43.0


From 1fc85cefe667e875b8f17e9e439b690eefef692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 07/64] fix: Decode reads whole tiles

A single Read may return less than a tile, whatever the reader; the rest of
the tile was then left zeroed and the next tile read from the wrong place.
---
 detour/mesh.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index cb33970..9223a45 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -111,8 +111,7 @@ func Decode(r io.Reader) (*NavMesh, error) {
 		if data == nil {
 			break
 		}
-		_, err = r.Read(data)
-		if err != nil {
+		if _, err = io.ReadFull(r, data); err != nil {
 			return nil, err
 		}
 		status, _ := mesh.AddTile(data, tileHdr.TileRef)
-- 
2.43.0


From 62993ccab1e7bc04d64e89841bbaf462cd170435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 08/64] fix: SaveToFile closes the file

---
 detour/mesh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 9223a45..e83db9c 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -129,7 +129,11 @@ func (m *NavMesh) SaveToFile(fn string) error {
 		return err
 	}
 
-	return m.ToWriter(f)
+	if err = m.ToWriter(f); err != nil {
+		f.Close()
+		return err
+	}
+	return f.Close()
 }
 
 // ToWriter writes binary navigation mesh to io.Writer.
-- 
2.43.0


From 3f0e703a07d6fa938a55d829c89e294c0f0dbace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 09/64] fix: Decode rejects tiles of negative or excessive size

A negative size panicked, and the size was allocated before anything was
read.
---
 detour/mesh.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index e83db9c..b4d41d4 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -1,6 +1,7 @@
 package detour
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -107,14 +108,15 @@ func Decode(r io.Reader) (*NavMesh, error) {
 			break
 		}
 
-		data := make([]byte, tileHdr.DataSize)
-		if data == nil {
-			break
+		if tileHdr.DataSize < 0 {
+			return nil, fmt.Errorf("wrong size of tile %d: %d", i, tileHdr.DataSize)
 		}
-		if _, err = io.ReadFull(r, data); err != nil {
+		// Do not trust the size further than there is data.
+		var buf bytes.Buffer
+		if _, err = io.CopyN(&buf, r, int64(tileHdr.DataSize)); err != nil {
 			return nil, err
 		}
-		status, _ := mesh.AddTile(data, tileHdr.TileRef)
+		status, _ := mesh.AddTile(buf.Bytes(), tileHdr.TileRef)
 		if status&Failure != 0 {
 			return nil, fmt.Errorf("couldn't add tile %d(), status: 0x%x", i, status)
 		}
-- 
2.43.0


From 28c5fa9f5ead6d00b403ce9ef1a2df48352fa021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 10/64] fix: reject tile data smaller than what its header
 declares

Truncated tile data, or a header with negative counts, panicked.
---
 detour/mesh.go    | 18 ++++++++++++++++--
 detour/structs.go | 22 ++++++++++++++++++++++
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index b4d41d4..fbbf9d5 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -214,6 +214,9 @@ func (m *NavMesh) Size() int32 {
 //	see CreateNavMeshData
 func (m *NavMesh) InitForSingleTile(data []uint8, flags int) Status {
 	var header MeshHeader
+	if len(data) < header.size() {
+		return Failure | InvalidParam
+	}
 	header.unserialize(data)
 
 	// Make sure the data is in right format.
@@ -314,6 +317,9 @@ func (m *NavMesh) Init(params *NavMeshParams) Status {
 // see CreateNavMeshData, removeTileBvTree
 func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 	var hdr MeshHeader
+	if len(data) < hdr.size() {
+		return Failure | InvalidParam, 0
+	}
 	hdr.unserialize(data)
 
 	// Make sure the data is in right format.
@@ -324,6 +330,11 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		return Failure | WrongVersion, 0
 	}
 
+	// Make sure the data holds all that the header declares.
+	if size, ok := hdr.dataSize(); !ok || size > int64(len(data)) {
+		return Failure | InvalidParam, 0
+	}
+
 	// Make sure the location is free.
 	if m.TileAt(hdr.X, hdr.Y, hdr.Layer) != nil {
 		return Failure, 0
@@ -387,8 +398,11 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 	}
 
 	// Build links freelist
-	tile.LinksFreeList = 0
-	tile.Links[hdr.MaxLinkCount-1].Next = nullLink
+	tile.LinksFreeList = nullLink
+	if hdr.MaxLinkCount > 0 {
+		tile.LinksFreeList = 0
+		tile.Links[hdr.MaxLinkCount-1].Next = nullLink
+	}
 
 	var i int32
 	for ; i < hdr.MaxLinkCount-1; i++ {
diff --git a/detour/structs.go b/detour/structs.go
index a5bfd7d..aaeb25b 100644
--- a/detour/structs.go
+++ b/detour/structs.go
@@ -184,3 +184,25 @@ func (s *MeshHeader) unserialize(src []byte) {
 	s.BMax[2] = math.Float32frombits(little.Uint32(src[off+92:]))
 	s.BvQuantFactor = math.Float32frombits(little.Uint32(src[off+96:]))
 }
+
+// dataSize returns the size of the tile data described by the header, or false
+// if the header is not valid.
+func (s *MeshHeader) dataSize() (int64, bool) {
+	size := int64(s.size())
+	for _, e := range []struct{ count, size int32 }{
+		{s.VertCount, 3 * 4},
+		{s.PolyCount, 32},
+		{s.MaxLinkCount, 12},
+		{s.DetailMeshCount, 12},
+		{s.DetailVertCount, 3 * 4},
+		{s.DetailTriCount, 4},
+		{s.BvNodeCount, 16},
+		{s.OffMeshConCount, 36},
+	} {
+		if e.count < 0 {
+			return 0, false
+		}
+		size += int64(e.count) * int64(e.size)
+	}
+	return size, true
+}
-- 
2.43.0


From 5fc5887b7b88b76b01c1f731d419af119785cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 11/64] fix: AddTile reports a failure instead of terminating
 the process

It is documented to fail when the tile space is full, or when the wanted
reference is not available.
---
 detour/mesh.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index fbbf9d5..bebc13d 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"log"
 	"math"
 	"os"
 	"unsafe"
@@ -352,7 +351,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		// Try to relocate the tile to specific index with same salt.
 		tileIndex := int32(m.decodePolyIDTile(PolyRef(lastRef)))
 		if tileIndex >= m.MaxTiles {
-			log.Fatalln("tileIndex >= m.m_maxTiles", tileIndex, m.MaxTiles)
 			return Failure | OutOfMemory, 0
 		}
 		// Try to find the specific tile id from the free list.
@@ -365,7 +363,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		}
 		// Could not find the correct location.
 		if tile != target {
-			log.Fatalln("couldn't find the correct tile location")
 			return Failure | OutOfMemory, 0
 		}
 		// Remove from freelist
@@ -381,7 +378,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 
 	// Make sure we could allocate a tile.
 	if tile == nil {
-		log.Fatalln("couldn't allocate tile")
 		return Failure | OutOfMemory, 0
 	}
 
-- 
2.43.0


From 84b3787004205a4833c870b9c9deeea027d7ca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 12/64] fix: InitForSingleTile uses the tile flags as tile
 flags

They were given to AddTile as the wanted tile reference, which made it fail
or produce invalid polygon references.
---
 detour/mesh.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index bebc13d..db05766 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -238,7 +238,10 @@ func (m *NavMesh) InitForSingleTile(data []uint8, flags int) Status {
 		return status
 	}
 
-	status, _ = m.AddTile(data, TileRef(flags))
+	status, _ = m.AddTile(data, 0)
+	if StatusSucceed(status) {
+		m.Tiles[0].Flags = int32(flags)
+	}
 	return status
 }
 
-- 
2.43.0


From 7d27bd785f7f45ab262a2286f73d9a304c998b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 13/64] fix: RemoveTile of a free tile slot fails instead of
 panicking

---
 detour/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index db05766..74dd1a4 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -478,7 +478,7 @@ func (m *NavMesh) RemoveTile(ref TileRef) (data []uint8, st Status) {
 		return data, Failure | InvalidParam
 	}
 	tile := &m.Tiles[tileIndex]
-	if tile.Salt != tileSalt {
+	if tile.Salt != tileSalt || tile.Header == nil {
 		return data, Failure | InvalidParam
 	}
 	if tile.Data != nil {
-- 
2.43.0


From 145d16e7336e363a016ae87dd2116ee7af8cb491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 14/64] fix: Init rejects capacities whose references do not
 fit 32 bits

With more than 32 bits of tile and polygon indices the number of salt bits
wrapped around and passed the check; negative tile counts panicked.
---
 detour/mesh.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 74dd1a4..49dd29e 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -257,6 +257,23 @@ func (m *NavMesh) Init(params *NavMeshParams) Status {
 	m.TileWidth = params.TileWidth
 	m.TileHeight = params.TileHeight
 
+	// Init ID generator values.
+	// Tile and polygon indices share 24 bits, so that at least 8 remain for the salt.
+	if params.MaxTiles > 1<<24 || params.MaxPolys > 1<<24 {
+		return Status(Failure | InvalidParam)
+	}
+	m.tileBits = math32.Ilog2(math32.NextPow2(uint32(params.MaxTiles)))
+	m.polyBits = math32.Ilog2(math32.NextPow2(uint32(params.MaxPolys)))
+	if m.tileBits+m.polyBits > 24 {
+		return Status(Failure | InvalidParam)
+	}
+	// Only allow 31 salt bits, since the salt mask is calculated using 32bit uint and it will overflow.
+	if 31 < 32-m.tileBits-m.polyBits {
+		m.saltBits = 31
+	} else {
+		m.saltBits = 32 - m.tileBits - m.polyBits
+	}
+
 	// Init tiles
 	m.MaxTiles = int32(params.MaxTiles)
 	m.TileLUTSize = int32(math32.NextPow2(uint32(params.MaxTiles / 4)))
@@ -274,21 +291,6 @@ func (m *NavMesh) Init(params *NavMeshParams) Status {
 		m.nextFree = &m.Tiles[i]
 	}
 
-	// Init ID generator values.
-	m.tileBits = math32.Ilog2(math32.NextPow2(uint32(params.MaxTiles)))
-	m.polyBits = math32.Ilog2(math32.NextPow2(uint32(params.MaxPolys)))
-	// Only allow 31 salt bits, since the salt mask is calculated using 32bit uint and it will overflow.
-	if 31 < 32-m.tileBits-m.polyBits {
-		m.saltBits = 31
-	} else {
-		m.saltBits = 32 - m.tileBits - m.polyBits
-	}
-
-	// if m.saltBits < 10 {
-	if m.saltBits < 8 {
-		return Status(Failure | InvalidParam)
-	}
-
 	return Success
 }
 
-- 
2.43.0


From 1395ed9a458042e9ba34af3c9ec132680916f580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 15/64] fix: tiles with more than 21845 vertices

Vertex indices were multiplied by 3 as 16 bits integers.
---
 detour/mesh.go          | 16 ++++++++--------
 detour/navmeshcreate.go | 16 ++++++++--------
 detour/poly.go          |  2 +-
 detour/query.go         | 28 ++++++++++++++--------------
 4 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 49dd29e..24cc73d 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -835,7 +835,7 @@ func (m *NavMesh) baseOffMeshLinks(tile *MeshTile) {
 			continue
 		}
 		// Make sure the location is on current mesh.
-		var v d3.Vec3 = tile.Verts[poly.Verts[0]*3 : poly.Verts[0]*3+3]
+		var v d3.Vec3 = tile.Verts[int(poly.Verts[0])*3 : int(poly.Verts[0])*3+3]
 		v.Assign(nearestPt)
 
 		// Link off-mesh connection to target poly.
@@ -1083,7 +1083,7 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 	var i uint8
 	for i = 0; i < nv; i++ {
 		idx := i * 3
-		jdx := poly.Verts[i] * 3
+		jdx := int(poly.Verts[i]) * 3
 		copy(verts[idx:], tile.Verts[jdx:jdx+3])
 	}
 
@@ -1123,7 +1123,7 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 		)
 		for k = 0; k < 3; k++ {
 			if t[k] < poly.VertCount {
-				vidx := poly.Verts[t[k]] * 3
+				vidx := int(poly.Verts[t[k]]) * 3
 				v[k] = tile.Verts[vidx : vidx+3]
 			} else {
 				vidx := (pd.VertBase + uint32(t[k]-poly.VertCount)) * 3
@@ -1216,7 +1216,7 @@ func (m *NavMesh) connectExtOffMeshLinks(tile, target *MeshTile, side int32) {
 		}
 
 		// Make sure the location is on current mesh.
-		var v d3.Vec3 = target.Verts[targetPoly.Verts[1]*3:]
+		var v d3.Vec3 = target.Verts[int(targetPoly.Verts[1])*3:]
 		v.Assign(nearestPt)
 
 		// Link off-mesh connection to target poly.
@@ -1313,8 +1313,8 @@ func (m *NavMesh) connectExtLinks(tile, target *MeshTile, side int32) {
 			}
 
 			// Create new links
-			va := tile.Verts[poly.Verts[j]*3:]
-			vb := tile.Verts[poly.Verts[(j+1)%int32(nv)]*3:]
+			va := tile.Verts[int(poly.Verts[j])*3:]
+			vb := tile.Verts[int(poly.Verts[(j+1)%int32(nv)])*3:]
 			nei := make([]PolyRef, 4)
 			neia := make([]float32, 4*2)
 			nnei := m.findConnectingPolys(va, vb, target, oppositeTile(dir), nei, neia, 4)
@@ -1393,9 +1393,9 @@ func (m *NavMesh) findConnectingPolys(
 				continue
 			}
 
-			idx := poly.Verts[j] * 3
+			idx := int(poly.Verts[j]) * 3
 			vc := tile.Verts[idx : idx+3]
-			idx = poly.Verts[(j+1)%nv] * 3
+			idx = int(poly.Verts[(j+1)%nv]) * 3
 			vd := tile.Verts[idx : idx+3]
 			bpos := slabCoord(vc, side)
 
diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 1eb62cf..f589f73 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -290,9 +290,9 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 			it.BMax[2] = uint16(int32Clamp(int32((bmax[2]-params.BMin[2])*quantFactor), 0, 0xffff))
 		} else {
 			p := params.Polys[i*params.Nvp*2:]
-			it.BMin[0] = params.Verts[p[0]*3+0]
-			it.BMin[1] = params.Verts[p[0]*3+1]
-			it.BMin[2] = params.Verts[p[0]*3+2]
+			it.BMin[0] = params.Verts[int(p[0])*3+0]
+			it.BMin[1] = params.Verts[int(p[0])*3+1]
+			it.BMin[2] = params.Verts[int(p[0])*3+2]
 
 			it.BMax[0] = it.BMin[0]
 			it.BMax[1] = it.BMin[1]
@@ -302,9 +302,9 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 				if p[j] == meshNullIdx {
 					break
 				}
-				x := params.Verts[p[j]*3+0]
-				y := params.Verts[p[j]*3+1]
-				z := params.Verts[p[j]*3+2]
+				x := params.Verts[int(p[j])*3+0]
+				y := params.Verts[int(p[j])*3+1]
+				z := params.Verts[int(p[j])*3+2]
 
 				if x < it.BMin[0] {
 					it.BMin[0] = x
@@ -833,7 +833,7 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	// The nav polygon vertices are stored as the first vertices on each mesh.
 	// We compress the mesh data by skipping them and using the navmesh coordinates.
 	if params.DetailMeshes != nil && len(params.DetailMeshes) > 0 {
-		var vbase uint16
+		var vbase int32
 		for i2 := int32(0); i2 < params.PolyCount; i2++ {
 			dtl := &navDMeshes[i2]
 			vb := params.DetailMeshes[i2*4+0]
@@ -847,7 +847,7 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 			if ndv-nv != 0 {
 				start, length := int32(vb+nv)*3, 3*int32(ndv-nv)
 				copy(navDVerts[vbase*3:], params.DetailVerts[start:start+length])
-				vbase += uint16(ndv - nv)
+				vbase += ndv - nv
 			}
 		}
 		// Store triangles.
diff --git a/detour/poly.go b/detour/poly.go
index 86c4026..eba0917 100644
--- a/detour/poly.go
+++ b/detour/poly.go
@@ -59,7 +59,7 @@ func CalcPolyCenter(idx []uint16, nidx int32, verts []float32) d3.Vec3 {
 	tc := d3.NewVec3()
 	var j int32
 	for j = 0; j < nidx; j++ {
-		start := idx[j] * 3
+		start := int(idx[j]) * 3
 		v := verts[start : start+3]
 		tc[0] += v[0]
 		tc[1] += v[1]
diff --git a/detour/query.go b/detour/query.go
index 2b41e42..6401eb8 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -830,7 +830,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if fromTile.Links[i].Ref == to {
 				// TODO: AR, repass here and test
 				v := fromTile.Links[i].Edge
-				vidx := fromPoly.Verts[v] * 3
+				vidx := int(fromPoly.Verts[v]) * 3
 				copy(left, fromTile.Verts[vidx:vidx+3])
 				copy(right, fromTile.Verts[vidx:vidx+3])
 				return Success
@@ -844,7 +844,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if toTile.Links[i].Ref == from {
 				// TODO: AR, repass here and test
 				v := toTile.Links[i].Edge
-				vidx := toPoly.Verts[v] * 3
+				vidx := int(toPoly.Verts[v]) * 3
 				copy(left, toTile.Verts[vidx:vidx+3])
 				copy(right, toTile.Verts[vidx:vidx+3])
 				return Success
@@ -858,9 +858,9 @@ func (q *NavMeshQuery) portalPoints8(
 	v1 := fromPoly.Verts[(link.Edge+1)%fromPoly.VertCount]
 
 	// TODO: AR TO BE TESTED!
-	v0idx := v0 * 3
+	v0idx := int(v0) * 3
 	copy(left, fromTile.Verts[v0idx:v0idx+3])
-	v1idx := v1 * 3
+	v1idx := int(v1) * 3
 	copy(right, fromTile.Verts[v1idx:v1idx+3])
 
 	// If the link is at tile boundary, clamp the vertices to
@@ -958,9 +958,9 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 			v0, v1    d3.Vec3
 			d0, d1, u float32
 		)
-		vidx := poly.Verts[0] * 3
+		vidx := int(poly.Verts[0]) * 3
 		v0 = tile.Verts[vidx : vidx+3]
-		vidx = poly.Verts[1] * 3
+		vidx = int(poly.Verts[1]) * 3
 		v1 = tile.Verts[vidx : vidx+3]
 		d0 = pos.Dist(v0)
 		d1 = pos.Dist(v1)
@@ -983,7 +983,7 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 	var i uint8
 	for i = 0; i < nv; i++ {
 		idx := i * 3
-		jdx := poly.Verts[i] * 3
+		jdx := int(poly.Verts[i]) * 3
 		copy(verts[idx:idx+3], tile.Verts[jdx:jdx+3])
 	}
 
@@ -1023,7 +1023,7 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 		var k int
 		for k = 0; k < 3; k++ {
 			if t[k] < poly.VertCount {
-				idx = int(poly.Verts[t[k]] * 3)
+				idx = int(poly.Verts[t[k]]) * 3
 				v[k] = tile.Verts[idx : idx+3]
 			} else {
 				idx = int((pd.VertBase + uint32(t[k]-poly.VertCount)) * 3)
@@ -1065,7 +1065,7 @@ func (q *NavMeshQuery) ClosestPointOnPolyBoundary(ref PolyRef, pos, closest d3.V
 		nv    int32
 	)
 	for i := uint8(0); i < poly.VertCount; i++ {
-		copy(verts[nv*3:nv*3+3], tile.Verts[poly.Verts[i]*3:poly.Verts[i]*3+3])
+		copy(verts[nv*3:nv*3+3], tile.Verts[int(poly.Verts[i])*3:int(poly.Verts[i])*3+3])
 		nv++
 	}
 
@@ -1315,12 +1315,12 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 				continue
 			}
 			// Calc polygon bounds.
-			vidx := p.Verts[0] * 3
+			vidx := int(p.Verts[0]) * 3
 			v := tile.Verts[vidx : vidx+3]
 			bmin.Assign(v)
 			bmax.Assign(v)
 			for j := uint8(1); j < p.VertCount; j++ {
-				vidx = p.Verts[j] * 3
+				vidx = int(p.Verts[j]) * 3
 				v = tile.Verts[vidx : vidx+3]
 				d3.Vec3Min(bmin, v)
 				d3.Vec3Max(bmax, v)
@@ -1484,7 +1484,7 @@ func (q *NavMeshQuery) Raycast(
 		// Collect vertices.
 		var nv int
 		for i := 0; i < int(poly.VertCount); i++ {
-			copy(verts[nv*3:], tile.Verts[poly.Verts[i]*3:3+poly.Verts[i]*3])
+			copy(verts[nv*3:], tile.Verts[int(poly.Verts[i])*3:3+int(poly.Verts[i])*3])
 			nv++
 		}
 
@@ -1569,8 +1569,8 @@ func (q *NavMeshQuery) Raycast(
 			// Check for partial edge links.
 			v0 := poly.Verts[link.Edge]
 			v1 := poly.Verts[(link.Edge+1)%poly.VertCount]
-			left := tile.Verts[v0*3 : 3+v0*3]
-			right := tile.Verts[v1*3 : 3+v1*3]
+			left := tile.Verts[int(v0)*3 : 3+int(v0)*3]
+			right := tile.Verts[int(v1)*3 : 3+int(v1)*3]
 
 			// Check that the intersection lies inside the link portal.
 			if link.Side == 0 || link.Side == 4 {
-- 
2.43.0


From 905271837e26b8bbe9d546dc5c89853f6be8c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 16/64] fix: queries with fewer than 4 nodes

The node pool had no hash bucket, and the first lookup panicked. Reject a
number of nodes which is not positive.
---
 detour/query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 6401eb8..71b7fd6 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -109,7 +109,7 @@ func newQueryData() queryData {
 // functions are used.
 // This function can be used multiple times.
 func NewNavMeshQuery(nav *NavMesh, maxNodes int32) (Status, *NavMeshQuery) {
-	if maxNodes > int32(nullIdx) || maxNodes > int32(1<<nodeParentBits)-1 {
+	if maxNodes <= 0 || maxNodes > int32(nullIdx) || maxNodes > int32(1<<nodeParentBits)-1 {
 		return Failure | InvalidParam, nil
 	}
 
@@ -120,7 +120,7 @@ func NewNavMeshQuery(nav *NavMesh, maxNodes int32) (Status, *NavMeshQuery) {
 		if q.nodePool != nil {
 			q.nodePool = nil
 		}
-		q.nodePool = newNodePool(maxNodes, int32(math32.NextPow2(uint32(maxNodes/4))))
+		q.nodePool = newNodePool(maxNodes, int32(math32.NextPow2(uint32((maxNodes+3)/4))))
 		if q.nodePool == nil {
 			return Failure | OutOfMemory, nil
 		}
-- 
2.43.0


From d14599f1354aa2304cc07f559fda2133c4172a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 17/64] fix: FindStraightPath with a broken corridor and a full
 result buffer

When listing the portals filled the buffer, the last point was written past
its end.
---
 detour/query.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 71b7fd6..744a281 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -494,9 +494,11 @@ func (q *NavMeshQuery) FindStraightPath(
 					}
 
 					// Ignore status return value as we're just about to return anyway.
-					q.appendVertex(closestEndPos, 0, path[i],
-						straightPath, straightPathFlags, straightPathRefs,
-						&count)
+					if count < len(straightPath) {
+						q.appendVertex(closestEndPos, 0, path[i],
+							straightPath, straightPathFlags, straightPathRefs,
+							&count)
+					}
 
 					stat = Success | PartialResult
 					if count >= len(straightPath) {
-- 
2.43.0


From 9177b8288001f8fd2e2245807da12ef8497f2f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 18/64] fix: Raycast resets the reported hit

A RaycastHit used again kept the largest hit distance of all the casts, and
accumulated their costs.
---
 detour/query.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/detour/query.go b/detour/query.go
index 744a281..9acb771 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1459,6 +1459,9 @@ func (q *NavMeshQuery) Raycast(
 	lastPos = d3.NewVec3()
 	curPos = d3.NewVec3From(startPos)
 	dir = endPos.Sub(startPos)
+	hit.T = 0
+	hit.PathCount = 0
+	hit.PathCost = 0
 	hit.HitNormal = d3.NewVec3()
 
 	st = Success
-- 
2.43.0


From edf078611b088622c88de739b436c1f72c500e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 19/64] fix: AddTile rejects tiles with more polygons than can
 be referenced

---
 detour/mesh.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/detour/mesh.go b/detour/mesh.go
index 24cc73d..71f047c 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -339,6 +339,11 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		return Failure | InvalidParam, 0
 	}
 
+	// Make sure the polygons can be referenced.
+	if math32.Ilog2(math32.NextPow2(uint32(hdr.PolyCount))) > m.polyBits {
+		return Failure | InvalidParam, 0
+	}
+
 	// Make sure the location is free.
 	if m.TileAt(hdr.X, hdr.Y, hdr.Layer) != nil {
 		return Failure, 0
-- 
2.43.0


From d3838efb4f3f03d0ee64a333941ef2382f26c580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 20/64] fix: queries outside the bounds of a tile with a BV
 tree

The search box was clamped to the bounds of the tile, so that a box that does
not even touch the tile found the polygons along its border.
---
 detour/query.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 9acb771..ad6aa44 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1241,7 +1241,7 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 		var (
 			node            *BvNode
 			nodeIdx, endIdx int32
-			tbmin, tbmax    d3.Vec3
+			tbmin           d3.Vec3
 			qfac            float32
 		)
 
@@ -1249,19 +1249,24 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 		endIdx = tile.Header.BvNodeCount
 
 		tbmin = d3.NewVec3From(tile.Header.BMin[:])
-		tbmax = d3.NewVec3From(tile.Header.BMax[:])
 		qfac = tile.Header.BvQuantFactor
 
 		// Calculate quantized box
 		var bmin, bmax [3]uint16
 
-		// Clamp query box to world box.
-		minx := f32.Clamp(qmin[0], tbmin[0], tbmax[0]) - tbmin[0]
-		miny := f32.Clamp(qmin[1], tbmin[1], tbmax[1]) - tbmin[1]
-		minz := f32.Clamp(qmin[2], tbmin[2], tbmax[2]) - tbmin[2]
-		maxx := f32.Clamp(qmax[0], tbmin[0], tbmax[0]) - tbmin[0]
-		maxy := f32.Clamp(qmax[1], tbmin[1], tbmax[1]) - tbmin[1]
-		maxz := f32.Clamp(qmax[2], tbmin[2], tbmax[2]) - tbmin[2]
+		// Nothing in the tile lies below its lower bounds.
+		if qmax[0] < tbmin[0] || qmax[1] < tbmin[1] || qmax[2] < tbmin[2] {
+			return
+		}
+
+		// Clamp query box to what can be quantized.
+		qlim := 65534 / qfac
+		minx := f32.Clamp(qmin[0]-tbmin[0], 0, qlim)
+		miny := f32.Clamp(qmin[1]-tbmin[1], 0, qlim)
+		minz := f32.Clamp(qmin[2]-tbmin[2], 0, qlim)
+		maxx := f32.Clamp(qmax[0]-tbmin[0], 0, qlim)
+		maxy := f32.Clamp(qmax[1]-tbmin[1], 0, qlim)
+		maxz := f32.Clamp(qmax[2]-tbmin[2], 0, qlim)
 		// Quantize
 		bmin[0] = uint16(qfac*minx) & 0xfffe
 		bmin[1] = uint16(qfac*miny) & 0xfffe
-- 
2.43.0


From 44a3ef67dbbee7440a6a762e08884914af098cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 21/64] fix: unused BV tree nodes take part in polygon queries

Tiles are created with one more node than the tree has. It is all zeros, and so
was taken for a leaf of the first polygon at the lower corner of the tile, and
that polygon was found by any query around this corner.
---
 detour/query.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index ad6aa44..aae97a3 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1246,7 +1246,11 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 		)
 
 		nodeIdx = 0
-		endIdx = tile.Header.BvNodeCount
+		// The tree is the subtree of its root, unused nodes may follow it.
+		endIdx = 1
+		if root := &tile.BvTree[0]; root.I < 0 {
+			endIdx = -root.I
+		}
 
 		tbmin = d3.NewVec3From(tile.Header.BMin[:])
 		qfac = tile.Header.BvQuantFactor
-- 
2.43.0


From b506486f445ebbc4c8969dde563c17f3e18d229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 22/64] fix: Raycast and sliced path finding check their
 arguments

A missing filter, short positions, buffers smaller than announced, and
finalizing when no search is in progress made them panic, or return a path made
of the null reference with a success status.
---
 detour/query.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index aae97a3..2f76df4 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1458,6 +1458,11 @@ func (q *NavMeshQuery) Raycast(
 		st = Failure | InvalidParam
 		return
 	}
+	if len(startPos) < 3 || len(endPos) < 3 || filter == nil ||
+		hit == nil || hit.MaxPath > len(hit.Path) {
+		st = Failure | InvalidParam
+		return
+	}
 
 	var (
 		dir, curPos, lastPos d3.Vec3
@@ -1776,7 +1781,8 @@ func (q *NavMeshQuery) InitSlicedFindPath(startRef, endRef PolyRef,
 	}
 
 	// Validate input
-	if !q.nav.IsValidPolyRef(startRef) || !q.nav.IsValidPolyRef(endRef) {
+	if !q.nav.IsValidPolyRef(startRef) || !q.nav.IsValidPolyRef(endRef) ||
+		len(startPos) < 3 || len(endPos) < 3 || filter == nil {
 		return Failure | InvalidParam
 	}
 
@@ -2055,7 +2061,11 @@ func (q *NavMeshQuery) UpdateSlicedFindPath(maxIter int, doneIters *int) Status
 //
 // TODO: should remove maxPath as it should be the length of the path slice
 func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (pathCount int, st Status) {
-	if StatusFailed(q.query.status) {
+	if maxPath < 1 || maxPath > len(path) {
+		return 0, Failure | InvalidParam
+	}
+
+	if StatusFailed(q.query.status) || q.query.startRef == 0 {
 		// Reset query.
 		q.query = queryData{}
 		return 0, Failure
@@ -2158,8 +2168,11 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 	if existingSize == 0 {
 		return 0, Failure
 	}
+	if existingSize < 0 || existingSize > len(existing) || maxPath < 1 || maxPath > len(path) {
+		return 0, Failure | InvalidParam
+	}
 
-	if StatusFailed(q.query.status) {
+	if StatusFailed(q.query.status) || q.query.startRef == 0 {
 		// Reset query.
 		q.query = queryData{}
 		return 0, Failure
-- 
2.43.0


From 96feb0ecdf7a3a67a4508fa43312df50bb383069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 23/64] fix: result buffers of exactly the needed size are not
 too small

FindStraightPath and the sliced path search reported BufferTooSmall for results
which filled the buffer but were complete, unlike FindPath.
---
 detour/query.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 2f76df4..8df79e7 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -645,15 +645,13 @@ func (q *NavMeshQuery) FindStraightPath(
 		}
 	}
 
-	// Ignore status return value as we're just about to return anyway.
+	// Ignore status return value as we're just about to return anyway. There
+	// is room for the vertex, or we would have returned already.
 	q.appendVertex(closestEndPos, StraightPathEnd, 0,
 		straightPath, straightPathFlags, straightPathRefs,
 		&count)
 
 	stat = Success
-	if count >= len(straightPath) {
-		stat |= BufferTooSmall
-	}
 	//fmt.Println("FindStraightPath 8 returns", stat, count)
 	return count, stat
 }
@@ -751,15 +749,15 @@ func (q *NavMeshQuery) appendVertex(
 		}
 		(*straightPathCount)++
 
-		// If there is no space to append more vertices, return.
-		if (*straightPathCount) >= len(straightPath) {
-			return Success | BufferTooSmall
-		}
-
 		// If reached end of path, return.
 		if flags == StraightPathEnd {
 			return Success
 		}
+
+		// If there is no space to append more vertices, return.
+		if (*straightPathCount) >= len(straightPath) {
+			return Success | BufferTooSmall
+		}
 	}
 	return InProgress
 }
@@ -2124,7 +2122,7 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 			} else {
 				path[n] = node.ID
 				n++
-				if n >= maxPath {
+				if n >= maxPath && next != nil {
 					status = BufferTooSmall
 				}
 			}
@@ -2242,7 +2240,7 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 			} else {
 				path[n] = node[0].ID
 				n++
-				if n >= maxPath {
+				if n >= maxPath && next != nil {
 					status = BufferTooSmall
 				}
 			}
-- 
2.43.0


From fd97517cf70af2dfea3a66f1990fcf035de719c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 24/64] fix: finalizing an any-angle path into a full buffer

A ray which filled the buffer exactly was followed by a write beyond its end.
---
 detour/query.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 8df79e7..5ab73dd 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2122,9 +2122,9 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 			} else {
 				path[n] = node.ID
 				n++
-				if n >= maxPath && next != nil {
-					status = BufferTooSmall
-				}
+			}
+			if n >= maxPath && next != nil {
+				status |= BufferTooSmall
 			}
 
 			if (status & StatusDetailMask) != 0 {
@@ -2240,9 +2240,9 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 			} else {
 				path[n] = node[0].ID
 				n++
-				if n >= maxPath && next != nil {
-					status = BufferTooSmall
-				}
+			}
+			if n >= maxPath && next != nil {
+				status |= BufferTooSmall
 			}
 
 			if (status & StatusDetailMask) != 0 {
-- 
2.43.0


From bf3bdd22649ce1061d7f6930a38ae82dade523e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 25/64] fix: straight paths around a corner that differs
 between tiles

The same corner may have another height, and other last bits, in each of
the tiles it belongs to. The funnel then took one of its sides for a
direction of its own and went through corners far from the path.
---
 detour/query.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 5ab73dd..b6e747e 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -523,8 +523,9 @@ func (q *NavMeshQuery) FindStraightPath(
 			}
 
 			// Right vertex.
-			if TriArea2D(portalApex, portalRight, right) <= 0.0 {
-				if portalApex.Approx(portalRight) || TriArea2D(portalApex, portalLeft, right) > 0.0 {
+			atApex := approx2D(portalApex, portalRight)
+			if atApex || TriArea2D(portalApex, portalRight, right) <= 0.0 {
+				if atApex || TriArea2D(portalApex, portalLeft, right) > 0.0 {
 					portalRight.Assign(right)
 					if i+1 < len(path) {
 						rightPolyRef = path[i+1]
@@ -578,8 +579,9 @@ func (q *NavMeshQuery) FindStraightPath(
 			}
 
 			// Left vertex.
-			if TriArea2D(portalApex, portalLeft, left) >= 0.0 {
-				if portalApex.Approx(portalLeft) || TriArea2D(portalApex, portalRight, left) < 0.0 {
+			atApex = approx2D(portalApex, portalLeft)
+			if atApex || TriArea2D(portalApex, portalLeft, left) >= 0.0 {
+				if atApex || TriArea2D(portalApex, portalRight, left) < 0.0 {
 					portalLeft.Assign(left)
 					if i+1 < len(path) {
 						leftPolyRef = path[i+1]
@@ -656,6 +658,13 @@ func (q *NavMeshQuery) FindStraightPath(
 	return count, stat
 }
 
+// approx2D reports whether two points are approximately equal on the xz-plane.
+// The same corner may have another height, and other last bits, in each of the
+// tiles it belongs to.
+func approx2D(a, b d3.Vec3) bool {
+	return math32.Approx(a[0], b[0]) && math32.Approx(a[2], b[2])
+}
+
 // appendPortals appends intermediate portal points to a straight path.
 func (q *NavMeshQuery) appendPortals(
 	startIdx, endIdx int,
-- 
2.43.0


From 25e6307d58b786c4e6cf3999782908cb071f2da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:16 +0000
Subject: [PATCH 26/64] fix: finalizing a sliced any-angle search whose start
 tile was removed

---
 detour/query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index b6e747e..9d614b0 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2125,7 +2125,7 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 				m, _, status = q.Raycast2(node.ID, node.Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
 				n += m
 				// raycast ends on poly boundary and the path might include the next poly boundary.
-				if path[n-1] == next.ID {
+				if n > 0 && path[n-1] == next.ID {
 					n-- // remove to avoid duplicates
 				}
 			} else {
@@ -2243,7 +2243,7 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 				m, _, status = q.Raycast2(node[0].ID, node[0].Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
 				n += m
 				// raycast ends on poly boundary and the path might include the next poly boundary.
-				if path[n-1] == next.ID {
+				if n > 0 && path[n-1] == next.ID {
 					n-- // remove to avoid duplicates
 				}
 			} else {
-- 
2.43.0


From a2550e88ba8f0560f1cab618861a2e260876ca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 27/64] fix: queries hang on positions which are not finite

---
 detour/query.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 9d614b0..857ab4b 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -152,6 +152,21 @@ func NewNavMeshQuery(nav *NavMesh, maxNodes int32) (Status, *NavMeshQuery) {
 	return Success, q
 }
 
+// isFinite reports whether v is a position in space: 3 components, none of
+// which is infinite or not a number. (Path costs computed from such components
+// can't be compared, so that a search would never end.)
+func isFinite(v d3.Vec3) bool {
+	if len(v) < 3 {
+		return false
+	}
+	for _, x := range v[:3] {
+		if math32.IsNaN(x) || math32.IsInf(x, 0) {
+			return false
+		}
+	}
+	return true
+}
+
 // FindPath finds a path from the start polygon to the end polygon.
 //
 //	Arguments:
@@ -183,7 +198,7 @@ func (q *NavMeshQuery) FindPath(
 	path []PolyRef) (pathCount int, st Status) {
 	// Validate input
 	if !q.nav.IsValidPolyRef(startRef) || !q.nav.IsValidPolyRef(endRef) ||
-		len(startPos) < 3 || len(endPos) < 3 || filter == nil || path == nil || len(path) == 0 {
+		!isFinite(startPos) || !isFinite(endPos) || filter == nil || path == nil || len(path) == 0 {
 		return pathCount, Failure | InvalidParam
 	}
 
@@ -1204,7 +1219,7 @@ func (q *NavMeshQuery) queryPolygons4(
 	filter QueryFilter,
 	query polyQuery) Status {
 	// parameter check
-	if len(center) != 3 || len(extents) != 3 || filter == nil || query == nil {
+	if len(center) != 3 || len(extents) != 3 || !isFinite(center) || !isFinite(extents) || filter == nil || query == nil {
 		return Failure | InvalidParam
 	}
 
@@ -1465,7 +1480,7 @@ func (q *NavMeshQuery) Raycast(
 		st = Failure | InvalidParam
 		return
 	}
-	if len(startPos) < 3 || len(endPos) < 3 || filter == nil ||
+	if !isFinite(startPos) || !isFinite(endPos) || filter == nil ||
 		hit == nil || hit.MaxPath > len(hit.Path) {
 		st = Failure | InvalidParam
 		return
@@ -1789,7 +1804,7 @@ func (q *NavMeshQuery) InitSlicedFindPath(startRef, endRef PolyRef,
 
 	// Validate input
 	if !q.nav.IsValidPolyRef(startRef) || !q.nav.IsValidPolyRef(endRef) ||
-		len(startPos) < 3 || len(endPos) < 3 || filter == nil {
+		!isFinite(startPos) || !isFinite(endPos) || filter == nil {
 		return Failure | InvalidParam
 	}
 
-- 
2.43.0


From a982b3d752b2ea7b4ea311df24c6ece5ce045a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 28/64] fix: clearing unwalkable triangles leaves out
 degenerate triangles

---
 recast/recast.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recast/recast.go b/recast/recast.go
index dd10b7c..cf2e89a 100644
--- a/recast/recast.go
+++ b/recast/recast.go
@@ -119,8 +119,9 @@ func ClearUnwalkableTriangles(ctx *BuildContext, walkableSlopeAngle float32,
 	for i := int32(0); i < nt; i++ {
 		tri := tris[i*3:]
 		calcTriNormal(verts[tri[0]*3:], verts[tri[1]*3:], verts[tri[2]*3:], norm[:])
-		// Check if the face is walkable.
-		if norm[1] <= walkableThr {
+		// Check if the face is walkable. (The normal of a degenerate triangle is
+		// not a number: such a triangle isn't walkable.)
+		if !(norm[1] > walkableThr) {
 			areas[i] = nullArea
 		}
 	}
-- 
2.43.0


From b485b3b5b643094442b1e22ca77df002eeff82ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:29 +0000
Subject: [PATCH 29/64] fix: merged spans take the area of the lower span

---
 recast/heightfield.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/recast/heightfield.go b/recast/heightfield.go
index 2928aa2..5bb78a1 100644
--- a/recast/heightfield.go
+++ b/recast/heightfield.go
@@ -146,14 +146,6 @@ func (hf *Heightfield) addSpan(x, y int32, smin, smax uint16,
 			prev = cur
 			cur = cur.next
 		} else {
-			// Merge spans.
-			if cur.smin < s.smin {
-				s.smin = cur.smin
-			}
-			if cur.smax > s.smax {
-				s.smax = cur.smax
-			}
-
 			// Merge flags.
 			mergeFlags := int32(s.smax) - int32(cur.smax)
 			if mergeFlags < 0 {
@@ -163,6 +155,17 @@ func (hf *Heightfield) addSpan(x, y int32, smin, smax uint16,
 				if cur.area > s.area {
 					s.area = cur.area
 				}
+			} else if cur.smax > s.smax {
+				// The surface of the merged span is that of the current span.
+				s.area = cur.area
+			}
+
+			// Merge spans.
+			if cur.smin < s.smin {
+				s.smin = cur.smin
+			}
+			if cur.smax > s.smax {
+				s.smax = cur.smax
 			}
 
 			// Remove current span.
-- 
2.43.0


From dc9a01bcf0af43805d5dcc042880c94a152370d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:42 +0000
Subject: [PATCH 30/64] fix: geometry outside the heightfield is rasterized
 into its border cells

---
 recast/rasterization.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/recast/rasterization.go b/recast/rasterization.go
index ff6f20c..e833b17 100644
--- a/recast/rasterization.go
+++ b/recast/rasterization.go
@@ -152,9 +152,10 @@ func rasterizeTri(v0, v1, v2 []float32,
 	}
 
 	// Calculate the footprint of the triangle on the grid's y-axis
-	y0 := int32((tmin[2] - bmin[2]) * ics)
-	y1 := int32((tmax[2] - bmin[2]) * ics)
-	y0 = int32Clamp(y0, 0, h-1)
+	y0 := int32(math32.Floor((tmin[2] - bmin[2]) * ics))
+	y1 := int32(math32.Floor((tmax[2] - bmin[2]) * ics))
+	// Start at -1 rather than 0 to cut off what lies before the first row.
+	y0 = int32Clamp(y0, -1, h-1)
 	y1 = int32Clamp(y1, 0, h-1)
 
 	// Clip the triangle into all grid cells it touches.
@@ -177,7 +178,7 @@ func rasterizeTri(v0, v1, v2 []float32,
 		cz := bmin[2] + float32(y)*cs
 		nvrow, nvIn = dividePoly(in, nvIn, inrow, p1, cz+cs, 2)
 		in, p1 = p1, in
-		if nvrow < 3 {
+		if nvrow < 3 || y < 0 {
 			continue
 		}
 
@@ -191,9 +192,13 @@ func rasterizeTri(v0, v1, v2 []float32,
 				maxX = inrow[i*3]
 			}
 		}
-		x0 := int32((minX - bmin[0]) * ics)
-		x1 := int32((maxX - bmin[0]) * ics)
-		x0 = int32Clamp(x0, 0, w-1)
+		x0 := int32(math32.Floor((minX - bmin[0]) * ics))
+		x1 := int32(math32.Floor((maxX - bmin[0]) * ics))
+		if x1 < 0 {
+			continue
+		}
+		// Start at -1 rather than 0 to cut off what lies before the first column.
+		x0 = int32Clamp(x0, -1, w-1)
 		x1 = int32Clamp(x1, 0, w-1)
 
 		var nv, nv2 int32
@@ -204,7 +209,7 @@ func rasterizeTri(v0, v1, v2 []float32,
 			cx := bmin[0] + float32(x)*cs
 			nv, nv2 = dividePoly(inrow, nv2, p1, p2, cx+cs, 0)
 			inrow, p2 = p2, inrow
-			if nv < 3 {
+			if nv < 3 || x < 0 {
 				continue
 			}
 
-- 
2.43.0


From f8809b40f4feb5336173e05fcafa06fe1a1d3a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 31/64] fix: SetCon replaces the previous connection

---
 recast/recast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/recast.go b/recast/recast.go
index cf2e89a..c6276bd 100644
--- a/recast/recast.go
+++ b/recast/recast.go
@@ -239,7 +239,7 @@ func init() {
 func SetCon(s *CompactSpan, dir, i int32) {
 	shift := uint32(uint32(dir * 6))
 	con := uint32(s.Con)
-	s.Con = (con ^ (0x3f << shift)) | ((uint32(i & 0x3f)) << shift)
+	s.Con = (con &^ (0x3f << shift)) | ((uint32(i & 0x3f)) << shift)
 }
 
 // GetCon gets neighbor connection data for the specified direction.
-- 
2.43.0


From d4d5b073940b31eec3f1ba742ba4ac248d954596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:40 +0000
Subject: [PATCH 32/64] fix: ErodeWalkableArea overflows for large radii

---
 recast/area.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index 8f2b833..e13eb19 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -30,11 +30,11 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 	ctx.StartTimer(TimerErodeArea)
 	defer ctx.StopTimer(TimerErodeArea)
 
-	dist := make([]uint8, chf.SpanCount)
+	dist := make([]uint16, chf.SpanCount)
 
 	// Init distance.
 	for i := range dist {
-		dist[i] = 0xff
+		dist[i] = 0xffff
 	}
 
 	// Mark boundary cells.
@@ -67,7 +67,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 		}
 	}
 
-	var nd uint8
+	var nd uint16
 
 	// Pass 1
 	for y := int32(0); y < h; y++ {
@@ -83,7 +83,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(0)
 					ai := int32(chf.Cells[ax+ay*w].Index) + int32(GetCon(s, 0))
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint16(iMin(int32(dist[ai])+2, 0xffff))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -93,7 +93,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(3)
 						aay := ay + GetDirOffsetY(3)
 						aai := int32(chf.Cells[aax+aay*w].Index) + int32(GetCon(as, 3))
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint16(iMin(int32(dist[aai])+3, 0xffff))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -106,7 +106,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(3)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 3)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint16(iMin(int32(dist[ai])+2, 0xffff))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -116,7 +116,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(2)
 						aay := ay + GetDirOffsetY(2)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 2)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint16(iMin(int32(dist[aai])+3, 0xffff))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -140,7 +140,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(2)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 2)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint16(iMin(int32(dist[ai])+2, 0xffff))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -150,7 +150,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(1)
 						aay := ay + GetDirOffsetY(1)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 1)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint16(iMin(int32(dist[aai])+3, 0xffff))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -162,7 +162,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(1)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 1)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint16(iMin(int32(dist[ai])+2, 0xffff))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -172,7 +172,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(0)
 						aay := ay + GetDirOffsetY(0)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 0)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint16(iMin(int32(dist[aai])+3, 0xffff))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -182,9 +182,9 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 		}
 	}
 
-	thr := uint8(radius * 2)
+	thr := radius * 2
 	for i := int32(0); i < chf.SpanCount; i++ {
-		if dist[i] < thr {
+		if int32(dist[i]) < thr {
 			chf.Areas[i] = nullArea
 		}
 	}
-- 
2.43.0


From 91ed78c2d01787ef72a9c3b0c1ed12c1e9f7823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:19 +0000
Subject: [PATCH 33/64] fix: MarkConvexPolyArea bounds only part of the polygon

---
 recast/area.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/area.go b/recast/area.go
index e13eb19..b741dfb 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -222,7 +222,7 @@ func MarkConvexPolyArea(ctx *BuildContext, verts []float32, nverts int32,
 	var bmin, bmax [3]float32
 	copy(bmin[:], verts[:3])
 	copy(bmax[:], verts[:3])
-	for i := int32(1); i*3 < nverts; i++ {
+	for i := int32(1); i < nverts; i++ {
 		v := verts[i*3:]
 		d3.Vec3Min(bmin[:], v)
 		d3.Vec3Max(bmax[:], v)
-- 
2.43.0


From 1e50f57f1b1dfdfb3a6adea51685a9c6a7247593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:53 +0000
Subject: [PATCH 34/64] fix: MarkConvexPolyArea overflows for volumes without
 height limits

---
 recast/area.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index b741dfb..9918479 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -230,12 +230,12 @@ func MarkConvexPolyArea(ctx *BuildContext, verts []float32, nverts int32,
 	bmin[1] = hmin
 	bmax[1] = hmax
 
-	minx := int32(((bmin[0] - chf.BMin[0]) / chf.Cs))
-	miny := int32(((bmin[1] - chf.BMin[1]) / chf.Ch))
-	minz := int32(((bmin[2] - chf.BMin[2]) / chf.Cs))
-	maxx := int32(((bmax[0] - chf.BMin[0]) / chf.Cs))
-	maxy := int32(((bmax[1] - chf.BMin[1]) / chf.Ch))
-	maxz := int32(((bmax[2] - chf.BMin[2]) / chf.Cs))
+	minx := voxelCoord((bmin[0] - chf.BMin[0]) / chf.Cs)
+	miny := voxelCoord((bmin[1] - chf.BMin[1]) / chf.Ch)
+	minz := voxelCoord((bmin[2] - chf.BMin[2]) / chf.Cs)
+	maxx := voxelCoord((bmax[0] - chf.BMin[0]) / chf.Cs)
+	maxy := voxelCoord((bmax[1] - chf.BMin[1]) / chf.Ch)
+	maxz := voxelCoord((bmax[2] - chf.BMin[2]) / chf.Cs)
 
 	if maxx < 0 {
 		return
@@ -288,6 +288,17 @@ func MarkConvexPolyArea(ctx *BuildContext, verts []float32, nverts int32,
 	}
 }
 
+// voxelCoord converts a coordinate to voxels, keeping it in the range of int32.
+func voxelCoord(v float32) int32 {
+	const limit = 1 << 30
+	if v < -limit {
+		return -limit
+	} else if v > limit {
+		return limit
+	}
+	return int32(v)
+}
+
 func pointInPoly(nvert int32, verts, p []float32) bool {
 	var (
 		i, j int32
-- 
2.43.0


From a15292c0ce14973990c5c929bb2b9d2d1889d4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 35/64] fix: AddConvexVolume counts coordinates as vertices

---
 recast/inputgeom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index eec5939..bb5277e 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -219,7 +219,7 @@ func (ig *InputGeom) AddConvexVolume(verts []float32, minh, maxh float32, area u
 	copy(vol.Verts[:], verts)
 	vol.HMin = minh
 	vol.HMax = maxh
-	vol.NVerts = int32(len(verts))
+	vol.NVerts = int32(len(verts) / 3)
 	vol.Area = int32(area)
 }
 
-- 
2.43.0


From 073870415866b782599743762719c749f780a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:16 +0000
Subject: [PATCH 36/64] fix: BuildRegionsMonotone panics on rows with more
 sweeps than cells

---
 recast/region.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recast/region.go b/recast/region.go
index dbeebdd..9c49e7f 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -102,6 +102,10 @@ func BuildRegionsMonotone(ctx *BuildContext, chf *CompactHeightfield,
 				if previd == 0 {
 					previd = rid
 					rid++
+					if int(previd) >= len(sweeps) {
+						// There may be more sweeps than cells in a row.
+						sweeps = append(sweeps, sweepSpan{})
+					}
 					sweeps[previd].rid = previd
 					sweeps[previd].ns = 0
 					sweeps[previd].nei = 0
-- 
2.43.0


From 738c331a3c289db50bb28478c751dffdc4fb4e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 37/64] fix: tile border vertices between two areas are marked
 as removable

---
 recast/contour.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/recast/contour.go b/recast/contour.go
index c5e07f5..3c1daf4 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -11,11 +11,11 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 	ch = int32(s.Y)
 	dirp := (dir + 1) & 0x3
 
-	regs := [4]uint16{0, 0, 0, 0}
+	regs := [4]uint32{0, 0, 0, 0}
 
 	// Combine region and area codes in order to prevent
 	// border vertices which are in between two areas to be removed.
-	regs[0] = uint16(uint32(chf.Spans[i].Reg) | (uint32(chf.Areas[i]) << 16))
+	regs[0] = uint32(chf.Spans[i].Reg) | (uint32(chf.Areas[i]) << 16)
 
 	if GetCon(s, dir) != notConnected {
 		ax := x + GetDirOffsetX(dir)
@@ -23,13 +23,13 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 		ai := int32(chf.Cells[ax+ay*chf.Width].Index) + GetCon(s, dir)
 		as := &chf.Spans[ai]
 		ch = iMax(ch, int32(as.Y))
-		regs[1] = uint16(uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16))
+		regs[1] = uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16)
 		if GetCon(as, dirp) != notConnected {
 			ax2 := ax + GetDirOffsetX(dirp)
 			ay2 := ay + GetDirOffsetY(dirp)
 			ai2 := int32(chf.Cells[ax2+ay2*chf.Width].Index) + GetCon(as, dirp)
 			ch = iMax(ch, int32(chf.Spans[ai2].Y))
-			regs[2] = uint16(uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16))
+			regs[2] = uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16)
 		}
 	}
 	if GetCon(s, dirp) != notConnected {
@@ -38,13 +38,13 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 		ai := int32(chf.Cells[ax+ay*chf.Width].Index) + GetCon(s, dirp)
 		as := &chf.Spans[ai]
 		ch = iMax(ch, int32(as.Y))
-		regs[3] = uint16(uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16))
+		regs[3] = uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16)
 		if GetCon(as, dir) != notConnected {
 			ax2 := ax + GetDirOffsetX(dir)
 			ay2 := ay + GetDirOffsetY(dir)
 			ai2 := int32(chf.Cells[ax2+ay2*chf.Width].Index) + GetCon(as, dir)
 			ch = iMax(ch, int32(chf.Spans[ai2].Y))
-			regs[2] = uint16(uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16))
+			regs[2] = uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16)
 		}
 	}
 
@@ -57,9 +57,9 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 
 		// The vertex is a border vertex there are two same exterior cells in a row,
 		// followed by two interior cells and none of the regions are out of bounds.
-		twoSameExts := (regs[a]&regs[b]&borderReg) != 0 && regs[a] == regs[b]
-		twoInts := ((regs[c] | regs[d]) & borderReg) == 0
-		intsSameArea := (uint32(regs[c]) >> 16) == (uint32(regs[d]) >> 16)
+		twoSameExts := (regs[a]&regs[b]&uint32(borderReg)) != 0 && regs[a] == regs[b]
+		twoInts := ((regs[c] | regs[d]) & uint32(borderReg)) == 0
+		intsSameArea := (regs[c] >> 16) == (regs[d] >> 16)
 		noZeros := regs[a] != 0 && regs[b] != 0 && regs[c] != 0 && regs[d] != 0
 		if twoSameExts && twoInts && intsSameArea && noZeros {
 			isBorderVertex = true
-- 
2.43.0


From 6f671b1656c9a01046c70344753a9c8d3cc51c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:27 +0000
Subject: [PATCH 38/64] fix: BuildContours panics when a region has more
 contours than expected

---
 recast/contour.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/recast/contour.go b/recast/contour.go
index 3c1daf4..ce2c3b6 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -303,7 +303,6 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 				// Create contour.
 				if len(simplified)/4 >= 3 {
 					if cset.NConts >= maxContours {
-						panic("ENTERING")
 						// Allocate more contours.
 						// This happens when a region has holes.
 						oldMax := maxContours
-- 
2.43.0


From 6a28e27a31d2c92fe551f29a4ddc785ad16d8a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 39/64] fix: holes of regions are never merged into their
 outline

---
 recast/contour.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/recast/contour.go b/recast/contour.go
index ce2c3b6..1abf613 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -100,7 +100,7 @@ func mergeRegionHoles(ctx *BuildContext, region *contourRegion) {
 		region.holes[i].minx, region.holes[i].minz, region.holes[i].leftmost = findLeftMostVertex(region.holes[i].contour)
 	}
 
-	sort.Sort(compareHoles(region.holes))
+	sort.Sort(compareHoles(region.holes[:region.nholes]))
 
 	maxVerts := region.outline.NVerts
 	for i := int32(0); i < region.nholes; i++ {
@@ -140,13 +140,13 @@ func mergeRegionHoles(ctx *BuildContext, region *contourRegion) {
 
 			// Sort potential diagonals by distance, we want to make the connection as short as possible.
 			//qsort(diags, ndiags, sizeof(rcPotentialDiagonal), compareDiagDist);
-			sort.Sort(compareDiagDist(diags))
+			sort.Sort(compareDiagDist(diags[:ndiags]))
 
 			// Find a diagonal that is not intersecting the outline not the remaining holes.
 			index = -1
 			for j := int32(0); j < ndiags; j++ {
 				pt := outline.Verts[diags[j].vert*4:]
-				intersect := intersectSegCountour(pt, corner, diags[i].vert, outline.NVerts, outline.Verts)
+				intersect := intersectSegCountour(pt, corner, diags[j].vert, outline.NVerts, outline.Verts)
 				for k := i; k < region.nholes && !intersect; k++ {
 					intersect = intersect || intersectSegCountour(pt, corner, -1, region.holes[k].contour.NVerts, region.holes[k].contour.Verts)
 				}
@@ -355,13 +355,13 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 	// Merge holes if needed.
 	if cset.NConts > 0 {
 		// Calculate winding of all polygons.
-		winding := make([]uint8, cset.NConts)
+		winding := make([]int8, cset.NConts)
 		var nholes int32
 		for i := int32(0); i < cset.NConts; i++ {
 			cont := &cset.Conts[i]
 			// If the contour is wound backwards, it is a hole.
 			if calcAreaOfPolygon2D(cont.Verts, cont.NVerts) < 0 {
-				winding[i] = 0xff
+				winding[i] = -1
 			} else {
 				winding[i] = 1
 			}
@@ -371,7 +371,6 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 		}
 
 		if nholes > 0 {
-			panic("UNTESTED")
 			// Collect outline contour and holes contours per region.
 			// We assume that there is one outline and multiple holes.
 			nregions := chf.MaxRegions + 1
-- 
2.43.0


From 2e0cfaecec65031ef62b58173ced5bd433fff854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:24 +0000
Subject: [PATCH 40/64] fix: one cell holes are taken for outlines

---
 recast/contour.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recast/contour.go b/recast/contour.go
index 1abf613..2a711bd 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -763,6 +763,10 @@ func calcAreaOfPolygon2D(verts []int32, nverts int32) int32 {
 		area += vi[0]*vj[2] - vj[0]*vi[2]
 		j = i
 	}
+	if area < 0 {
+		// Round away from zero, small holes are still holes.
+		return (area - 1) / 2
+	}
 	return (area + 1) / 2
 }
 
-- 
2.43.0


From 870a15c9b61fe9681d2749f7305885b2e1680120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 41/64] fix: mesh vertices are not merged with lower ones

---
 recast/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 1596911..73c9e19 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -112,7 +112,7 @@ func addVertex(x, y, z uint16, verts []uint16, firstVert, nextVert []int32, nv *
 
 	for i != -1 {
 		v := verts[i*3:]
-		if v[0] == x && (iAbs(int32(v[1]-y)) <= 2) && v[2] == z {
+		if v[0] == x && (iAbs(int32(v[1])-int32(y)) <= 2) && v[2] == z {
 			return uint16(i)
 		}
 		i = nextVert[i] // next
-- 
2.43.0


From a29382b60b4ea8acc0ee2c82733fe50371d152b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 42/64] fix: edges around a border vertex are miscounted

---
 recast/mesh.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 73c9e19..4115bca 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -496,8 +496,7 @@ func canRemoveVertex(ctx *BuildContext, mesh *PolyMesh, rem uint16) bool {
 		nv := countPolyVerts(p, nvp)
 
 		// Collect edges which touches the removed vertex.
-		var j int32
-		for k := nv - 1; j < nv; k = j {
+		for j, k := int32(0), nv-1; j < nv; k, j = j, j+1 {
 			if p[j] == rem || p[k] == rem {
 				// Arrange edge so that a=rem.
 				a, b := p[j], p[k]
@@ -524,7 +523,6 @@ func canRemoveVertex(ctx *BuildContext, mesh *PolyMesh, rem uint16) bool {
 					nedges++
 				}
 			}
-			j++
 		}
 	}
 
-- 
2.43.0


From c200d1c490172433fd6823fd29a44b3683bf5469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 43/64] fix: vertex indices overflow in meshes of more than
 21845 vertices

---
 recast/mesh.go       |  8 ++++----
 recast/meshdetail.go | 14 +++++++-------
 recast/polymesh.go   |  4 ++--
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 4115bca..4c7f298 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -395,22 +395,22 @@ func getPolyMergeValue(pa, pb []uint16,
 	va = pa[(*ea+na-1)%na]
 	vb = pa[*ea]
 	vc = pb[(*eb+2)%nb]
-	if !uleft(verts[va*3:], verts[vb*3:], verts[vc*3:]) {
+	if !uleft(verts[int32(va)*3:], verts[int32(vb)*3:], verts[int32(vc)*3:]) {
 		return -1
 	}
 
 	va = pb[(*eb+nb-1)%nb]
 	vb = pb[*eb]
 	vc = pa[(*ea+2)%na]
-	if !uleft(verts[va*3:], verts[vb*3:], verts[vc*3:]) {
+	if !uleft(verts[int32(va)*3:], verts[int32(vb)*3:], verts[int32(vc)*3:]) {
 		return -1
 	}
 
 	va = pa[*ea]
 	vb = pa[(*ea+1)%na]
 
-	dx := int32(verts[va*3+0]) - int32(verts[vb*3+0])
-	dy := int32(verts[va*3+2]) - int32(verts[vb*3+2])
+	dx := int32(verts[int32(va)*3+0]) - int32(verts[int32(vb)*3+0])
+	dy := int32(verts[int32(va)*3+2]) - int32(verts[int32(vb)*3+2])
 
 	return dx*dx + dy*dy
 }
diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 5ed97ef..a6005bc 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -387,7 +387,7 @@ func BuildPolyMeshDetail(ctx *BuildContext, mesh *PolyMesh, chf *CompactHeightfi
 			if p[j] == meshNullIdx {
 				break
 			}
-			v := mesh.Verts[p[j]*3:]
+			v := mesh.Verts[int32(p[j])*3:]
 			*xmin = iMin(*xmin, int32(v[0]))
 			*xmax = iMax(*xmax, int32(v[0]))
 			*ymin = iMin(*ymin, int32(v[2]))
@@ -428,7 +428,7 @@ func BuildPolyMeshDetail(ctx *BuildContext, mesh *PolyMesh, chf *CompactHeightfi
 			if p[j] == meshNullIdx {
 				break
 			}
-			v := mesh.Verts[p[j]*3:]
+			v := mesh.Verts[int32(p[j])*3:]
 			poly[j*3+0] = float32(v[0]) * cs
 			poly[j*3+1] = float32(v[1]) * ch
 			poly[j*3+2] = float32(v[2]) * cs
@@ -1063,9 +1063,9 @@ func seedArrayWithPolyCenter(ctx *BuildContext, chf *CompactHeightfield,
 	)
 	for j := int32(0); j < npoly && dmin > 0; j++ {
 		for k := int32(0); k < 9 && dmin > 0; k++ {
-			ax := int32(verts[poly[j]*3+0]) + bsOffset[k*2+0]
-			ay := int32(verts[poly[j]*3+1])
-			az := int32(verts[poly[j]*3+2]) + bsOffset[k*2+1]
+			ax := int32(verts[int32(poly[j])*3+0]) + bsOffset[k*2+0]
+			ay := int32(verts[int32(poly[j])*3+1])
+			az := int32(verts[int32(poly[j])*3+2]) + bsOffset[k*2+1]
 			if ax < hp.xmin || ax >= hp.xmin+hp.width ||
 				az < hp.ymin || az >= hp.ymin+hp.height {
 				continue
@@ -1091,8 +1091,8 @@ func seedArrayWithPolyCenter(ctx *BuildContext, chf *CompactHeightfield,
 	// Find center of the polygon
 	var pcx, pcy int32
 	for j := int32(0); j < npoly; j++ {
-		pcx += int32(verts[poly[j]*3+0])
-		pcy += int32(verts[poly[j]*3+2])
+		pcx += int32(verts[int32(poly[j])*3+0])
+		pcy += int32(verts[int32(poly[j])*3+2])
 	}
 	pcx /= npoly
 	pcy /= npoly
diff --git a/recast/polymesh.go b/recast/polymesh.go
index 2ae38e1..198ef6f 100644
--- a/recast/polymesh.go
+++ b/recast/polymesh.go
@@ -282,8 +282,8 @@ func BuildPolyMesh(ctx *BuildContext, cset *ContourSet, nvp int32) (*PolyMesh, b
 				if nj >= nvp || p[nj] == meshNullIdx {
 					nj = 0
 				}
-				va := mesh.Verts[p[j]*3:]
-				vb := mesh.Verts[p[nj]*3:]
+				va := mesh.Verts[int32(p[j])*3:]
+				vb := mesh.Verts[int32(p[nj])*3:]
 
 				if int32(va[0]) == 0 && int32(vb[0]) == 0 {
 					p[nvp+j] = 0x8000 | 0
-- 
2.43.0


From 37f4b49cf253cf3f80ae78a0cd902ab1e6ab704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:38 +0000
Subject: [PATCH 44/64] fix: edge indices overflow in large meshes

---
 recast/mesh.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 4c7f298..c9640a3 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -11,7 +11,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 	// http://www.terathon.com/code/edges.php
 
 	maxEdgeCount := npolys * vertsPerPoly
-	firstEdge := make([]uint16, nverts+maxEdgeCount)
+	firstEdge := make([]int32, nverts+maxEdgeCount)
 	nextEdge := firstEdge[nverts:]
 	var edgeCount int32
 
@@ -21,7 +21,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 	}
 
 	for i := int32(0); i < nverts; i++ {
-		firstEdge[i] = meshNullIdx
+		firstEdge[i] = -1
 	}
 
 	for i := int32(0); i < npolys; i++ {
@@ -48,7 +48,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 				edge.polyEdge[1] = 0
 				// Insert edge
 				nextEdge[edgeCount] = firstEdge[v0]
-				firstEdge[v0] = uint16(edgeCount)
+				firstEdge[v0] = edgeCount
 				edgeCount++
 			}
 		}
@@ -68,7 +68,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 				v1 = t[j+1]
 			}
 			if v0 > v1 {
-				for e := uint16(firstEdge[v1]); e != meshNullIdx; e = nextEdge[e] {
+				for e := firstEdge[v1]; e != -1; e = nextEdge[e] {
 					edge := edges[e]
 					if edge.vert[1] == v0 && edge.poly[0] == edge.poly[1] {
 						edge.poly[1] = uint16(i)
-- 
2.43.0


From 10bcd5371c494d5913efdf8e045d43b30e0dd788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:09 +0000
Subject: [PATCH 45/64] fix: BuildPolyMeshDetail panics without sampling

---
 recast/meshdetail.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index a6005bc..9a95769 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -924,6 +924,11 @@ func buildPolyDetail(ctx *BuildContext, in []float32, nin int32,
 			}
 			j = i
 		}
+	} else {
+		for i := int32(0); i < nin; i++ {
+			hull[i] = i
+		}
+		nhull = nin
 	}
 
 	// If the polygon minimum extent is small (sliver or small triangle), do not try to add internal points.
-- 
2.43.0


From 466b1b74469f889de7a9925834361847ed5495ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 46/64] fix: BuildPolyMeshDetail panics instead of dropping bad
 triangles

---
 recast/meshdetail.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 9a95769..03656cb 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -701,13 +701,11 @@ func delaunayHull(ctx *BuildContext, npts int32, pts []float32,
 		t := (*tris)[i*4:]
 		if t[0] == -1 || t[1] == -1 || t[2] == -1 {
 			ctx.Warningf("delaunayHull: Removing dangling face %d [%d,%d,%d].", i, t[0], t[1], t[2])
-			panic("untested")
-			// TODO: simplify
 			t[0] = (*tris)[len(*tris)-4]
 			t[1] = (*tris)[len(*tris)-3]
 			t[2] = (*tris)[len(*tris)-2]
 			t[3] = (*tris)[len(*tris)-1]
-			*tris = append([]int32{}, (*tris)[:len(*tris)-4]...)
+			*tris = (*tris)[:len(*tris)-4]
 			i--
 		}
 	}
@@ -1038,9 +1036,7 @@ func buildPolyDetail(ctx *BuildContext, in []float32, nin int32,
 
 	ntris := len(*tris) / 4
 	if ntris > MAX_TRIS {
-		panic("untested")
-		//tris.resize(MAX_TRIS*4);
-		*tris = make([]int32, MAX_TRIS*4)
+		*tris = (*tris)[:MAX_TRIS*4]
 		ctx.Errorf("rcBuildPolyMeshDetail: Shrinking triangle count from %d to max %d.", ntris, MAX_TRIS)
 	}
 
-- 
2.43.0


From 63328d51bf073fa4e4dcb85a687890025b9cb13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 47/64] fix: detail samples without height data are put at the
 largest height

---
 recast/meshdetail.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 03656cb..84cb81d 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -869,7 +869,10 @@ func buildPolyDetail(ctx *BuildContext, in []float32, nin int32,
 				pos[0] = vj[0] + dx*u
 				pos[1] = vj[1] + dy*u
 				pos[2] = vj[2] + dz*u
-				pos[1] = float32(getHeight(pos[0], pos[1], pos[2], cs, ics, chf.Ch, heightSearchRadius, hp)) * chf.Ch
+				// Keep the height of the edge where the heightfield has none.
+				if h := getHeight(pos[0], pos[1], pos[2], cs, ics, chf.Ch, heightSearchRadius, hp); uint32(h) != unsetHeight {
+					pos[1] = float32(h) * chf.Ch
+				}
 			}
 			// Simplify samples.
 			idx := [MAX_VERTS_PER_EDGE]int32{0, nn}
@@ -971,11 +974,11 @@ func buildPolyDetail(ctx *BuildContext, in []float32, nin int32,
 				if distToPoly(nin, in, pt[:]) > -sampleDist/2 {
 					continue
 				}
-				*samples = append(*samples,
-					x,
-					int32(getHeight(pt[0], pt[1], pt[2], cs, ics, chf.Ch, heightSearchRadius, hp)),
-					z,
-					0)
+				h := getHeight(pt[0], pt[1], pt[2], cs, ics, chf.Ch, heightSearchRadius, hp)
+				if uint32(h) == unsetHeight {
+					continue // no height data there.
+				}
+				*samples = append(*samples, x, int32(h), z, 0)
 			}
 		}
 
-- 
2.43.0


From bcbd418c7c3431513dc091f4793bb891cbe3f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 48/64] fix: OBJ parsing panics on relative indices and depends
 on spacing

Relative or out of range vertex indices made the decoder panic, CRLF line
endings, tabs or repeated spaces were rejected, while incomplete vertices
and faces, or faces with an index 0, were silently accepted as other
geometry. Loading twice with the same loader kept the former triangles.
---
 recast/meshloaderobj.go | 122 ++++++++++++++++++++++++++++++++--------
 1 file changed, 97 insertions(+), 25 deletions(-)

diff --git a/recast/meshloaderobj.go b/recast/meshloaderobj.go
index 2a1909e..6e05c8f 100644
--- a/recast/meshloaderobj.go
+++ b/recast/meshloaderobj.go
@@ -1,9 +1,12 @@
 package recast
 
 import (
+	"bufio"
+	"fmt"
 	"io"
+	"strconv"
+	"strings"
 
-	"github.com/arl/gobj"
 	"github.com/arl/math32"
 )
 
@@ -23,40 +26,62 @@ func NewMeshLoaderOBJ() *MeshLoaderOBJ {
 	}
 }
 
+// Load reads the geometry from an OBJ file.
+//
+// Only vertex and face statements are considered, other statements are
+// ignored. An error is returned if one of them is malformed, in which case the
+// loader is left unchanged.
 func (mlo *MeshLoaderOBJ) Load(r io.Reader) error {
 	var (
-		obj *gobj.OBJFile
-		err error
+		verts []float32
+		faces [][]int32
 	)
-	obj, err = gobj.Decode(r)
-	if err != nil {
-		return err
-	}
 
-	// copy vertices indices from OBJ,
-	// multiplying them by the scale factor
-	verts := obj.Verts()
-	count := int32(len(verts)) * 3
-	mlo.verts = make([]float32, count)
-	for i := int32(0); i < count; i += 3 {
-		mlo.verts[i] = float32(verts[i/3][0]) * mlo.scale
-		mlo.verts[i+1] = float32(verts[i/3][1]) * mlo.scale
-		mlo.verts[i+2] = float32(verts[i/3][2]) * mlo.scale
+	br := bufio.NewReader(r)
+	for lineno, eof := 1, false; !eof; lineno++ {
+		line, err := br.ReadString('\n')
+		if err != nil && err != io.EOF {
+			return fmt.Errorf("error parsing file: %v", err)
+		}
+		eof = err == io.EOF
+
+		fields := strings.Fields(line)
+		if len(fields) == 0 {
+			continue
+		}
+		kw, vals := fields[0], fields[1:]
+		switch kw {
+		case "v":
+			v, err := parseOBJVertex(vals)
+			if err != nil {
+				return fmt.Errorf("error parsing vertex at line %d,\"%v\": %s", lineno, vals, err)
+			}
+			// apply the scale factor
+			verts = append(verts, v[0]*mlo.scale, v[1]*mlo.scale, v[2]*mlo.scale)
+		case "f":
+			f, err := parseOBJFace(vals, len(verts)/3)
+			if err != nil {
+				return fmt.Errorf("error parsing face at line %d,\"%v\": %s", lineno, vals, err)
+			}
+			faces = append(faces, f)
+		default:
+			// ignore everything else
+		}
 	}
-	vertcount := int32(len(verts))
 
 	// add polygons
-	for _, p := range obj.Polys() {
-		for i := 2; i < len(p); i++ {
-			a := p[0]
-			b := p[i-1]
-			c := p[i]
-			if a < 0 || a >= vertcount || b < 0 || b >= vertcount || c < 0 || c >= vertcount {
-				continue
+	tris := make([]int32, 0)
+	for _, f := range faces {
+		for _, v := range f {
+			if v >= int32(len(verts)/3) {
+				return fmt.Errorf("invalid face, there is no vertex %d", v+1)
 			}
-			mlo.tris = append(mlo.tris, a, b, c)
+		}
+		for i := 2; i < len(f); i++ {
+			tris = append(tris, f[0], f[i-1], f[i])
 		}
 	}
+	mlo.verts, mlo.tris = verts, tris
 
 	// Calculate normals.
 	// TODO: factor this with recast.calcTriNormal
@@ -86,6 +111,53 @@ func (mlo *MeshLoaderOBJ) Load(r io.Reader) error {
 	return nil
 }
 
+// parseOBJVertex reads the coordinates of a vertex, the optional weight is
+// ignored.
+func parseOBJVertex(vals []string) (v [3]float32, err error) {
+	if len(vals) < 3 || len(vals) > 4 {
+		return v, fmt.Errorf("invalid number of coordinates")
+	}
+	for i := range v {
+		f, err := strconv.ParseFloat(vals[i], 64)
+		if err != nil {
+			return v, err
+		}
+		v[i] = float32(f)
+		if math32.IsNaN(v[i]) || math32.IsInf(v[i], 0) {
+			return v, fmt.Errorf("invalid coordinate \"%v\"", vals[i])
+		}
+	}
+	return v, nil
+}
+
+// parseOBJFace reads the vertex indices of a face and makes them zero-based.
+// nverts is the number of vertices known so far, from which relative indices
+// are resolved.
+func parseOBJFace(vals []string, nverts int) ([]int32, error) {
+	if len(vals) < 3 {
+		return nil, fmt.Errorf("a face has at least 3 vertices")
+	}
+	f := make([]int32, len(vals))
+	for i, val := range vals {
+		// the index of the vertex may be followed by those of its texture
+		// coordinates and normal.
+		idx, err := strconv.ParseInt(strings.Split(val, "/")[0], 10, 32)
+		if err != nil {
+			return nil, err
+		}
+		if idx < 0 {
+			idx += int64(nverts) // relative index
+		} else {
+			idx--
+		}
+		if idx < 0 {
+			return nil, fmt.Errorf("invalid vertex index \"%v\"", val)
+		}
+		f[i] = int32(idx)
+	}
+	return f, nil
+}
+
 func (mlo *MeshLoaderOBJ) Scale() float32 {
 	return mlo.scale
 }
-- 
2.43.0


From fff5bd03b553ac24651509262afee8d409994bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:40 +0000
Subject: [PATCH 49/64] fix: LoadOBJMesh panics without vertices and keeps half
 loaded geometry

A failed load left an empty mesh with the bounds of the former one, that
builders take for loaded geometry.
---
 recast/inputgeom.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index bb5277e..bbf4cf3 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -90,26 +90,28 @@ type InputGeom struct {
 
 // LoadOBJMesh loads the geometry from a reader on a OBJ file.
 func (ig *InputGeom) LoadOBJMesh(r io.Reader) error {
-	var err error
-	if ig.mesh != nil {
-		ig.chunkyMesh = nil
-		ig.mesh = nil
-	}
+	ig.chunkyMesh = nil
+	ig.mesh = nil
 	ig.offMeshConCount = 0
 	ig.volumeCount = 0
 
-	ig.mesh = NewMeshLoaderOBJ()
-	if err = ig.mesh.Load(r); err != nil {
+	mesh := NewMeshLoaderOBJ()
+	if err := mesh.Load(r); err != nil {
 		return err
 	}
+	if mesh.TriCount() == 0 {
+		return fmt.Errorf("the geometry has no triangles")
+	}
 
-	CalcBounds(ig.mesh.Verts(), ig.mesh.VertCount(), ig.meshBMin[:], ig.meshBMax[:])
-
-	ig.chunkyMesh = new(ChunkyTriMesh)
-	if !createChunkyTriMesh(ig.mesh.Verts(), ig.mesh.Tris(), ig.mesh.TriCount(), 256, ig.ChunkyMesh()) {
+	chunkyMesh := new(ChunkyTriMesh)
+	if !createChunkyTriMesh(mesh.Verts(), mesh.Tris(), mesh.TriCount(), 256, chunkyMesh) {
 		return fmt.Errorf("failed to build chunky mesh")
 	}
 
+	CalcBounds(mesh.Verts(), mesh.VertCount(), ig.meshBMin[:], ig.meshBMax[:])
+	ig.mesh = mesh
+	ig.chunkyMesh = chunkyMesh
+
 	return nil
 }
 
-- 
2.43.0


From 940eeaa60ffe65d2c8fc79a1d7311c2db99dea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:40 +0000
Subject: [PATCH 50/64] fix: AccumulatedTime returns 0 for timers disabled or
 never started

The documented value is -1, on which LogBuildTimes relies to skip the steps
that did not run. Stopping a timer that was not started added centuries.
---
 recast/buildcontext.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/recast/buildcontext.go b/recast/buildcontext.go
index 84b1920..1931699 100644
--- a/recast/buildcontext.go
+++ b/recast/buildcontext.go
@@ -23,6 +23,7 @@ const maxMessages = 1000
 type BuildContext struct {
 	startTime [maxTimers]time.Time
 	accTime   [maxTimers]time.Duration
+	timed     [maxTimers]bool // true once accTime is valid
 
 	messages    [maxMessages]string
 	numMessages int
@@ -66,6 +67,7 @@ func (ctx *BuildContext) ResetTimers() {
 	if ctx.timerEnabled {
 		for i := 0; i < maxTimers; i++ {
 			ctx.accTime[i] = time.Duration(0)
+			ctx.timed[i] = false
 		}
 	}
 }
@@ -147,13 +149,10 @@ func (ctx *BuildContext) StartTimer(label TimerLabel) {
 
 // StopTimer stops the specified performance timer.
 func (ctx *BuildContext) StopTimer(label TimerLabel) {
-	if ctx.timerEnabled {
-		deltaTime := time.Since(ctx.startTime[label])
-		if ctx.accTime[label] == 0 {
-			ctx.accTime[label] = deltaTime
-		} else {
-			ctx.accTime[label] += deltaTime
-		}
+	if ctx.timerEnabled && !ctx.startTime[label].IsZero() {
+		ctx.accTime[label] += time.Since(ctx.startTime[label])
+		ctx.timed[label] = true
+		ctx.startTime[label] = time.Time{}
 	}
 }
 
@@ -163,8 +162,8 @@ func (ctx *BuildContext) StopTimer(label TimerLabel) {
 // Returns the accumulated time of the timer, or -1 if timers are disabled or
 // the timer has never been started.
 func (ctx *BuildContext) AccumulatedTime(label TimerLabel) time.Duration {
-	if ctx.timerEnabled {
+	if ctx.timerEnabled && ctx.timed[label] {
 		return ctx.accTime[label]
 	}
-	return time.Duration(0)
+	return time.Duration(-1)
 }
-- 
2.43.0


From bfee9882c03ba4105968894bd67dac124e42de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 51/64] fix: timers of the filters and the compact heightfield
 never stop

---
 recast/filter.go      | 3 +++
 recast/heightfield.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/recast/filter.go b/recast/filter.go
index 90f1905..059f8c3 100644
--- a/recast/filter.go
+++ b/recast/filter.go
@@ -24,6 +24,7 @@ import "github.com/arl/assertgo"
 func FilterLowHangingWalkableObstacles(ctx *BuildContext, walkableClimb int32, solid *Heightfield) {
 	assert.True(ctx != nil, "ctx should not be nil")
 	ctx.StartTimer(TimerFilterLowObstacles)
+	defer ctx.StopTimer(TimerFilterLowObstacles)
 
 	w := solid.Width
 	h := solid.Height
@@ -77,6 +78,7 @@ func FilterLowHangingWalkableObstacles(ctx *BuildContext, walkableClimb int32, s
 func FilterLedgeSpans(ctx *BuildContext, walkableHeight, walkableClimb int32, solid *Heightfield) {
 	assert.True(ctx != nil, "ctx should not be nil")
 	ctx.StartTimer(TimerFilterBorder)
+	defer ctx.StopTimer(TimerFilterBorder)
 
 	w := solid.Width
 	h := solid.Height
@@ -187,6 +189,7 @@ func FilterLedgeSpans(ctx *BuildContext, walkableHeight, walkableClimb int32, so
 func FilterWalkableLowHeightSpans(ctx *BuildContext, walkableHeight int32, solid *Heightfield) {
 	assert.True(ctx != nil, "ctx should not be nil")
 	ctx.StartTimer(TimerFilterWalkable)
+	defer ctx.StopTimer(TimerFilterWalkable)
 
 	w := solid.Width
 	h := solid.Height
diff --git a/recast/heightfield.go b/recast/heightfield.go
index 5bb78a1..8662978 100644
--- a/recast/heightfield.go
+++ b/recast/heightfield.go
@@ -271,6 +271,7 @@ func BuildCompactHeightfield(ctx *BuildContext, walkableHeight, walkableClimb in
 
 	assert.True(ctx != nil, "ctx should not be nil")
 	ctx.StartTimer(TimerBuildCompactHeightfield)
+	defer ctx.StopTimer(TimerBuildCompactHeightfield)
 
 	w := hf.Width
 	h := hf.Height
-- 
2.43.0


From 86bc3c8b9477695ee3df40cf4dde01b76ea8518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:05 +0000
Subject: [PATCH 52/64] fix: tiles of more than 512 chunks of triangles miss
 some of them

---
 sample/tilemesh/builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index eae53f1..a3ca84b 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -284,8 +284,8 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tbmin[1] = tm.cfg.BMin[2]
 	tbmax[0] = tm.cfg.BMax[0]
 	tbmax[1] = tm.cfg.BMax[2]
-	var cid [512]int32 // TODO: Make grow when returning too many items.
-	ncid := chunkyMesh.ChunksOverlappingRect(tbmin, tbmax, cid[:])
+	cid := make([]int32, chunkyMesh.Nnodes)
+	ncid := chunkyMesh.ChunksOverlappingRect(tbmin, tbmax, cid)
 	if ncid == 0 {
 		return nil
 	}
-- 
2.43.0


From 42ab6b40963f9a33334807006710162b755dccb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:06 +0000
Subject: [PATCH 53/64] fix: tiled builds with too many vertices per polygon
 give an empty mesh

---
 sample/tilemesh/builder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index a3ca84b..92e657f 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -77,6 +77,11 @@ func (tm *TileMesh) Build() (*detour.NavMesh, bool) {
 		return nil, false
 	}
 
+	if tm.settings.VertsPerPoly > float32(detour.VertsPerPolygon) {
+		tm.ctx.Errorf("TileMesh.Build: Too many vertices per polygon %v (max: %d).", tm.settings.VertsPerPoly, detour.VertsPerPolygon)
+		return nil, false
+	}
+
 	bmin := tm.geom.NavMeshBoundsMin()
 	bmax := tm.geom.NavMeshBoundsMax()
 	gw, gh := recast.CalcGridSize(bmin[:], bmax[:], tm.settings.CellSize)
-- 
2.43.0


From 129d0feb3330e0fbe2925c0551a4a506c876430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:08 +0000
Subject: [PATCH 54/64] fix: tiled builds ignore tiles that do not fit in the
 mesh

---
 sample/tilemesh/builder.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index 92e657f..92326ca 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -116,9 +116,7 @@ func (tm *TileMesh) Build() (*detour.NavMesh, bool) {
 		return nil, false
 	}
 
-	tm.buildAllTiles()
-
-	return &tm.navMesh, true
+	return tm.buildAllTiles()
 }
 
 func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
@@ -148,7 +146,12 @@ func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
 				// Remove any previous data (navmesh owns and deletes the data).
 				tm.navMesh.RemoveTile(tm.navMesh.TileRefAt(x, y, 0))
 				// Let the navmesh own the data.
-				tm.navMesh.AddTile(data, detour.TileRef(0))
+				status, _ := tm.navMesh.AddTile(data, detour.TileRef(0))
+				if detour.StatusFailed(status) {
+					tm.ctx.Errorf("TileMesh.Build: Could not add tile (%d,%d)", x, y)
+					tm.ctx.StopTimer(recast.TimerTemp)
+					return nil, false
+				}
 			}
 		}
 	}
@@ -158,7 +161,6 @@ func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
 
 	tm.totalBuildTime = tm.ctx.AccumulatedTime(recast.TimerTemp)
 
-	// TODO: probably useless
 	return &tm.navMesh, true
 }
 
-- 
2.43.0


From fab821bd74be2c2efe4cb121d9bd0e15f00dc187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:51 +0000
Subject: [PATCH 55/64] fix: recast panics when a confirmation is not answered

---
 cmd/recast/cmd/utils.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/recast/cmd/utils.go b/cmd/recast/cmd/utils.go
index ac367c9..ce60696 100644
--- a/cmd/recast/cmd/utils.go
+++ b/cmd/recast/cmd/utils.go
@@ -29,8 +29,12 @@ func askForConfirmation(msg string) bool {
 	defaultInput := byte('N')
 
 	for {
-		input, _ := reader.ReadString('\n')
-		c := string([]byte(input)[0])[0]
+		input, err := reader.ReadString('\n')
+		if err != nil && len(input) == 0 {
+			// no more input, no confirmation
+			return false
+		}
+		c := input[0]
 		if c == 10 {
 			// ENTER
 			c = defaultInput
-- 
2.43.0


From 31f1d77f2b1f2404046b897952742b18c886461e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 56/64] fix: recast exits with success after errors

---
 cmd/recast/cmd/build.go  | 9 +++------
 cmd/recast/cmd/config.go | 3 +--
 cmd/recast/cmd/infos.go  | 3 +--
 3 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/cmd/recast/cmd/build.go b/cmd/recast/cmd/build.go
index fadb073..693cd51 100644
--- a/cmd/recast/cmd/build.go
+++ b/cmd/recast/cmd/build.go
@@ -34,8 +34,7 @@ func init() {
 func doBuild(cmd *cobra.Command, args []string) {
 	// check existence of input geometry flags
 	if len(inputVal) == 0 {
-		fmt.Printf("missing input geometry file (--input)")
-		return
+		check(fmt.Errorf("missing input geometry file (--input)"))
 	}
 
 	//
@@ -92,8 +91,7 @@ func doBuild(cmd *cobra.Command, args []string) {
 		navMesh, ok = tileMesh.Build()
 
 	default:
-		fmt.Printf("unknown (or unimplemented) navmesh type '%v'\n", typeVal)
-		return
+		check(fmt.Errorf("unknown (or unimplemented) navmesh type '%v'", typeVal))
 	}
 
 	ctx.DumpLog(os.Stdout, "")
@@ -103,8 +101,7 @@ func doBuild(cmd *cobra.Command, args []string) {
 	//
 
 	if !ok {
-		fmt.Printf("couldn't build navmesh for %v\n", inputVal)
-		return
+		check(fmt.Errorf("couldn't build navmesh for %v", inputVal))
 	}
 
 	// check output file name
diff --git a/cmd/recast/cmd/config.go b/cmd/recast/cmd/config.go
index 0504402..342c537 100644
--- a/cmd/recast/cmd/config.go
+++ b/cmd/recast/cmd/config.go
@@ -58,8 +58,7 @@ func doConfig(cmd *cobra.Command, args []string) {
 	)
 
 	if cfg, ok = defaultCfgs[typeVal]; !ok {
-		fmt.Printf("error, unknown (or unimplemented) navmesh type '%v'\n", typeVal)
-		return
+		check(fmt.Errorf("unknown (or unimplemented) navmesh type '%v'", typeVal))
 	}
 
 	// check file name
diff --git a/cmd/recast/cmd/infos.go b/cmd/recast/cmd/infos.go
index b1cd4e6..d2d6bbc 100644
--- a/cmd/recast/cmd/infos.go
+++ b/cmd/recast/cmd/infos.go
@@ -25,8 +25,7 @@ func init() {
 func doInfos(cmd *cobra.Command, args []string) {
 	// check existence of navmesh
 	if len(args) < 1 {
-		fmt.Printf("no input navmesh file")
-		return
+		check(fmt.Errorf("no input navmesh file"))
 	}
 	var (
 		err     error
-- 
2.43.0


From 5162dc3318dbe5e6f481f37d81beea8f2d59ab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:53 +0000
Subject: [PATCH 57/64] fix: recast infos takes every navmesh for a solo mesh

---
 cmd/recast/cmd/infos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/recast/cmd/infos.go b/cmd/recast/cmd/infos.go
index d2d6bbc..03ae43e 100644
--- a/cmd/recast/cmd/infos.go
+++ b/cmd/recast/cmd/infos.go
@@ -49,5 +49,5 @@ func doInfos(cmd *cobra.Command, args []string) {
 	buf, err = json.MarshalIndent(navmesh.Params, "", "  ")
 	check(err)
 	fmt.Printf("successfully loaded '%v'\n", binMesh)
-	fmt.Printf("'%v' navmesh infos:\n%s", typeVal, string(buf))
+	fmt.Printf("navmesh infos:\n%s\n", string(buf))
 }
-- 
2.43.0


From 6453ae3467335ff69026e0b19ffb5f2e768d5516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:55 +0000
Subject: [PATCH 58/64] fix: recast config mentions a flag that does not exist

---
 cmd/recast/cmd/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/recast/cmd/config.go b/cmd/recast/cmd/config.go
index 342c537..aefeea6 100644
--- a/cmd/recast/cmd/config.go
+++ b/cmd/recast/cmd/config.go
@@ -18,7 +18,7 @@ var configCmd = &cobra.Command{
 	Long: `Write to FILE a build config in YAML format, pre-filled with the
 default settings to build a navmesh of type TYPE.
 
-To use the generated file, call "recast build --cfg FILE".`,
+To use the generated file, call "recast build --config FILE".`,
 	Run: doConfig,
 }
 
-- 
2.43.0


From 527b58d75132f9288f1ef4bc18f30b05ef96bd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:18 +0000
Subject: [PATCH 59/64] fix: builders panic with settings that cannot be

---
 sample/solomesh/builder.go | 5 +++++
 sample/tilemesh/builder.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/sample/solomesh/builder.go b/sample/solomesh/builder.go
index 37ab521..61e90d8 100644
--- a/sample/solomesh/builder.go
+++ b/sample/solomesh/builder.go
@@ -55,6 +55,11 @@ func (sm *SoloMesh) Build() (*detour.NavMesh, bool) {
 		return nil, false
 	}
 
+	if !(sm.settings.CellSize > 0) || !(sm.settings.CellHeight > 0) || !(sm.settings.VertsPerPoly >= 3) {
+		sm.ctx.Errorf("SoloMesh.Build: Invalid build settings.")
+		return nil, false
+	}
+
 	bmin := sm.geom.NavMeshBoundsMin()
 	bmax := sm.geom.NavMeshBoundsMax()
 	verts := sm.geom.Mesh().Verts()
diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index 92326ca..ef78ec9 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -77,6 +77,11 @@ func (tm *TileMesh) Build() (*detour.NavMesh, bool) {
 		return nil, false
 	}
 
+	if !(tm.settings.CellSize > 0) || !(tm.settings.CellHeight > 0) || !(tm.settings.VertsPerPoly >= 3) ||
+		!(tm.settings.TileSize >= 1) {
+		tm.ctx.Errorf("TileMesh.Build: Invalid build settings.")
+		return nil, false
+	}
 	if tm.settings.VertsPerPoly > float32(detour.VertsPerPolygon) {
 		tm.ctx.Errorf("TileMesh.Build: Too many vertices per polygon %v (max: %d).", tm.settings.VertsPerPoly, detour.VertsPerPolygon)
 		return nil, false
-- 
2.43.0


From de772fb5cba325fcb5138064974b234e068ce1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:50 +0000
Subject: [PATCH 60/64] fix: convex volumes of more than 12 points lose some
 and make builds panic

---
 recast/inputgeom.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index bbf4cf3..3043aaa 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -8,11 +8,10 @@ import (
 const (
 	maxOffMeshConnections = 256
 	maxVolumes            = 256
-	maxConvexVolPts       = 12
 )
 
 type ConvexVolume struct {
-	Verts      [maxConvexVolPts * 3]float32
+	Verts      []float32
 	HMin, HMax float32
 	NVerts     int32
 	Area       int32
@@ -218,7 +217,7 @@ func (ig *InputGeom) AddConvexVolume(verts []float32, minh, maxh float32, area u
 	}
 	vol := &ig.volumes[ig.volumeCount]
 	ig.volumeCount++
-	copy(vol.Verts[:], verts)
+	vol.Verts = append([]float32(nil), verts...)
 	vol.HMin = minh
 	vol.HMax = maxh
 	vol.NVerts = int32(len(verts) / 3)
-- 
2.43.0


From b7d43d62944ffcb5f78200791672700a1e2332ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:55 +0000
Subject: [PATCH 61/64] fix: more than 32 layers at one location were neither
 linked, unlinked nor queried

Tiles beyond the 32nd at a grid location got no links, kept links to
removed tiles, and were left out of polygon queries.
---
 detour/mesh.go  | 61 ++++++++++++++++++++++++-------------------------
 detour/query.go |  8 ++-----
 2 files changed, 32 insertions(+), 37 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 71f047c..caf8526 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -430,32 +430,26 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 	m.connectExtOffMeshLinks(tile, tile, -1)
 
 	// Create connections with neighbour tiles.
-	maxNeis := int32(32)
-	neis := make([]*MeshTile, maxNeis)
-	var nneis int32
 
 	// Connect with layers in current tile.
-	nneis = m.TilesAt(hdr.X, hdr.Y, neis, maxNeis)
-	var j int32
-	for j = 0; j < nneis; j++ {
-		if neis[j] == tile {
+	for _, nei := range m.allTilesAt(hdr.X, hdr.Y) {
+		if nei == tile {
 			continue
 		}
 
-		m.connectExtLinks(tile, neis[j], -1)
-		m.connectExtLinks(neis[j], tile, -1)
-		m.connectExtOffMeshLinks(tile, neis[j], -1)
-		m.connectExtOffMeshLinks(neis[j], tile, -1)
+		m.connectExtLinks(tile, nei, -1)
+		m.connectExtLinks(nei, tile, -1)
+		m.connectExtOffMeshLinks(tile, nei, -1)
+		m.connectExtOffMeshLinks(nei, tile, -1)
 	}
 
 	// Connect with neighbour tiles.
 	for i = 0; i < 8; i++ {
-		nneis = m.neighbourTilesAt(hdr.X, hdr.Y, i, neis, maxNeis)
-		for j = 0; j < nneis; j++ {
-			m.connectExtLinks(tile, neis[j], i)
-			m.connectExtLinks(neis[j], tile, oppositeTile(i))
-			m.connectExtOffMeshLinks(tile, neis[j], i)
-			m.connectExtOffMeshLinks(neis[j], tile, oppositeTile(i))
+		for _, nei := range m.neighbourTilesAt(hdr.X, hdr.Y, i) {
+			m.connectExtLinks(tile, nei, i)
+			m.connectExtLinks(nei, tile, oppositeTile(i))
+			m.connectExtOffMeshLinks(tile, nei, i)
+			m.connectExtOffMeshLinks(nei, tile, oppositeTile(i))
 		}
 	}
 
@@ -512,26 +506,19 @@ func (m *NavMesh) RemoveTile(ref TileRef) (data []uint8, st Status) {
 	}
 
 	// Remove connections to neighbour tiles.
-	const MAX_NEIS = 32
-	var (
-		neis  [MAX_NEIS]*MeshTile
-		nneis int
-	)
 
 	// Disconnect from other layers in current tile.
-	nneis = int(m.TilesAt(tile.Header.X, tile.Header.Y, neis[:], MAX_NEIS))
-	for j := 0; j < nneis; j++ {
-		if neis[j] == tile {
+	for _, nei := range m.allTilesAt(tile.Header.X, tile.Header.Y) {
+		if nei == tile {
 			continue
 		}
-		m.unconnectLinks(neis[j], tile)
+		m.unconnectLinks(nei, tile)
 	}
 
 	// Disconnect from neighbour tiles.
 	for i := 0; i < 8; i++ {
-		nneis = int(m.neighbourTilesAt(tile.Header.X, tile.Header.Y, int32(i), neis[:], MAX_NEIS))
-		for j := 0; j < nneis; j++ {
-			m.unconnectLinks(neis[j], tile)
+		for _, nei := range m.neighbourTilesAt(tile.Header.X, tile.Header.Y, int32(i)) {
+			m.unconnectLinks(nei, tile)
 		}
 	}
 
@@ -1292,6 +1279,18 @@ func (m *NavMesh) TilesAt(x, y int32, tiles []*MeshTile, maxTiles int32) int32 {
 	return n
 }
 
+// allTilesAt returns all tiles at the specified grid location, whatever the
+// number of layers.
+func (m *NavMesh) allTilesAt(x, y int32) []*MeshTile {
+	var tiles []*MeshTile
+	for tile := m.posLookup[computeTileHash(x, y, m.TileLUTMask)]; tile != nil; tile = tile.Next {
+		if tile.Header != nil && tile.Header.X == x && tile.Header.Y == y {
+			tiles = append(tiles, tile)
+		}
+	}
+	return tiles
+}
+
 // Builds external polygon links for a tile.
 func (m *NavMesh) connectExtLinks(tile, target *MeshTile, side int32) {
 	if tile == nil {
@@ -1534,7 +1533,7 @@ func overlapSlabs(amin, amax, bmin, bmax d3.Vec3, px, py float32) bool {
 }
 
 // Returns neighbour tile based on side.
-func (m *NavMesh) neighbourTilesAt(x, y, side int32, tiles []*MeshTile, maxTiles int32) int32 {
+func (m *NavMesh) neighbourTilesAt(x, y, side int32) []*MeshTile {
 	nx := x
 	ny := y
 	switch side {
@@ -1560,7 +1559,7 @@ func (m *NavMesh) neighbourTilesAt(x, y, side int32, tiles []*MeshTile, maxTiles
 		ny--
 	}
 
-	return m.TilesAt(nx, ny, tiles, maxTiles)
+	return m.allTilesAt(nx, ny)
 }
 
 // TileRefAt returns the tile reference for the tile at specified grid location.
diff --git a/detour/query.go b/detour/query.go
index 857ab4b..b14fdaa 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1230,14 +1230,10 @@ func (q *NavMeshQuery) queryPolygons4(
 	minx, miny := q.nav.CalcTileLoc(bmin)
 	maxx, maxy := q.nav.CalcTileLoc(bmax)
 
-	const maxNeis int32 = 32
-	neis := make([]*MeshTile, maxNeis)
-
 	for y := miny; y <= maxy; y++ {
 		for x := minx; x <= maxx; x++ {
-			nneis := q.nav.TilesAt(x, y, neis, maxNeis)
-			for j := int32(0); j < nneis; j++ {
-				q.queryPolygonsInTile(neis[j], bmin[:], bmax[:], filter, query)
+			for _, tile := range q.nav.allTilesAt(x, y) {
+				q.queryPolygonsInTile(tile, bmin[:], bmax[:], filter, query)
 			}
 		}
 	}
-- 
2.43.0


From 63bb51335f198c5ff013b94f65c89fdb0213d76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:51 +0000
Subject: [PATCH 62/64] fix: nearest-polygon queries with a very large box hung
 or found nothing

The box touches more tile locations than can be visited (or than the
location type holds); look in all tiles then.
---
 detour/query.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/detour/query.go b/detour/query.go
index b14fdaa..503e56e 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1226,6 +1226,19 @@ func (q *NavMeshQuery) queryPolygons4(
 	bmin := center.Sub(extents)
 	bmax := center.Add(extents)
 
+	// A box touching more locations than there are tiles is looked for in all
+	// tiles, it may touch more locations than can be visited.
+	nx := (bmax[0]-bmin[0])/q.nav.TileWidth + 1
+	ny := (bmax[2]-bmin[2])/q.nav.TileHeight + 1
+	if nx*ny > float32(q.nav.MaxTiles) {
+		for i := range q.nav.Tiles {
+			if tile := &q.nav.Tiles[i]; tile.Header != nil {
+				q.queryPolygonsInTile(tile, bmin[:], bmax[:], filter, query)
+			}
+		}
+		return Success
+	}
+
 	// Find tiles the query touches.
 	minx, miny := q.nav.CalcTileLoc(bmin)
 	maxx, maxy := q.nav.CalcTileLoc(bmax)
-- 
2.43.0


From dbe397f3e40924e2ca46d58694f6d36fd1551451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:09 +0000
Subject: [PATCH 63/64] fix: tilemesh: a position below the grid belongs to no
 tile of its first row or column

TilePos, BuildTile and RemoveTile truncated the tile coordinates of a position
towards zero, so that removing a tile next to the grid removed the first tile
of the row or column instead.
---
 sample/tilemesh/builder.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index ef78ec9..27145ed 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -547,8 +547,7 @@ func (tm *TileMesh) BuildTile(pos d3.Vec3) {
 	bmax := tm.geom.NavMeshBoundsMax()
 
 	ts := tm.settings.TileSize * tm.settings.CellSize
-	tx := int32((pos[0] - bmin[0]) / ts)
-	ty := int32((pos[2] - bmin[2]) / ts)
+	tx, ty := tm.TilePos(pos)
 
 	tm.lastBuiltTileBMin[0] = bmin[0] + float32(tx)*ts
 	tm.lastBuiltTileBMin[1] = bmin[1]
@@ -581,7 +580,7 @@ func (tm *TileMesh) TilePos(pos d3.Vec3) (x, y int32) {
 	bmin := tm.geom.NavMeshBoundsMin()
 
 	ts := tm.settings.TileSize * tm.settings.CellSize
-	return int32((pos[0] - bmin[0]) / ts), int32((pos[2] - bmin[2]) / ts)
+	return int32(math32.Floor((pos[0] - bmin[0]) / ts)), int32(math32.Floor((pos[2] - bmin[2]) / ts))
 }
 
 func (tm *TileMesh) RemoveTile(pos d3.Vec3) {
@@ -589,8 +588,7 @@ func (tm *TileMesh) RemoveTile(pos d3.Vec3) {
 	bmax := tm.geom.NavMeshBoundsMax()
 
 	ts := tm.settings.TileSize * tm.settings.CellSize
-	tx := int32((pos[0] - bmin[0]) / ts)
-	ty := int32((pos[2] - bmin[2]) / ts)
+	tx, ty := tm.TilePos(pos)
 
 	tm.lastBuiltTileBMin[0] = bmin[0] + float32(tx)*ts
 	tm.lastBuiltTileBMin[1] = bmin[1]
-- 
2.43.0


From d339343ed68535a5340a6d3abb03b48a145ba04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:49 +0000
Subject: [PATCH 64/64] fix: nodepool: a node keeps no position of an earlier
 search

---
 detour/node.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/detour/node.go b/detour/node.go
index dfae4a8..f938a3d 100644
--- a/detour/node.go
+++ b/detour/node.go
@@ -146,6 +146,7 @@ func (np *NodePool) Node(id PolyRef, state uint8) *Node {
 
 	// Init node
 	node = &np.nodes[i]
+	node.Pos[0], node.Pos[1], node.Pos[2] = 0, 0, 0
 	node.PIdx = 0
 	node.Cost = 0
 	node.Total = 0
-- 
2.43.0

