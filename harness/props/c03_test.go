package props

import (
	"fmt"
	"math"
	"reflect"
	"testing"

	"github.com/arl/go-detour/detour"

	"verif/harness/gen"
	"verif/harness/hx"
)

// checkBV walks the tree of a tile and checks it against the polygons.
func checkBV(c *hx.Case, t *detour.MeshTile, pts func(poly int) []v64) {
	cs := 1 / float64(t.Header.BvQuantFactor)
	org := to64(t.Header.BMin[:])
	seen := map[int32]int{}
	n := 0
	var walk func(i int) ([]v64, int)
	walk = func(i int) ([]v64, int) { // points below, index after the subtree
		if i >= len(t.BvTree) {
			c.Fatalf("spatial index: node %d of %d", i, len(t.BvTree))
		}
		n++
		nd := t.BvTree[i]
		var ps []v64
		end := i + 1
		if nd.I >= 0 {
			seen[nd.I]++
			if int(nd.I) >= int(t.Header.OffMeshBase) {
				c.Fatalf("spatial index: leaf for polygon %d of %d", nd.I, t.Header.OffMeshBase)
			}
			ps = pts(int(nd.I))
		} else {
			var a, b []v64
			a, end = walk(i + 1)
			b, end = walk(end)
			ps = append(append(ps, a...), b...)
			if end != i+int(-nd.I) {
				c.Fatalf("spatial index: node %d escapes to %d, its subtree ends at %d", i, i+int(-nd.I), end)
			}
		}
		for _, p := range ps {
			for k := 0; k < 3; k++ {
				u := (p[k] - org[k]) / cs
				if u < float64(nd.BMin[k])-0.01 || u > float64(nd.BMax[k])+1.01 {
					c.Fatalf("spatial index: node %d [%v %v] does not enclose coordinate %d of %v (%g)", i, nd.BMin, nd.BMax, k, p, u)
				}
			}
		}
		return ps, end
	}
	walk(0)
	for i := int32(0); i < t.Header.OffMeshBase; i++ {
		if seen[i] != 1 {
			c.Fatalf("spatial index: polygon %d has %d leaves", i, seen[i])
		}
	}
	_ = n
}

func near(a, b float32) bool {
	return math.Abs(float64(a)-float64(b)) <= 1e-5*(1+math.Abs(float64(a))+math.Abs(float64(b)))
}

// checkTileContent compares a loaded tile with its description.
func checkTileContent(c *hx.Case, p *detour.NavMeshCreateParams, t *detour.MeshTile, conOK func(i int) (stored, sure bool)) {
	h := t.Header
	if h.X != p.TileX || h.Y != p.TileY || h.Layer != p.TileLayer || h.UserID != p.UserID || h.BMin != p.BMin || h.BMax != p.BMax ||
		h.WalkableHeight != p.WalkableHeight || h.WalkableRadius != p.WalkableRadius || h.WalkableClimb != p.WalkableClimb {
		c.Fatalf("header %+v does not match the description", *h)
	}
	nv := int(p.VertCount)
	if len(t.Verts) < 3*nv {
		c.Fatalf("%d vertex coordinates for %d vertices", len(t.Verts), nv)
	}
	s := [3]float32{p.Cs, p.Ch, p.Cs}
	for i := 0; i < nv; i++ {
		for k := 0; k < 3; k++ {
			if want := p.BMin[k] + float32(p.Verts[3*i+k])*s[k]; !near(t.Verts[3*i+k], want) {
				c.Fatalf("vertex %d coordinate %d is %g, want %g", i, k, t.Verts[3*i+k], want)
			}
		}
	}
	if int(h.OffMeshBase) != int(p.PolyCount) || int(h.PolyCount) != len(t.Polys) || int(h.VertCount)*3 != len(t.Verts) {
		c.Fatalf("counts of %+v", *h)
	}
	nvp := int(p.Nvp)
	hasDetail := p.DetailMeshes != nil
	if len(t.DetailMeshes) != int(p.PolyCount) {
		c.Fatalf("%d detail meshes for %d polygons", len(t.DetailMeshes), p.PolyCount)
	}
	for i := 0; i < int(p.PolyCount); i++ {
		row := p.Polys[i*2*nvp : (i+1)*2*nvp]
		po := &t.Polys[i]
		if po.Flags != p.PolyFlags[i] || po.Area() != p.PolyAreas[i] || po.Type() != 0 {
			c.Fatalf("polygon %d: flags %x area %d type %d, want %x %d 0", i, po.Flags, po.Area(), po.Type(), p.PolyFlags[i], p.PolyAreas[i])
		}
		n := 0
		for ; n < nvp && row[n] != 0xffff; n++ {
			if n >= int(po.VertCount) || po.Verts[n] != row[n] {
				c.Fatalf("polygon %d has vertices %v (%d), want %v", i, po.Verts, po.VertCount, row[:nvp])
			}
			want := row[nvp+n] + 1
			if row[nvp+n]&0x8000 != 0 {
				switch row[nvp+n] & 0xf {
				case 0xf:
					want = 0
				case 0:
					want = 0x8004
				case 1:
					want = 0x8002
				case 2:
					want = 0x8000
				case 3:
					want = 0x8006
				}
			}
			if po.Neis[n] != want {
				c.Fatalf("polygon %d edge %d: neighbour %x, want %x", i, n, po.Neis[n], want)
			}
		}
		if int(po.VertCount) != n {
			c.Fatalf("polygon %d has %d vertices, want %d", i, po.VertCount, n)
		}
		// detail triangles as coordinates
		dm := t.DetailMeshes[i]
		var got, want [][3]v64
		gotArea := 0.0
		for k := 0; k < int(dm.TriCount); k++ {
			var tri [3]v64
			for j := 0; j < 3; j++ {
				ix := int(t.DetailTris[4*(int(dm.TriBase)+k)+j])
				switch {
				case ix < n:
					tri[j] = to64(t.Verts[3*int(po.Verts[ix]):])
				case ix-n < int(dm.VertCount):
					tri[j] = to64(t.DetailVerts[3*(int(dm.VertBase)+ix-n):])
				default:
					c.Fatalf("polygon %d detail triangle %d: vertex %d of %d+%d", i, k, ix, n, dm.VertCount)
				}
			}
			gotArea += math.Abs(cross2D(tri[0], tri[1], tri[2])) / 2
			got = append(got, tri)
		}
		if hasDetail {
			vb, tb, tn := int(p.DetailMeshes[4*i]), int(p.DetailMeshes[4*i+2]), int(p.DetailMeshes[4*i+3])
			for k := 0; k < tn; k++ {
				var tri [3]v64
				for j := 0; j < 3; j++ {
					tri[j] = to64(p.DetailVerts[3*(vb+int(p.DetailTris[4*(tb+k)+j])):])
				}
				want = append(want, tri)
				if k < int(dm.TriCount) {
					if f := t.DetailTris[4*(int(dm.TriBase)+k)+3]; f != p.DetailTris[4*(tb+k)+3] {
						c.Fatalf("polygon %d detail triangle %d: edge flags %x, want %x", i, k, f, p.DetailTris[4*(tb+k)+3])
					}
				}
			}
			if len(got) != len(want) {
				c.Fatalf("polygon %d has %d detail triangles, want %d", i, len(got), len(want))
			}
			for k := range got {
				for j := 0; j < 3; j++ {
					for x := 0; x < 3; x++ {
						if !near(float32(got[k][j][x]), float32(want[k][j][x])) {
							c.Fatalf("polygon %d detail triangle %d: %v, want %v", i, k, got[k], want[k])
						}
					}
				}
			}
		} else {
			vs := vertsOf(t, po)
			area := 0.0
			for k := 2; k < n; k++ {
				area += cross2D(vs[0], vs[k-1], vs[k]) / 2
			}
			if len(got) != n-2 || math.Abs(gotArea-math.Abs(area)) > 1e-3*(1e-3+math.Abs(area)) {
				c.Fatalf("polygon %d (%d vertices, area %g): %d detail triangles of area %g", i, n, area, len(got), gotArea)
			}
			// the flags tell which edges of a triangle lie on the border of the polygon
			for k := 0; k < int(dm.TriCount); k++ {
				tri := t.DetailTris[4*(int(dm.TriBase)+k):][:4]
				for e := 0; e < 3; e++ {
					a, b := int(tri[e]), int(tri[(e+1)%3])
					border := (a+1)%n == b || (b+1)%n == a
					if border != (tri[3]>>(2*e)&3 == 1) {
						c.Fatalf("polygon %d of %d vertices: detail triangle %v has edge flags %#x, edge %d from %d to %d on the border: %v", i, n, tri[:3], tri[3], e, a, b, border)
					}
				}
			}
		}
	}
	// off-mesh connections
	var stored []int
	for i := 0; i < int(p.OffMeshConCount); i++ {
		ok, sure := conOK(i)
		if !sure {
			c.Label("connection start too close to the tile border to tell")
			return
		}
		if ok {
			stored = append(stored, i)
		}
	}
	if len(t.OffMeshCons) != len(stored) || len(t.Polys) != int(p.PolyCount)+len(stored) || int(h.OffMeshConCount) != len(stored) {
		c.Fatalf("%d off-mesh connections, %d polygons; want %d and %d", len(t.OffMeshCons), len(t.Polys), len(stored), int(p.PolyCount)+len(stored))
	}
	usedVerts := map[uint16]bool{}
	for k, i := range stored {
		con := &t.OffMeshCons[k]
		for x := 0; x < 6; x++ {
			if con.Pos[x] != p.OffMeshConVerts[6*i+x] {
				c.Fatalf("connection %d: positions %v, want %v", i, con.Pos, p.OffMeshConVerts[6*i:6*i+6])
			}
		}
		uid := uint32(0)
		if len(p.OffMeshConUserID) > 0 {
			uid = p.OffMeshConUserID[i]
		}
		if con.Rad != p.OffMeshConRad[i] || con.UserID != uid || (con.Flags&1 != 0) != (p.OffMeshConDir[i] != 0) || int(con.Poly) != int(p.PolyCount)+k {
			c.Fatalf("connection %d: %+v", i, *con)
		}
		po := &t.Polys[con.Poly]
		if po.Type() != offMesh || po.Area() != p.OffMeshConAreas[i] || po.Flags != p.OffMeshConFlags[i] || po.VertCount != 2 {
			c.Fatalf("connection %d: polygon %+v", i, *po)
		}
		for _, v := range po.Verts[:2] {
			if int(v) < nv || int(v)*3+3 > len(t.Verts) || usedVerts[v] {
				c.Fatalf("connection %d: vertex index %d (%d mesh vertices)", i, v, nv)
			}
			usedVerts[v] = true
		}
		b := p.OffMeshConVerts[6*i+3:]
		if side, sure := sideOf(b, p.BMin, p.BMax); sure && con.Side != side {
			c.Fatalf("connection %d: end %v lies to side %d of the tile, stored %d", i, b[:3], side, con.Side)
		}
	}
	if p.BuildBvTree {
		checkBV(c, t, func(i int) []v64 {
			ps := vertsOf(t, &t.Polys[i])
			if hasDetail {
				dm := t.DetailMeshes[i]
				for k := 0; k < int(dm.VertCount); k++ {
					ps = append(ps, to64(t.DetailVerts[3*(int(dm.VertBase)+k):]))
				}
			}
			return ps
		})
	} else if len(t.BvTree) != 0 {
		c.Fatalf("a spatial index nobody asked for")
	}
}

// sideOf: the side of the tile a point is on (0 x+, 1 x+z+, 2 z+, ... 0xff inside).
func sideOf(p []float32, bmin, bmax [3]float32) (uint8, bool) {
	const eps = 1e-3
	for _, k := range []int{0, 2} {
		for _, b := range []float32{bmin[k], bmax[k]} {
			if d := p[k] - b; d > -eps && d < eps {
				return 0, false
			}
		}
	}
	xp, xm, zp, zm := p[0] > bmax[0], p[0] < bmin[0], p[2] > bmax[2], p[2] < bmin[2]
	switch {
	case xp && zp:
		return 1, true
	case xp && zm:
		return 7, true
	case xp:
		return 0, true
	case xm && zp:
		return 3, true
	case xm && zm:
		return 5, true
	case xm:
		return 4, true
	case zp:
		return 2, true
	case zm:
		return 6, true
	}
	return 0xff, true
}

func conStored(p *detour.NavMeshCreateParams) func(i int) (bool, bool) {
	lo, hi := math.Inf(1), math.Inf(-1)
	if len(p.DetailVerts) > 0 {
		for i := 1; i < len(p.DetailVerts); i += 3 {
			lo, hi = math.Min(lo, float64(p.DetailVerts[i])), math.Max(hi, float64(p.DetailVerts[i]))
		}
	} else {
		for i := 0; i < int(p.VertCount); i++ {
			y := float64(p.BMin[1]) + float64(p.Verts[3*i+1])*float64(p.Ch)
			lo, hi = math.Min(lo, y), math.Max(hi, y)
		}
	}
	lo -= float64(p.WalkableClimb)
	hi += float64(p.WalkableClimb)
	return func(i int) (bool, bool) {
		a := p.OffMeshConVerts[6*i : 6*i+3]
		s, sure := sideOf(a, p.BMin, p.BMax)
		y := float64(a[1])
		if !sure || math.Abs(y-lo) < 1e-3 || math.Abs(y-hi) < 1e-3 {
			return false, false
		}
		return s == 0xff && y > lo && y < hi, true
	}
}

func TestC03(t *testing.T) {
	hx.Run(t, "tile", "a generated tile with at least two polygons", 40000, 1000000, func(c *hx.Case) {
		r := gen.New(c.T)
		w := gen.NewWorld(r, gen.Opts{MaxNx: 2, MaxNy: 2, MaxCells: 6, Cons: true, NegTiles: true})
		ti := w.Tiles[r.U(0, len(w.Tiles)-1)]
		p := w.Params(ti)
		// more connections, some of which do not start in this tile
		for k := r.Int("morecons", 0, 4); k > 0; k-- {
			var pos [6]float32
			for e := 0; e < 2; e++ {
				for x := 0; x < 3; x++ {
					d := ti.BMax[x] - ti.BMin[x] + 1
					m := gen.Any(r, float32(0), 0, 0.3, 1)
					pos[3*e+x] = r.F(ti.BMin[x]-m*d, ti.BMax[x]+m*d)
				}
			}
			p.OffMeshConCount++
			p.OffMeshConVerts = append(p.OffMeshConVerts, pos[:]...)
			p.OffMeshConRad = append(p.OffMeshConRad, r.F(0.1, 2))
			p.OffMeshConFlags = append(p.OffMeshConFlags, uint16(r.U(0, 0xffff)))
			p.OffMeshConAreas = append(p.OffMeshConAreas, uint8(r.U(0, 63)))
			p.OffMeshConDir = append(p.OffMeshConDir, uint8(r.U(0, 1)))
			p.OffMeshConUserID = append(p.OffMeshConUserID, uint32(r.U(0, 1<<32-1)))
		}
		if r.P(0.2) {
			p.OffMeshConUserID = nil
		}
		keep := *p
		keep.Verts = append([]uint16{}, p.Verts...)
		keep.Polys = append([]uint16{}, p.Polys...)
		keep.DetailVerts = append([]float32(nil), p.DetailVerts...)
		keep.DetailTris = append([]uint8(nil), p.DetailTris...)
		keep.DetailMeshes = append([]int32(nil), p.DetailMeshes...)
		keep.OffMeshConVerts = append([]float32(nil), p.OffMeshConVerts...)
		d, err := detour.CreateNavMeshData(p)
		if err != nil {
			c.Fatalf("valid description rejected: %v", err)
		}
		if !reflect.DeepEqual(keep.Verts, p.Verts) || !reflect.DeepEqual(keep.Polys, p.Polys) || !reflect.DeepEqual(keep.DetailVerts, p.DetailVerts) ||
			!reflect.DeepEqual(keep.DetailTris, p.DetailTris) || !reflect.DeepEqual(keep.DetailMeshes, p.DetailMeshes) || !reflect.DeepEqual(keep.OffMeshConVerts, p.OffMeshConVerts) {
			c.Fatalf("CreateNavMeshData changes its input")
		}
		d2, err := detour.CreateNavMeshData(p)
		if err != nil || string(d) != string(d2) {
			c.Fatalf("CreateNavMeshData is not deterministic")
		}
		if len(ti.Polys) > 1 {
			c.Nontrivial(w.Describe(), p.OffMeshConCount, p.BuildBvTree)
		}
		c.LabelIf(p.OffMeshConCount > 0, "connections")
		c.LabelIf(p.BuildBvTree, "spatial index")
		c.LabelIf(p.DetailMeshes != nil, "detail mesh")
		c.LabelIf(!p.BuildBvTree && p.DetailMeshes == nil, "neither")
		c.Sample("tile with %d polygons, %d connections, bv=%v, detail=%v of %s", p.PolyCount, p.OffMeshConCount, p.BuildBvTree, p.DetailMeshes != nil, w.Describe())
		m := &detour.NavMesh{}
		if r.P(0.5) {
			flags := gen.Any(r, 0, 1, 2, r.U(0, 1<<30))
			if st := m.InitForSingleTile(d, flags); detour.StatusFailed(st) {
				c.Fatalf("InitForSingleTile: %x", uint32(st))
			}
			if got := m.Tiles[0].Flags; int(got) != flags {
				c.Fatalf("a single tile mesh made with tile flags %#x has %#x", flags, got)
			}
		} else {
			np := w.NavParams()
			np.MaxPolys = uint32(len(ti.Polys) + 16)
			if st := m.Init(np); detour.StatusFailed(st) {
				c.Fatalf("Init: %x", uint32(st))
			}
			if st, _ := m.AddTile(d, 0); detour.StatusFailed(st) {
				c.Fatalf("AddTile: %x", uint32(st))
			}
		}
		checkTileContent(c, p, &m.Tiles[0], conStored(p))
	})

	hx.Run(t, "large", "a tile with more than 21845 vertices", 80, 800, func(c *hx.Case) {
		r := gen.New(c.T)
		nx, nz := 2*r.U(74, 126), r.U(150, 255)
		p := &detour.NavMeshCreateParams{Nvp: 6, Cs: 0.5, Ch: 0.25, WalkableClimb: 1, WalkableHeight: 2, WalkableRadius: 0.5, BuildBvTree: r.Bool("bv")}
		p.BMax = [3]float32{float32(nx) * 0.5, 10, float32(nz) * 0.5}
		for z := 0; z <= nz; z++ {
			for x := 0; x <= nx; x++ {
				p.Verts = append(p.Verts, uint16(x), uint16(r.U(0, 20)), uint16(z))
			}
		}
		p.VertCount = int32(len(p.Verts) / 3)
		w := nx / 2
		for z := 0; z < nz; z++ {
			for x := 0; x < w; x++ {
				v := func(i, j int) uint16 { return uint16((z+j)*(nx+1) + 2*x + i) }
				nei := func(dx, dz int) uint16 {
					if x+dx < 0 || x+dx >= w || z+dz < 0 || z+dz >= nz {
						return 0x800f
					}
					return uint16((z+dz)*w + x + dx)
				}
				p.Polys = append(p.Polys, v(0, 0), v(0, 1), v(1, 1), v(2, 1), v(2, 0), v(1, 0))
				p.Polys = append(p.Polys, nei(-1, 0), nei(0, 1), nei(0, 1), nei(1, 0), nei(0, -1), nei(0, -1))
				p.PolyAreas = append(p.PolyAreas, uint8(r.U(0, 63)))
				p.PolyFlags = append(p.PolyFlags, uint16(r.U(0, 0xffff)))
			}
		}
		p.PolyCount = int32(len(p.PolyAreas))
		c.Nontrivial(p.VertCount, p.PolyCount)
		c.Sample("%d vertices, %d polygons", p.VertCount, p.PolyCount)
		d, err := detour.CreateNavMeshData(p)
		if p.VertCount >= 0xffff {
			if err == nil {
				c.Fatalf("%d vertices accepted", p.VertCount)
			}
			return
		}
		if err != nil {
			c.Fatalf("valid description rejected: %v", err)
		}
		m := &detour.NavMesh{}
		if st := m.InitForSingleTile(d, 0); detour.StatusFailed(st) {
			c.Fatalf("InitForSingleTile: %x", uint32(st))
		}
		checkTileContent(c, p, &m.Tiles[0], conStored(p))
	})

	hx.Run(t, "border", "a connection starting exactly on a border between two tiles", 6000, 200000, func(c *hx.Case) {
		// Every tile is given all the connections: exactly the tile in which one starts stores it.
		r := gen.New(c.T)
		w := gen.NewWorld(r, gen.Opts{MaxNx: 3, MaxNy: 3, MaxCells: 2, NegTiles: true, NoFloors: true, NoLayers: true, Flat: true, Dense: true})
		var cons []gen.OffCon
		shared := 0
		for n := r.U(1, 6); n > 0; n-- {
			t := w.Tiles[r.U(0, len(w.Tiles)-1)]
			con := gen.OffCon{Rad: 0.5, Flags: 1, Area: 5, UserID: uint32(len(cons) + 1), Bidir: r.P(0.5)}
			con.A[1] = w.Orig[1]
			on := false
			for _, k := range []int{0, 2} {
				switch r.U(0, 3) {
				case 0:
					con.A[k], on = t.BMin[k], true
				case 1:
					con.A[k], on = t.BMax[k], true
				default:
					con.A[k] = t.BMin[k] + (t.BMax[k]-t.BMin[k])*r.F(0.05, 0.95)
				}
			}
			con.B = w.RandPoint(r, 0)
			in := 0
			for _, u := range w.Tiles {
				if con.A[0] >= u.BMin[0] && con.A[0] <= u.BMax[0] && con.A[2] >= u.BMin[2] && con.A[2] <= u.BMax[2] {
					in++
				}
			}
			if on && in > 1 {
				shared++
			}
			cons = append(cons, con)
		}
		for _, t := range w.Tiles {
			t.Cons = cons
			d, err := w.Data(t)
			if err != nil {
				c.Fatalf("valid description rejected: %v", err)
			}
			m := &detour.NavMesh{}
			if st := m.InitForSingleTile(d, 0); detour.StatusFailed(st) {
				c.Fatalf("InitForSingleTile: %x", uint32(st))
			}
			var got, want []uint32
			for _, oc := range m.Tiles[0].OffMeshCons {
				got = append(got, oc.UserID)
			}
			for _, con := range cons {
				a := con.A
				if a[0] >= t.BMin[0] && a[0] < t.BMax[0] && a[2] >= t.BMin[2] && a[2] < t.BMax[2] {
					want = append(want, con.UserID)
				}
			}
			if !reflect.DeepEqual(got, want) {
				c.Fatalf("the tile from %v to %v stores the connections %v, those which start in it are %v of %v", t.BMin, t.BMax, got, want, cons)
			}
		}
		if shared > 0 {
			c.Nontrivial(w.Describe(), cons)
		}
		c.Sample("%d connections, %d of which start on a border between tiles of %s", len(cons), shared, w.Describe())
	})

	hx.Run(t, "invalid", "a description broken in one of the documented ways", 4000, 40000, func(c *hx.Case) {
		r := gen.New(c.T)
		w := gen.NewWorld(r, gen.Opts{})
		p := w.Params(w.Tiles[0])
		what := ""
		switch r.Int("kind", 0, 6) {
		case 0:
			p.Nvp = int32(r.U(7, 64))
			what = fmt.Sprintf("nvp %d", p.Nvp)
			p.Polys = make([]uint16, 2*int(p.Nvp)*int(p.PolyCount))
		case 1:
			p.VertCount = int32(gen.Any(r, 0xffff, 0xffff, 0x10000, r.U(0xffff, 0x20000)))
			p.Verts = make([]uint16, 3*p.VertCount)
			what = fmt.Sprintf("%d vertices", p.VertCount)
		case 2:
			p.VertCount = 0
			what = "vertex count 0"
		case 3:
			p.Verts = nil
			what = "no vertices"
		case 4:
			p.PolyCount = 0
			what = "polygon count 0"
		case 5:
			p.Polys = nil
			what = "no polygons"
		default:
			*p = detour.NavMeshCreateParams{}
			what = "nothing"
		}
		c.Nontrivial(what, w.Describe())
		c.Sample("%s", what)
		if d, err := detour.CreateNavMeshData(p); err == nil || len(d) != 0 {
			c.Fatalf("description with %s accepted", what)
		}
	})
}
