package props

import (
	"bytes"
	"math"
	"strings"
	"testing"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample"
	"github.com/arl/go-detour/sample/solomesh"

	"verif/harness/gen"
	"verif/harness/hx"
)

// soloBuild builds a scene as a single tile.
func soloBuild(c *hx.Case, s *bscene) (*solomesh.SoloMesh, *detour.NavMesh, bool) {
	b := solomesh.New(recast.NewBuildContext(true))
	b.SetSettings(s.set)
	if err := b.LoadGeometry(strings.NewReader(s.text)); err != nil {
		c.Fatalf("LoadGeometry: %v", err)
	}
	s.addVolumes(b.InputGeom())
	m, ok := b.Build()
	if !ok && m != nil {
		c.Fatalf("a failed build returns a mesh")
	}
	if ok && m == nil {
		c.Fatalf("a successful build returns no mesh")
	}
	return b, m, ok
}

// badSettings makes a setting unusable.
func badSettings(r *gen.R, set *recast.BuildSettings, tiles bool) {
	nan := float32(math.NaN())
	k := r.U(0, 2)
	if tiles {
		k = r.U(0, 3)
	}
	switch k {
	case 0:
		set.CellSize = gen.Any(r, 0, -r.F(0, 2), nan)
	case 1:
		set.CellHeight = gen.Any(r, 0, -r.F(0, 2), nan)
	case 2:
		set.VertsPerPoly = gen.Any(r, 0, 1, 2, -r.F(0, 9), nan)
	case 3:
		set.TileSize = gen.Any(r, 0, -r.F(0, 99), r.F(0, 0.99), nan)
	}
}

// reload checks that a mesh survives saving and loading and returns the copy.
func reload(c *hx.Case, m *detour.NavMesh) *detour.NavMesh {
	data := save(c, m)
	m2, err := detour.Decode(bytes.NewReader(data))
	if err != nil {
		c.Fatalf("a built mesh does not load: %v", err)
	}
	if !bytes.Equal(save(c, m2), data) {
		c.Fatalf("a built mesh changes when saved and loaded")
	}
	return m2
}

func TestC30(t *testing.T) {
	hx.Run(t, "scenes", "open ground was found and covered, in a scene with at least one obstacle", 20000, 500000, func(c *hx.Case) {
		r := gen.New(c.T)
		s := randBScene(r)
		_, m, ok := soloBuild(c, s)
		if !ok {
			if ps, _ := s.openPoints(r, 50); len(ps) > 0 {
				c.Fatalf("build fails although the ground at %v is open\n%v", ps[0], s)
			}
			c.Label("failed")
			return
		}
		m = reload(c, m)
		n := s.checkCover(c, r, m, 40)
		s.checkSound(c, r, m, 60)
		c.LabelIf(s.flat, "flat")
		if n > 0 && len(s.quads)+len(s.ramps) > 1 {
			c.Nontrivial(s.text, s.set)
		}
		c.Sample("%v: %d polygons, %d open points", s, len(allPolys(m, false)), n)
	})

	hx.Run(t, "same", "a build of at least 10 polygons", 3000, 60000, func(c *hx.Case) {
		r := gen.New(c.T)
		s := randBScene(r)
		b, m, ok := soloBuild(c, s)
		_, m2, ok2 := soloBuild(c, s)
		if ok != ok2 {
			c.Fatalf("two builds of the same geometry: %v and %v\n%v", ok, ok2, s)
		}
		if !ok {
			return
		}
		data := save(c, m)
		if !bytes.Equal(data, save(c, m2)) {
			c.Fatalf("two builds of the same geometry differ\n%v", s)
		}
		// another geometry and back, or the same again
		if r.P(0.5) {
			s2 := randBScene(r)
			b.SetSettings(s2.set)
			if err := b.LoadGeometry(strings.NewReader(s2.text)); err != nil {
				c.Fatalf("LoadGeometry: %v", err)
			}
			s2.addVolumes(b.InputGeom())
			m3, ok3 := b.Build()
			_, m4, ok4 := soloBuild(c, s2)
			if ok3 != ok4 || ok3 && !bytes.Equal(save(c, m3), save(c, m4)) {
				c.Fatalf("a builder used before builds something else than a new one\n%v", s2)
			}
			b.SetSettings(s.set)
			if err := b.LoadGeometry(strings.NewReader(s.text)); err != nil {
				c.Fatalf("LoadGeometry: %v", err)
			}
			s.addVolumes(b.InputGeom())
		}
		m3, ok3 := b.Build()
		if !ok3 || !bytes.Equal(data, save(c, m3)) {
			c.Fatalf("building again with the same builder gives something else\n%v", s)
		}
		if !bytes.Equal(data, save(c, m)) {
			c.Fatalf("building again changes the mesh built before\n%v", s)
		}
		if n := len(allPolys(m, false)); n >= 10 {
			c.Nontrivial(s.text, s.set)
			c.Sample("%d polygons, %d bytes: %v", n, len(data), s)
		}
	})

	hx.Run(t, "passage", "the two sides are surely connected or surely not, and both are there", 20000, 500000, func(c *hx.Case) {
		r := gen.New(c.T)
		s, p := passageScene(r)
		_, m, ok := soloBuild(c, s)
		p.check(c, r, s, m, ok)
	})

	hx.Run(t, "stages", "the stages give a mesh of at least 10 polygons", 3000, 60000, func(c *hx.Case) {
		r := gen.New(c.T)
		s := randBScene(r)
		_, m, ok := soloBuild(c, s)
		data := stages(c, s, nil, nil)
		if ok != (data != nil) {
			c.Fatalf("the build gives %v, its stages one by one %v\n%v", ok, data != nil, s)
		}
		if !ok {
			return
		}
		var m2 detour.NavMesh
		if st := m2.InitForSingleTile(data, 0); detour.StatusFailed(st) {
			c.Fatalf("InitForSingleTile: %x", st)
		}
		if !bytes.Equal(save(c, m), save(c, &m2)) {
			c.Fatalf("the build differs from its stages one by one: %s\n%v", diffSnap(snapMesh(c, m), snapMesh(c, &m2)), s)
		}
		if n := len(allPolys(m, false)); n >= 10 {
			c.Nontrivial(s.text, s.set)
			c.Sample("%d polygons: %v", n, s)
		}
	})

	hx.Run(t, "refused", "a build that cannot succeed", 3000, 60000, func(c *hx.Case) {
		r := gen.New(c.T)
		b := solomesh.New(recast.NewBuildContext(r.Bool("log")))
		s := randBScene(r)
		b.SetSettings(s.set)
		why := gen.Pick(r, "why", "nothing loaded", "bad geometry", "vertices", "settings", "steep", "low", "small")
		text := s.text
		switch why {
		case "bad geometry":
			if r.P(0.5) { // after a good one
				b.LoadGeometry(strings.NewReader(text))
			}
			if b.LoadGeometry(strings.NewReader(gen.Any(r, "", "v 1 2\n", "f 1 2 3\n", text+"f 1 2 9999999\n"))) == nil {
				c.Fatalf("bad geometry is accepted")
			}
			text = ""
		case "nothing loaded":
			text = ""
		case "settings":
			badSettings(r, &s.set, false)
		case "vertices":
			s.set.VertsPerPoly = float32(r.U(int(detour.VertsPerPolygon)+1, 20))
		case "steep":
			s2 := newBScene(s.set)
			for i := r.U(1, 5); i > 0; i-- {
				l := float64(r.F(1, 10))
				x := float64(i) * 10
				s2.ramp(bramp{bquad: bquad{x, 0, x + l, 9, 0}, y1: l * math.Tan(float64(r.F(s.set.AgentMaxSlope+2, 80))*math.Pi/180)})
			}
			s2.finish(r)
			text = s2.text
			s.set.AgentMaxClimb = 0.5 * s.set.CellHeight
		case "low": // a cellar
			s.set.AgentHeight = max(s.set.AgentHeight, 14*s.set.CellHeight)
			s2 := newBScene(s.set)
			w := float64(r.F(1, 10))
			s2.ground(bquad{0, 0, w, w, 0}, 1, 1)
			lid := float64(r.F(float32(s2.climb+3*s.ch), float32(s2.height-3*s.ch)))
			s2.quad(v64{w + 1, lid, -1}, v64{w + 1, lid, w + 1}, v64{-1, lid, w + 1}, v64{-1, lid, -1})
			s2.finish(r)
			text = s2.text
		case "small": // smaller than the agent
			s2 := newBScene(s.set)
			w := float64(r.F(0.1, 0.9)) * 2 * math.Max(float64(s.set.AgentRadius)*0.9, s.cs*0.9)
			s2.ground(bquad{0, 0, w, 9, 0}, 1, 1)
			s2.finish(r)
			text = s2.text
		}
		b.SetSettings(s.set)
		if text != "" {
			if err := b.LoadGeometry(strings.NewReader(text)); err != nil {
				c.Fatalf("LoadGeometry: %v", err)
			}
		}
		if m, ok := b.Build(); ok || m != nil {
			n := -1
			if m != nil {
				n = len(allPolys(m, false))
			}
			c.Fatalf("building (%s) gives a mesh of %d polygons\n%v\n%s", why, n, s, short(text))
		}
		c.Label(why)
		c.Nontrivial(why, s.set, text)
	})
}

// stages builds the tile of a scene with the functions of package recast and
// package detour as their documentation tells.
func stages(c *hx.Case, s *bscene, tile *[2]int32, look func(*recast.CompactHeightfield, *recast.ContourSet)) []byte {
	b := s.set
	ctx := recast.NewBuildContext(false)
	var ig recast.InputGeom
	if err := ig.LoadOBJMesh(strings.NewReader(s.text)); err != nil {
		c.Fatalf("LoadOBJMesh: %v", err)
	}
	s.addVolumes(&ig)
	vx := func(v, unit float32, f func(float64) float64) int32 { return int32(f(float64(v / unit))) }
	height, climb := vx(b.AgentHeight, b.CellHeight, math.Ceil), vx(b.AgentMaxClimb, b.CellHeight, math.Floor)
	radius := vx(b.AgentRadius, b.CellSize, math.Ceil)
	bmin := append([]float32{}, ig.NavMeshBoundsMin()...)
	bmax := append([]float32{}, ig.NavMeshBoundsMax()...)
	var w, h, border int32
	if tile != nil {
		border = radius + 3
		ts := b.TileSize * b.CellSize
		x0, z0 := bmin[0], bmin[2]
		bmin[0], bmax[0] = x0+float32(tile[0])*ts, x0+float32(tile[0]+1)*ts
		bmin[2], bmax[2] = z0+float32(tile[1])*ts, z0+float32(tile[1]+1)*ts
		for _, k := range []int{0, 2} {
			bmin[k] -= float32(border) * b.CellSize
			bmax[k] += float32(border) * b.CellSize
		}
		w = int32(b.TileSize) + 2*border
		h = w
	} else {
		w, h = recast.CalcGridSize(bmin, bmax, b.CellSize)
	}
	mesh := ig.Mesh()
	hf := recast.NewHeightfield(w, h, bmin, bmax, b.CellSize, b.CellHeight)
	areas := make([]uint8, mesh.TriCount())
	if tile != nil { // in the order of the chunks
		chunky := ig.ChunkyMesh()
		cid := make([]int32, len(chunky.Nodes))
		n := chunky.ChunksOverlappingRect([2]float32{bmin[0], bmin[2]}, [2]float32{bmax[0], bmax[2]}, cid)
		if n == 0 {
			return nil
		}
		for _, i := range cid[:n] {
			node := chunky.Nodes[i]
			tris := chunky.Tris[node.I*3 : (node.I+node.N)*3]
			for k := range areas {
				areas[k] = 0
			}
			recast.MarkWalkableTriangles(ctx, b.AgentMaxSlope, mesh.Verts(), mesh.VertCount(), tris, int32(node.N), areas[:node.N])
			recast.RasterizeTriangles(ctx, mesh.Verts(), mesh.VertCount(), tris, areas, int32(node.N), hf, climb)
		}
	} else {
		recast.MarkWalkableTriangles(ctx, b.AgentMaxSlope, mesh.Verts(), mesh.VertCount(), mesh.Tris(), mesh.TriCount(), areas)
		recast.RasterizeTriangles(ctx, mesh.Verts(), mesh.VertCount(), mesh.Tris(), areas, mesh.TriCount(), hf, climb)
	}
	recast.FilterLowHangingWalkableObstacles(ctx, climb, hf)
	recast.FilterLedgeSpans(ctx, height, climb, hf)
	recast.FilterWalkableLowHeightSpans(ctx, height, hf)
	chf := &recast.CompactHeightfield{}
	recast.BuildCompactHeightfield(ctx, height, climb, hf, chf)
	recast.ErodeWalkableArea(ctx, radius, chf)
	vols := ig.ConvexVolumes()
	for i := 0; i < int(ig.ConvexVolumesCount()); i++ {
		recast.MarkConvexPolyArea(ctx, vols[i].Verts[:], vols[i].NVerts, vols[i].HMin, vols[i].HMax, uint8(vols[i].Area), chf)
	}
	recast.BuildRegionsMonotone(ctx, chf, border, int32(b.RegionMinSize*b.RegionMinSize), int32(b.RegionMergeSize*b.RegionMergeSize))
	cset := &recast.ContourSet{}
	recast.BuildContours(ctx, chf, b.EdgeMaxError, int32(b.EdgeMaxLen/b.CellSize), cset, recast.ContourTessWallEdges)
	if look != nil {
		look(chf, cset)
	}
	if tile != nil && cset.NConts == 0 {
		return nil
	}
	pm, ok := recast.BuildPolyMesh(ctx, cset, int32(b.VertsPerPoly))
	if !ok {
		return nil
	}
	sd := b.DetailSampleDist * b.CellSize
	if b.DetailSampleDist < 0.9 {
		sd = 0
	}
	dm, ok := recast.BuildPolyMeshDetail(ctx, pm, chf, sd, b.DetailSampleMaxError*b.CellHeight)
	if !ok {
		return nil
	}
	for i := range pm.Areas[:pm.NPolys] {
		if pm.Areas[i] == recast.WalkableArea {
			pm.Areas[i] = sample.PolyAreaGround
		}
		pm.Flags[i] = bFlags(pm.Areas[i])
	}
	p := detour.NavMeshCreateParams{
		Verts: pm.Verts, VertCount: pm.NVerts, Polys: pm.Polys, PolyAreas: pm.Areas, PolyFlags: pm.Flags, PolyCount: pm.NPolys, Nvp: pm.Nvp,
		DetailMeshes: dm.Meshes, DetailVerts: dm.Verts, DetailVertsCount: dm.NVerts, DetailTris: dm.Tris, DetailTriCount: dm.NTris,
		WalkableHeight: b.AgentHeight, WalkableRadius: b.AgentRadius, WalkableClimb: b.AgentMaxClimb,
		BMin: pm.BMin, BMax: pm.BMax, Cs: b.CellSize, Ch: b.CellHeight, BuildBvTree: true,
	}
	if tile != nil {
		p.TileX, p.TileY = tile[0], tile[1]
	}
	data, err := detour.CreateNavMeshData(&p)
	if err != nil {
		return nil
	}
	return data
}
