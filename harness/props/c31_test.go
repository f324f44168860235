package props

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"reflect"
	"strings"
	"testing"

	"github.com/arl/gogeo/f32/d3"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/tilemesh"

	"verif/harness/gen"
	"verif/harness/hx"
)

func loadTiled(c *hx.Case, b *tilemesh.TileMesh, s *bscene) {
	b.SetSettings(s.set)
	if err := b.LoadGeometry(strings.NewReader(s.text)); err != nil {
		c.Fatalf("LoadGeometry: %v", err)
	}
	s.addVolumes(b.InputGeom())
}

// tileBuild builds a scene in tiles.
func tileBuild(c *hx.Case, s *bscene) (*tilemesh.TileMesh, *detour.NavMesh) {
	b := tilemesh.New(recast.NewBuildContext(true))
	loadTiled(c, b, s)
	m, ok := b.Build()
	if !ok || m == nil {
		c.Fatalf("the build fails (%v)\n%v", ok, s)
	}
	return b, m
}

// quietly runs f with nothing printed.
func quietly(f func()) {
	old := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		defer func() { os.Stdout = old; null.Close() }()
	}
	f()
}

// grid is the number of tiles a build should have.
func (s *bscene) grid() (tw, th int, bmin, bmax v64) {
	bmin, bmax = v64{math.Inf(1), math.Inf(1), math.Inf(1)}, v64{math.Inf(-1), math.Inf(-1), math.Inf(-1)}
	for i := range s.bt {
		for k := range bmin {
			bmin[k], bmax[k] = math.Min(bmin[k], s.bt[i].lo[k]), math.Max(bmax[k], s.bt[i].hi[k])
		}
	}
	ts := int(s.set.TileSize)
	cells := func(d float64) int { return int(float32(d)/s.set.CellSize + 0.5) }
	return (cells(bmax[0]-bmin[0]) + ts - 1) / ts, (cells(bmax[2]-bmin[2]) + ts - 1) / ts, bmin, bmax
}

// checkGrid checks that every tile is in its cell of the grid.
func (s *bscene) checkGrid(c *hx.Case, m *detour.NavMesh) (n int) {
	tw, th, bmin, bmax := s.grid()
	ts := float64(int(s.set.TileSize)) * s.cs
	seen := map[[2]int32]bool{}
	for i := range m.Tiles {
		h := m.Tiles[i].Header
		if h == nil {
			continue
		}
		n++
		pos := [2]int32{h.X, h.Y}
		if seen[pos] || h.Layer != 0 {
			c.Fatalf("tile %v layer %d: twice or of another layer", pos, h.Layer)
		}
		seen[pos] = true
		if h.X < 0 || h.Y < 0 || int(h.X) > tw || int(h.Y) > th {
			c.Fatalf("tile %v is outside the grid of %dx%d\n%v", pos, tw, th, s)
		}
		lo := v64{bmin[0] + ts*float64(h.X), bmin[1], bmin[2] + ts*float64(h.Y)}
		hi := v64{lo[0] + ts, bmax[1], lo[2] + ts}
		eps := 1e-4*(1+scaleOf(hi)) + 1e-6*ts
		for k := range lo {
			if math.Abs(float64(h.BMin[k])-lo[k]) > eps || math.Abs(float64(h.BMax[k])-hi[k]) > eps+(s.height+3*s.ch)*float64(k%2) {
				c.Fatalf("tile %v has bounds %v..%v, its cell %v..%v\n%v", pos, h.BMin, h.BMax, lo, hi, s)
			}
		}
		for k := 0; k < int(h.VertCount); k++ {
			v := to64(m.Tiles[i].Verts[k*3 : k*3+3])
			if v[0] < lo[0]-eps || v[2] < lo[2]-eps || v[0] > hi[0]+eps || v[2] > hi[2]+eps {
				c.Fatalf("vertex %v of tile %v is outside its cell %v..%v\n%v", v, pos, lo, hi, s)
			}
		}
		if got := m.TileAt(h.X, h.Y, 0); got != &m.Tiles[i] {
			c.Fatalf("TileAt(%v) is not the tile there", pos)
		}
	}
	if p := m.Params; math.Abs(float64(p.TileWidth)-ts) > 1e-4*ts || math.Abs(float64(p.TileHeight)-ts) > 1e-4*ts ||
		to64(p.Orig[:]).dist(bmin) > 1e-4*(1+scaleOf(bmin)) {
		c.Fatalf("parameters %+v, tile size %v, origin %v\n%v", p, ts, bmin, s)
	}
	return n
}

// tileKey names a polygon independently of the slots of the tiles.
type tileKey struct{ x, y, poly int32 }

// tilesOf gives the tiles of a mesh by their place, links with keys.
func tilesOf(c *hx.Case, m *detour.NavMesh) map[[2]int32]string {
	res := map[[2]int32]string{}
	for i := range m.Tiles {
		t := &m.Tiles[i]
		if t.Header == nil {
			continue
		}
		sn := snapTile(c, m, t)
		sn.Ref = 0
		for k := range sn.Polys {
			sn.Polys[k].Links = nil
		}
		res[[2]int32{t.Header.X, t.Header.Y}] = fmt.Sprintf("%+v", *sn)
	}
	return res
}

// linksOf gives the links of a mesh.
func linksOf(c *hx.Case, m *detour.NavMesh) map[tileKey]map[string]bool {
	res := map[tileKey]map[string]bool{}
	key := func(ref detour.PolyRef) tileKey {
		t, _ := polyOf(c, m, ref)
		return tileKey{t.Header.X, t.Header.Y, int32(ref - detour.PolyRef(m.TileRef(t)))}
	}
	for _, ref := range allPolys(m, true) {
		t, p := polyOf(c, m, ref)
		ls := map[string]bool{}
		for _, l := range links(c, t, p) {
			ls[fmt.Sprint(key(l.Ref), l.Edge, l.Side, l.BMin, l.BMax)] = true
		}
		res[key(ref)] = ls
	}
	return res
}

func TestC31(t *testing.T) {
	hx.Run(t, "scenes", "open ground was found and covered in a mesh of at least 4 tiles", 6000, 160000, func(c *hx.Case) {
		r := gen.New(c.T)
		s := randBScene(r)
		_, m := tileBuild(c, s)
		m = reload(c, m)
		tiles := s.checkGrid(c, m)
		n := s.checkCover(c, r, m, 40)
		s.checkSound(c, r, m, 60)
		if n > 0 && tiles >= 4 {
			c.Nontrivial(s.text, s.set)
		}
		c.LabelIf(s.flat, "flat")
		c.LabelIf(tiles > 20, "many-tiles")
		c.Sample("%v: %d tiles, %d polygons, %d open points", s, tiles, len(allPolys(m, false)), n)
	})

	hx.Run(t, "passage", "the two sides are surely connected or surely not, and in different tiles", 6000, 160000, func(c *hx.Case) {
		r := gen.New(c.T)
		s, p := passageScene(r)
		_, m := tileBuild(c, s)
		p.check(c, r, s, m, true)
	})

	hx.Run(t, "single-tile", "flat ground, and the mesh has at least 10 polygons", 3000, 60000, func(c *hx.Case) {
		// agreement with the build of a single tile
		r := gen.New(c.T)
		s := randBScene(r)
		_, solo, ok := soloBuild(c, s)
		_, m := tileBuild(c, s)
		if !ok {
			if n := len(allPolys(m, false)); n != 0 {
				c.Label("only tiles have polygons") // islands at borders stay
			}
			return
		}
		ps, qs := s.openPoints(r, 40)
		if len(ps) < 2 || !s.flat {
			return // where heights differ by about the climb, either is fine
		}
		_, q1 := detour.NewNavMeshQuery(solo, 4096)
		_, q2 := detour.NewNavMeshQuery(m, 4096)
		path := make([]detour.PolyRef, 4096)
		pairs := 0
		for k := 0; k < 10; k++ {
			i, j := r.U(0, len(ps)-1), r.U(0, len(ps)-1)
			var reached [2]bool
			missing := false
			for x, mm := range []*detour.NavMesh{solo, m} {
				a, _ := s.at(mm, ps[i], qs[i].y)
				b, _ := s.at(mm, ps[j], qs[j].y)
				if a == nil || b == nil {
					missing = true
					continue
				}
				qq := []*detour.NavMeshQuery{q1, q2}[x]
				n, st := qq.FindPath(a.ref, b.ref, ps[i].vec(), ps[j].vec(), everything{detour.NewStandardQueryFilter()}, path)
				if detour.StatusFailed(st) || n == 0 {
					c.Fatalf("FindPath: %x", st)
				}
				reached[x] = path[n-1] == b.ref
			}
			if missing {
				continue
			}
			if reached[0] != reached[1] {
				if s.lonely(c, m) {
					c.Label("one-cell-region")
					return
				}
				c.Fatalf("from %v to %v: single tile %v, tiles %v\n%v", ps[i], ps[j], reached[0], reached[1], s)
			}
			pairs++
			c.LabelIf(!reached[0], "unreachable")
		}
		if pairs > 0 && len(allPolys(m, false)) >= 10 {
			c.Nontrivial(s.text, s.set)
		}
		c.Sample("%d pairs of points: %v", pairs, s)
	})

	hx.Run(t, "same", "a mesh of at least 4 tiles", 1000, 30000, func(c *hx.Case) {
		r := gen.New(c.T)
		s := randBScene(r)
		b, m := tileBuild(c, s)
		data := save(c, m)
		_, m2 := tileBuild(c, s)
		if !bytes.Equal(data, save(c, m2)) {
			c.Fatalf("two builds of the same geometry differ\n%v", s)
		}
		if r.P(0.5) {
			s2 := randBScene(r)
			loadTiled(c, b, s2)
			m3, ok := b.Build()
			_, m4 := tileBuild(c, s2)
			if !ok || !bytes.Equal(save(c, m3), save(c, m4)) {
				c.Fatalf("a builder used before builds something else than a new one\n%v", s2)
			}
			loadTiled(c, b, s)
		}
		m5, ok := b.Build()
		if !ok || !bytes.Equal(data, save(c, m5)) {
			c.Fatalf("building again with the same builder gives something else\n%v", s)
		}
		if n := s.checkGrid(c, m5); n >= 4 {
			c.Nontrivial(s.text, s.set)
			c.Sample("%d tiles, %d bytes: %v", n, len(data), s)
		}
	})

	hx.Run(t, "edit", "tiles were removed and built again in a mesh of at least 4 tiles", 1500, 40000, func(c *hx.Case) {
		r := gen.New(c.T)
		s := randBScene(r)
		b, m := tileBuild(c, s)
		tiles, lks := tilesOf(c, m), linksOf(c, m)
		tw, th, bmin, bmax := s.grid()
		ts := s.cs * float64(int(s.set.TileSize))
		gone := map[[2]int32]bool{}
		n := r.Int("ops", 1, 12)
		removed, rebuilt := 0, 0
		for k := 0; k < n; k++ {
			at := [2]int32{int32(r.U(0, tw-1)), int32(r.U(0, th-1))}
			u, w := float64(r.F(0.01, 0.99)), float64(r.F(0.01, 0.99))
			pos := d3.Vec3{float32(bmin[0] + (float64(at[0])+u)*ts), r.F(float32(bmin[1]-5), float32(bmax[1]+5)), float32(bmin[2] + (float64(at[1])+w)*ts)}
			outside := r.P(0.2) // next to the grid, or far from it
			if outside {
				switch r.U(0, 4) {
				case 0:
					at[0] = int32(-r.U(1, 3))
				case 1:
					at[1] = int32(-r.U(1, 3))
				case 2:
					at[0], at[1] = -1, -1
				case 3:
					at[0] = int32(tw + r.U(1, 3))
				default:
					at[1] = int32(th + r.U(1, 3))
				}
				pos[0], pos[2] = float32(bmin[0]+(float64(at[0])+u)*ts), float32(bmin[2]+(float64(at[1])+w)*ts)
			}
			if x, y := b.TilePos(pos); x != at[0] || y != at[1] {
				c.Fatalf("TilePos(%v) = %d,%d, want %v\n%v", pos, x, y, at, s)
			}
			if x, y := m.CalcTileLoc(pos); x != at[0] || y != at[1] {
				c.Fatalf("CalcTileLoc(%v) = %d,%d, want %v\n%v", pos, x, y, at, s)
			}
			c.LabelIf(outside, "an edit outside the grid")
			op := gen.Pick(r, "op", "remove", "build")
			if op == "remove" {
				b.RemoveTile(pos)
				if tiles[at] != "" && !gone[at] {
					removed++
				}
				if !outside {
					gone[at] = true
				}
			} else {
				quietly(func() { b.BuildTile(pos) })
				if !outside {
					delete(gone, at)
				}
				if tiles[at] != "" {
					rebuilt++
				}
			}
			// what is there is as it was
			now := tilesOf(c, m)
			for key, txt := range tiles {
				if gone[key] {
					if _, ok := now[key]; ok {
						c.Fatalf("tile %v is still there after %s of %v\n%v", key, op, at, s)
					}
				} else if now[key] != txt {
					c.Fatalf("tile %v changes after %s of %v: %s, was %s\n%v", key, op, at, short(now[key]), short(txt), s)
				}
			}
			for key := range now {
				if tiles[key] == "" {
					c.Fatalf("tile %v appears after %s of %v\n%v", key, op, at, s)
				}
			}
			for key, ls := range linksOf(c, m) {
				want := map[string]bool{}
				for l := range lks[key] {
					var to tileKey
					fmt.Sscanf(l, "{%d %d %d}", &to.x, &to.y, &to.poly)
					if !gone[[2]int32{to.x, to.y}] {
						want[l] = true
					}
				}
				if !reflect.DeepEqual(ls, want) {
					c.Fatalf("links of polygon %v after %s of %v: %v, want %v\n%v", key, op, at, ls, want, s)
				}
			}
		}
		if len(tiles) >= 4 && removed > 0 && rebuilt > 0 {
			c.Nontrivial(s.text, s.set, n)
		}
		c.Sample("%d tiles, %d removed, %d built again", len(tiles), removed, rebuilt)
	})

	hx.Run(t, "stages", "the stages give at least 4 tiles", 1000, 20000, func(c *hx.Case) {
		r := gen.New(c.T)
		s := randBScene(r)
		_, m := tileBuild(c, s)
		tw, th, _, _ := s.grid()
		m2 := &detour.NavMesh{}
		if st := m2.Init(&m.Params); detour.StatusFailed(st) {
			c.Fatalf("Init: %x", st)
		}
		tiles := 0
		for y := 0; y < th; y++ {
			for x := 0; x < tw; x++ {
				if data := stages(c, s, &[2]int32{int32(x), int32(y)}, nil); data != nil {
					if st, _ := m2.AddTile(data, 0); detour.StatusFailed(st) {
						c.Fatalf("AddTile: %x", st)
					}
					tiles++
				}
			}
		}
		if !bytes.Equal(save(c, m), save(c, m2)) {
			c.Fatalf("the build differs from its stages one by one: %s\n%v", diffSnap(snapMesh(c, m), snapMesh(c, m2)), s)
		}
		if tiles >= 4 {
			c.Nontrivial(s.text, s.set)
			c.Sample("%d tiles: %v", tiles, s)
		}
	})

	hx.Run(t, "large", "more tiles, triangles or polygons than fit, or nearly", 12, 160, func(c *hx.Case) {
		r := gen.New(c.T)
		set := bSettings(r)
		set.AgentRadius, set.RegionMinSize, set.CellSize = 0, 0, r.F(0.1, 0.5)
		cs := float64(set.CellSize)
		var s *bscene
		fits := true
		what := gen.Pick(r, "what", "triangles", "tiles", "polygons")
		switch what {
		case "triangles": // in one or a few tiles
			set.TileSize = float32(r.U(24, 64))
			s = newBScene(set)
			nx, nz := r.U(260, 380), r.U(260, 380)
			w := cs * float64(set.TileSize) * float64(r.F(0.5, 2))
			s.ground(bquad{0, 0, w, w * float64(r.F(0.5, 1)), 0}, nx, nz)
			s.finish(r)
		case "tiles": // a carpet of tiles, the last full or a bit smaller
			set.TileSize = float32(r.U(5, 8))
			n := gen.Any(r, 16384, 16383, 16385, 16384+r.U(1, 300))
			w := 1
			if r.P(0.5) {
				w = gen.Any(r, 2, 16, 64, 128)
				n = n / w
				if r.P(0.3) {
					n++
				}
			}
			fits = n*w <= 16384
			s = newBScene(set)
			tcs := cs * float64(set.TileSize)
			q := bquad{0, 0, tcs*float64(w) - 0.2*cs, tcs*float64(n) - 0.2*cs, 0}
			if r.P(0.5) {
				q.x1, q.z1 = q.z1, q.x1
			}
			s.ground(q, 1, 1)
			s.finish(r)
		case "polygons": // many islands in one tile
			set.TileSize, set.VertsPerPoly, set.EdgeMaxLen, set.EdgeMaxError = 160, 6, 0, 0.1
			n := gen.Any(r, 240, 256, 257, r.U(257, 400))
			fits = n <= 256
			s = newBScene(set)
			w := gen.Any(r, 20, 19)
			for i := 0; i < n; i++ {
				x, z := float64(i%w*8)*cs, float64(i/w*7)*cs
				e := 0.1 * cs
				if i == 0 {
					e = 0
				}
				s.ground(bquad{x + e, z + e, x + cs*4.9, z + cs*3.9, 0}, 1, 1)
			}
			far := cs * (100*160 - 0.3)
			s.ground(bquad{far - 6*cs, far - 6*cs, far, far, 0}, 1, 1)
			s.finish(r)
		}
		b := tilemesh.New(recast.NewBuildContext(r.Bool("log")))
		loadTiled(c, b, s)
		m, ok := b.Build()
		if ok != fits || (m != nil) != fits {
			c.Fatalf("building %s gives %v (mesh %v), want %v\n%s", what, ok, m != nil, fits, short(s.String()))
		}
		c.Label(what)
		c.LabelIf(!fits, "too-many")
		c.Nontrivial(what, set, r.U(0, 1<<30))
		c.Sample("%s: %v, %d triangles", what, fits, len(s.bt))
		if !fits {
			return
		}
		tiles := s.checkGrid(c, m)
		tw, th, _, _ := s.grid()
		if tiles != tw*th && what == "tiles" {
			c.Fatalf("%d tiles for a ground of %dx%d tiles\n%s", tiles, tw, th, short(s.String()))
		}
		if n := len(allPolys(m, false)); what == "polygons" && n != len(s.quads) {
			c.Fatalf("%d polygons for %d islands\n%s", n, len(s.quads), short(s.String()))
		}
		s.checkCover(c, r, m, 30)
		s.checkSound(c, r, m, 20)
	})

	hx.Run(t, "refused", "a build that cannot succeed", 1000, 20000, func(c *hx.Case) {
		r := gen.New(c.T)
		b := tilemesh.New(recast.NewBuildContext(r.Bool("log")))
		s := randBScene(r)
		why := gen.Pick(r, "why", "nothing loaded", "bad geometry", "vertices", "settings")
		text := s.text
		switch why {
		case "bad geometry":
			if r.P(0.5) { // after a good one
				b.LoadGeometry(strings.NewReader(text))
			}
			if b.LoadGeometry(strings.NewReader(gen.Any(r, "", "v 1 2\n", "f 1 2 3\n", text+"f 1 2 9999999\n"))) == nil {
				c.Fatalf("bad geometry is accepted")
			}
			text = ""
		case "nothing loaded":
			text = ""
		case "settings":
			badSettings(r, &s.set, true)
		case "vertices":
			s.set.VertsPerPoly = float32(r.U(int(detour.VertsPerPolygon)+1, 20))
		}
		b.SetSettings(s.set)
		if text != "" {
			if err := b.LoadGeometry(strings.NewReader(text)); err != nil {
				c.Fatalf("LoadGeometry: %v", err)
			}
		}
		if m, ok := b.Build(); ok || m != nil {
			n := -1
			if m != nil {
				n = len(allPolys(m, false))
			}
			c.Fatalf("building (%s) gives a mesh of %d polygons\n%v\n%s", why, n, s, short(text))
		}
		c.Label(why)
		c.Nontrivial(why, s.set, text)
	})
}
