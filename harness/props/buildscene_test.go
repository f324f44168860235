package props

import (
	"fmt"
	"math"
	"strings"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample"

	"verif/harness/gen"
	"verif/harness/hx"
)

// btri is an input triangle.
type btri struct {
	v      [3]v64
	lo, hi v64
	slope  float64 // degrees from an upright normal (180: faces down)
}

// bquad is a horizontal rectangle of the input that faces up.
type bquad struct{ x0, z0, x1, z1, y float64 }

// bramp is a sloped quad facing up: its height goes from y0 to y1 along x (or
// along z).
type bramp struct {
	bquad
	y1     float64
	alongZ bool
}

type bvol struct {
	poly   [][2]float64
	lo, hi float64
	area   uint8
}

// bscene is input geometry for a build with its settings.
type bscene struct {
	set   recast.BuildSettings
	verts [][3]float32
	tris  [][3]int32
	bt    []btri
	quads []bquad
	ramps []bramp
	vols  []bvol
	flat  bool // all levels are too far apart to step from one to the other
	text  string
	desc  []string

	// agent and error margins
	cs, ch, height, climb float64
	r                     float64 // eroded cells
	err                   float64 // contours are simplified by as many cells
}

func newBScene(set recast.BuildSettings) *bscene {
	s := &bscene{set: set, flat: true}
	s.cs, s.ch = float64(set.CellSize), float64(set.CellHeight)
	s.height, s.climb = float64(set.AgentHeight), float64(set.AgentMaxClimb)
	s.r = math.Ceil(float64(set.AgentRadius) / s.cs * (1 - 1e-6))
	s.err = float64(set.EdgeMaxError)
	return s
}

// bSettings draws build settings.
func bSettings(r *gen.R) recast.BuildSettings {
	cs := r.F(0.2, 0.5)
	ch := r.F(0.1, 0.3)
	set := recast.BuildSettings{
		CellSize: cs, CellHeight: ch,
		AgentHeight:   max(3*ch, r.F(0.8, 3)),
		AgentRadius:   gen.Any(r, 0, r.F(0, 0.5), r.F(0.3, 1.5)),
		AgentMaxClimb: gen.Any(r, r.F(0, 0.3), r.F(0.3, 1.2)),
		AgentMaxSlope: r.F(20, 60),
		RegionMinSize: gen.Any(r, float32(0), 2, r.F(0, 8), 8), RegionMergeSize: gen.Any(r, float32(0), r.F(0, 20), 20),
		EdgeMaxLen: gen.Any(r, float32(0), r.F(1, 20), 12), EdgeMaxError: gen.Any(r, r.F(0.1, 3), 1.3),
		VertsPerPoly:     float32(gen.Any(r, 3, 4, 5, 6, 6, 6)),
		DetailSampleDist: gen.Any(r, float32(0), 0.5, r.F(0.9, 3), 6, r.F(3, 12)), DetailSampleMaxError: gen.Any(r, float32(1), r.F(0, 3)),
		PartitionType: int32(sample.PartitionMonotone),
		TileSize:      float32(r.U(8, 40)),
	}
	// an agent that climbs higher than half its height makes its own links
	set.AgentMaxClimb = min(set.AgentMaxClimb, 0.45*set.AgentHeight)
	return set
}

func (s *bscene) tri(a, b, c v64) {
	n := int32(len(s.verts))
	for _, v := range []v64{a, b, c} {
		s.verts = append(s.verts, [3]float32{float32(v[0]), float32(v[1]), float32(v[2])})
	}
	s.tris = append(s.tris, [3]int32{n, n + 1, n + 2})
}

// quad adds a quad in two triangles.
func (s *bscene) quad(a, b, c, d v64) {
	s.tri(a, b, c)
	s.tri(a, c, d)
}

func (s *bscene) quadUp(q bquad) {
	s.quad(v64{q.x0, q.y, q.z0}, v64{q.x0, q.y, q.z1}, v64{q.x1, q.y, q.z1}, v64{q.x1, q.y, q.z0})
	s.quads = append(s.quads, q)
}

// ground is a horizontal rectangle in nx*nz quads.
func (s *bscene) ground(q bquad, nx, nz int) {
	at := func(a, b float64, i, n int) float64 {
		if i == n {
			return b
		}
		return a + (b-a)*float64(i)/float64(n)
	}
	for i := 0; i < nx; i++ {
		for j := 0; j < nz; j++ {
			x0, x1, z0, z1 := at(q.x0, q.x1, i, nx), at(q.x0, q.x1, i+1, nx), at(q.z0, q.z1, j, nz), at(q.z0, q.z1, j+1, nz)
			s.quad(v64{x0, q.y, z0}, v64{x0, q.y, z1}, v64{x1, q.y, z1}, v64{x1, q.y, z0})
		}
	}
	s.quads = append(s.quads, q)
	s.desc = append(s.desc, fmt.Sprintf("ground %.2f..%.2f,%.2f..%.2f at %.2f", q.x0, q.x1, q.z0, q.z1, q.y))
}

// box adds an upright box from yb up to q.y.
func (s *bscene) box(q bquad, yb float64, bottom bool) {
	c := [4][2]float64{{q.x0, q.z0}, {q.x0, q.z1}, {q.x1, q.z1}, {q.x1, q.z0}}
	s.prism(c[:], yb, q.y, bottom)
	s.quads = append(s.quads, q)
	s.desc = append(s.desc, fmt.Sprintf("box %.2f..%.2f,%.2f..%.2f at %.2f..%.2f", q.x0, q.x1, q.z0, q.z1, yb, q.y))
}

// prism adds an upright prism over a convex quadrilateral.
func (s *bscene) prism(c [][2]float64, yb, yt float64, bottom bool) {
	at := func(i int, y float64) v64 { return v64{c[i%4][0], y, c[i%4][1]} }
	s.quad(at(0, yt), at(1, yt), at(2, yt), at(3, yt))
	if bottom {
		s.quad(at(3, yb), at(2, yb), at(1, yb), at(0, yb))
	}
	for i := 0; i < 4; i++ {
		s.quad(at(i, yb), at(i+1, yb), at(i+1, yt), at(i, yt))
	}
}

func (s *bscene) ramp(r bramp) {
	if r.alongZ {
		s.quad(v64{r.x0, r.y, r.z0}, v64{r.x0, r.y1, r.z1}, v64{r.x1, r.y1, r.z1}, v64{r.x1, r.y, r.z0})
	} else {
		s.quad(v64{r.x0, r.y, r.z0}, v64{r.x0, r.y, r.z1}, v64{r.x1, r.y1, r.z1}, v64{r.x1, r.y1, r.z0})
	}
	s.ramps = append(s.ramps, r)
	s.desc = append(s.desc, fmt.Sprintf("ramp %.2f..%.2f,%.2f..%.2f from %.2f to %.2f (z: %v)", r.x0, r.x1, r.z0, r.z1, r.y, r.y1, r.alongZ))
}

// refine splits triangles until there are n.
func (s *bscene) refine(n int) {
	for i := 0; len(s.tris) < n; i = (i + 1) % len(s.tris) {
		t := s.tris[i]
		// the longest edge
		at, most := 0, 0.0
		for k := range t {
			a, b := s.verts[t[k]], s.verts[t[(k+1)%3]]
			if l := to64(a[:]).sub(to64(b[:])).len(); l > most {
				at, most = k, l
			}
		}
		if most < 0.2 {
			return
		}
		a, b, c := t[at], t[(at+1)%3], t[(at+2)%3]
		va, vb := s.verts[a], s.verts[b]
		var mid [3]float32
		for x := range mid {
			mid[x] = float32((float64(va[x]) + float64(vb[x])) / 2)
		}
		m := int32(len(s.verts))
		s.verts = append(s.verts, mid)
		s.tris[i] = [3]int32{a, m, c}
		s.tris = append(s.tris, [3]int32{m, b, c})
	}
}

// finish moves, turns and shuffles the scene and writes it as OBJ text. The
// feature lists follow.
func (s *bscene) finish(r *gen.R) {
	ox, oy, oz := 0.0, 0.0, 0.0
	if r.P(0.8) {
		ox, oy, oz = float64(r.F(-50, 50)), float64(r.F(-10, 10)), float64(r.F(-50, 50))
	}
	for i := range s.verts {
		v := &s.verts[i]
		*v = [3]float32{float32(float64(v[0]) + ox), float32(float64(v[1]) + oy), float32(float64(v[2]) + oz)}
	}
	mv := func(q bquad) bquad { return bquad{q.x0 + ox, q.z0 + oz, q.x1 + ox, q.z1 + oz, q.y + oy} }
	for i := range s.quads {
		s.quads[i] = mv(s.quads[i])
	}
	for i := range s.ramps {
		q := &s.ramps[i]
		q.bquad = mv(q.bquad)
		q.y1 += oy
	}
	for i := range s.vols {
		v := &s.vols[i]
		v.lo, v.hi = v.lo+oy, v.hi+oy
		for j := range v.poly {
			v.poly[j][0] += ox
			v.poly[j][1] += oz
		}
	}
	if len(s.tris) > 0 && r.P(0.1) { // several chunks
		s.refine(r.U(200, 900))
		s.desc = append(s.desc, fmt.Sprintf("%d triangles", len(s.tris)))
	}
	p := r.Perm(len(s.tris))
	sh := make([][3]int32, len(p))
	for i, j := range p {
		t := s.tris[j]
		for k := r.U(0, 2); k > 0; k-- {
			t = [3]int32{t[1], t[2], t[0]}
		}
		sh[i] = t
	}
	s.tris = sh
	for _, t := range s.tris {
		b := btri{}
		for k := range b.v {
			x := s.verts[t[k]]
			b.v[k] = to64(x[:])
		}
		b.lo, b.hi = boundsOf(b.v[:])
		e0, e1 := b.v[1].sub(b.v[0]), b.v[2].sub(b.v[0])
		n := v64{e0[1]*e1[2] - e0[2]*e1[1], e0[2]*e1[0] - e0[0]*e1[2], e0[0]*e1[1] - e0[1]*e1[0]}
		b.slope = math.Acos(math.Max(-1, math.Min(1, n[1]/n.len()))) * 180 / math.Pi
		s.bt = append(s.bt, b)
	}
	s.text = objText(s.verts, s.tris)
}

func (s *bscene) String() string {
	b := s.set
	return fmt.Sprintf("cs %v ch %v agent height %v radius %v climb %v slope %v, min region %v merge %v, edges %v err %v, %v verts, detail %v/%v, tile %v: %s",
		b.CellSize, b.CellHeight, b.AgentHeight, b.AgentRadius, b.AgentMaxClimb, b.AgentMaxSlope, b.RegionMinSize, b.RegionMergeSize,
		b.EdgeMaxLen, b.EdgeMaxError, b.VertsPerPoly, b.DetailSampleDist, b.DetailSampleMaxError, b.TileSize, strings.Join(s.desc, "; "))
}

func (s *bscene) addVolumes(ig *recast.InputGeom) {
	for _, v := range s.vols {
		var f []float32
		for _, p := range v.poly {
			f = append(f, float32(p[0]), float32(v.lo), float32(p[1]))
		}
		ig.AddConvexVolume(f, float32(v.lo), float32(v.hi), v.area)
	}
}

// walkableTri tells whether the slope of a triangle surely allows walking.
func (s *bscene) walkableTri(t *btri) bool { return t.slope < float64(s.set.AgentMaxSlope)-0.5 }

// maybeWalkable tells whether it may.
func (s *bscene) maybeWalkable(t *btri) bool { return t.slope < float64(s.set.AgentMaxSlope)+0.5 }

// dist2D is the distance in (x,z) between a point and a triangle, bounded by
// the one to its bounds when beyond far.
func (t *btri) dist2D(p v64, far float64) float64 {
	dx := math.Max(0, math.Max(t.lo[0]-p[0], p[0]-t.hi[0]))
	dz := math.Max(0, math.Max(t.lo[2]-p[2], p[2]-t.hi[2]))
	if d := math.Hypot(dx, dz); d > far {
		return d
	}
	vs := t.v
	x := cross2D(vs[0], vs[1], vs[2])
	if math.Abs(x) > 1e-9 {
		if x > 0 {
			vs[1], vs[2] = vs[2], vs[1]
		}
		return dist2DPoly(p, vs[:])
	}
	d := math.Inf(1)
	for k := 0; k < 3; k++ {
		_, e := closestSeg2D(p, vs[k], vs[(k+1)%3])
		d = math.Min(d, e)
	}
	return d
}

// openRadius is how far from a point everything must be free for it to be
// surely covered.
func (s *bscene) openRadius() float64 {
	m := float64(s.set.RegionMinSize)
	return (s.r + 5 + s.err + math.Ceil(m*0.6)) * s.cs
}

// open tells whether the surroundings of a point on a horizontal quad are free:
// all of the disk around it is ground, with headroom.
func (s *bscene) open(p v64, q bquad, d float64) bool {
	if p[0]-q.x0 < d || q.x1-p[0] < d || p[2]-q.z0 < d || q.z1-p[2] < d {
		return false
	}
	for i := range s.bt {
		t := &s.bt[i]
		if t.hi[1] < q.y-0.01*s.ch || t.lo[1] > q.y+s.height+3*s.ch {
			continue
		}
		if t.slope < 0.01 && math.Abs(t.hi[1]-q.y) < 1e-4*s.ch+1e-5 {
			continue
		}
		if t.dist2D(p, d+s.cs) < d+s.cs {
			return false
		}
	}
	for _, v := range s.vols {
		if v.area == 0 && v.lo < q.y+4*s.ch && v.hi > q.y-3*s.ch && -insideConvex(v.poly, p[0], p[2]) < d {
			return false
		}
	}
	return true
}

// bhit is a polygon found at a point.
type bhit struct {
	ref detour.PolyRef
	t   *detour.MeshTile
	p   *detour.Poly
	h   rng64
	in  float64
}

// polysAt lists the polygons over a point.
func polysAt(m *detour.NavMesh, p v64, tol float64) []bhit {
	var res []bhit
	for i := range m.Tiles {
		t := &m.Tiles[i]
		if t.Header == nil {
			continue
		}
		lo, hi := to64(t.Header.BMin[:]), to64(t.Header.BMax[:])
		if p[0] < lo[0]-1 || p[2] < lo[2]-1 || p[0] > hi[0]+1 || p[2] > hi[2]+1 {
			continue
		}
		for k := range t.Polys {
			if t.Polys[k].Type() == offMesh {
				continue
			}
			vs := vertsOf(t, &t.Polys[k])
			in := inside2D(p, vs)
			if in < -tol {
				continue
			}
			h, _ := surfaceHeights(t, k, p)
			if h.lo > h.hi {
				lo, hi := boundsOf(vs)
				h = rng64{lo[1], hi[1]}
			}
			res = append(res, bhit{refOf(m, t, k), t, &t.Polys[k], h, in})
		}
	}
	return res
}

// at finds the polygon that covers a point of a level.
func (s *bscene) at(m *detour.NavMesh, p v64, y float64) (hit *bhit, all []bhit) {
	all = polysAt(m, p, 1e-4)
	lo, hi := -0.2*s.ch, 3.1*s.ch
	if !s.flat {
		lo, hi = -s.climb-2*s.ch, s.climb+4*s.ch
	}
	for i := range all {
		h := all[i].h
		if !s.flat { // polygons across slopes and steps only roughly follow them
			a, b := boundsOf(vertsOf(all[i].t, all[i].p))
			h.add(a[1])
			h.add(b[1])
		}
		if h.hi >= y+lo-1e-4 && h.lo <= y+hi+1e-4 {
			if hit == nil || all[i].in > hit.in {
				hit = &all[i]
			}
		}
	}
	return hit, all
}

// openPoints draws points whose surroundings are open.
func (s *bscene) openPoints(r *gen.R, n int) (ps []v64, qs []bquad) {
	d := s.openRadius()
	for ; n > 0; n-- {
		q := gen.Any(r, s.quads...)
		if q.x1-q.x0 < 2*d || q.z1-q.z0 < 2*d {
			continue
		}
		p := v64{float64(r.F(float32(q.x0+d), float32(q.x1-d))), q.y, float64(r.F(float32(q.z0+d), float32(q.z1-d)))}
		if s.open(p, q, d) {
			ps, qs = append(ps, p), append(qs, q)
		}
	}
	return ps, qs
}

// volArea is the area the volumes give a point of a level; sure is false near
// their borders.
func (s *bscene) volArea(p v64, y float64) (area uint8, sure bool) {
	area, sure = recast.WalkableArea, true
	m := (2 + s.err) * s.cs
	for _, v := range s.vols {
		if v.lo > y-3*s.ch && v.lo < y+4*s.ch || v.hi > y-3*s.ch && v.hi < y+4*s.ch {
			sure = false
			continue
		}
		if v.lo > y || v.hi < y {
			continue
		}
		in := insideConvex(v.poly, p[0], p[2])
		if math.Abs(in) < m {
			sure = false
		}
		if in > 0 && area != 0 {
			area = v.area
		}
	}
	return area, sure
}

func bFlags(area uint8) uint16 {
	switch area {
	case sample.PolyAreaGround, sample.PolyAreaGrass, sample.PolyAreaRoad:
		return sample.PolyFlagsWalk
	case sample.PolyAreaWater:
		return sample.PolyFlagsSwim
	case sample.PolyAreaDoor:
		return sample.PolyFlagsWalk | sample.PolyFlagsDoor
	}
	return 0
}

// everything passes polygons of any area (those without flags as well).
type everything struct{ *detour.StandardQueryFilter }

func (everything) PassFilter(detour.PolyRef, *detour.MeshTile, *detour.Poly) bool { return true }

// checkCover checks that open ground is covered, with the right area, and that
// one can walk straight through the open.
func (s *bscene) checkCover(c *hx.Case, r *gen.R, m *detour.NavMesh, n int) int {
	ps, qs := s.openPoints(r, n)
	var refs []detour.PolyRef
	for i, p := range ps {
		hit, all := s.at(m, p, qs[i].y)
		if hit == nil {
			if _, sure := s.volArea(p, qs[i].y); !sure {
				// Slivers remain between areas where regions touch in a corner
				// or have one cell.
				c.Label("area-border")
				refs = append(refs, 0)
				continue
			}
			if s.lonely(c, m) {
				c.Label("one-cell-region")
				return i
			}
			c.Fatalf("open ground is not covered: %v (level %v, open %v around); polygons over it: %v\n%v", p, qs[i].y, s.openRadius(), hits(all), s)
		}
		refs = append(refs, hit.ref)
		if area, sure := s.volArea(p, qs[i].y); sure {
			if area == recast.WalkableArea {
				area = sample.PolyAreaGround
			}
			if hit.p.Area() != area || hit.p.Flags != bFlags(area) {
				c.Fatalf("polygon at %v has area %d and flags %#x, want %d and %#x\n%v", p, hit.p.Area(), hit.p.Flags, area, bFlags(area), s)
			}
			c.LabelIf(area != 0, "volume-area")
		}
	}
	if len(ps) < 2 {
		return len(ps)
	}
	room := 2048
	if n := len(allPolys(m, false)); n > room {
		room = 65535
	}
	st, q := detour.NewNavMeshQuery(m, int32(room))
	if detour.StatusFailed(st) {
		c.Fatalf("NewNavMeshQuery: %x", st)
	}
	paths := 0
	for k := 0; k < 6; k++ {
		i, j := r.U(0, len(ps)-1), r.U(0, len(ps)-1)
		if refs[i] == 0 || refs[j] == 0 || qs[i] != qs[j] || i == j || !s.openWay(ps[i], ps[j], qs[i]) {
			continue
		}
		path := make([]detour.PolyRef, room)
		n, st := q.FindPath(refs[i], refs[j], ps[i].vec(), ps[j].vec(), everything{detour.NewStandardQueryFilter()}, path)
		if detour.StatusDetail(st, detour.OutOfNodes) && room == 65535 {
			c.Label("out of nodes")
			continue
		}
		if st != detour.Success || path[n-1] != refs[j] {
			if s.lonely(c, m) {
				c.Label("one-cell-region")
				return len(ps)
			}
			c.Fatalf("no path from %v (%x) to %v (%x) over open ground: %x, status %s (%d)\n%v", ps[i], refs[i], ps[j], refs[j], path[:n], st, uint32(st), s)
		}
		if n > 1 {
			paths++
		}
	}
	c.LabelIf(paths > 0, "path-in-the-open")
	return len(ps)
}

// lonely tells whether a region of the mesh has a cell alone, which gets no
// contour (and lets the borders of tiles beside it be cut).
func (s *bscene) lonely(c *hx.Case, m *detour.NavMesh) bool {
	found := false
	look := func(chf *recast.CompactHeightfield, _ *recast.ContourSet) {
		for i, cell := range chf.Cells {
			x, y := int32(i)%chf.Width, int32(i)/chf.Width
			for k := int(cell.Index); k < int(cell.Index)+int(cell.Count); k++ {
				sp := &chf.Spans[k]
				if sp.Reg == 0 || sp.Reg&0x8000 != 0 {
					continue
				}
				alone := true
				for dir := int32(0); dir < 4; dir++ {
					if con := recast.GetCon(sp, dir); con != 0x3f {
						nx, ny := x+[]int32{-1, 0, 1, 0}[dir], y+[]int32{0, 1, 0, -1}[dir]
						if chf.Spans[int(chf.Cells[nx+ny*chf.Width].Index)+int(con)].Reg == sp.Reg {
							alone = false
						}
					}
				}
				found = found || alone
			}
		}
	}
	for i := range m.Tiles {
		if h := m.Tiles[i].Header; h != nil {
			if m.Params.MaxTiles == 1 && h.X == 0 && h.Y == 0 {
				stages(c, s, nil, look)
			}
			stages(c, s, &[2]int32{h.X, h.Y}, look)
		}
	}
	return found
}

// openWay tells whether all of a way is open.
func (s *bscene) openWay(a, b v64, q bquad) bool {
	n := int(a.dist2D(b)/(s.cs)) + 1
	for i := 0; i <= n; i++ {
		p := lerp64(a, b, float64(i)/float64(n))
		if !s.open(p, q, s.openRadius()) {
			return false
		}
		if _, sure := s.volArea(p, q.y); len(s.vols) > 1 && !sure {
			return false
		}
	}
	return true
}

func hits(hs []bhit) string {
	var sb strings.Builder
	for _, h := range hs {
		fmt.Fprintf(&sb, "[%x area %d at %v in %.3f] ", h.ref, h.p.Area(), h.h, h.in)
	}
	return sb.String()
}

// checkSound checks points of the polygons: they are on walkable ground at its
// height, with headroom, away from walls and drops.
func (s *bscene) checkSound(c *hx.Case, r *gen.R, m *detour.NavMesh, n int) {
	polys := allPolys(m, false)
	if len(polys) == 0 {
		return
	}
	near := (2 + s.err) * s.cs
	for ; n > 0; n-- {
		ref := gen.Any(r, polys...)
		t, p := polyOf(c, m, ref)
		idx := int(ref - detour.PolyRef(m.TileRef(t)))
		vs := vertsOf(t, p)
		k := r.U(1, len(vs)-2)
		u, w := float64(r.F(0, 1)), float64(r.F(0, 1))
		if u+w > 1 {
			u, w = 1-u, 1-w
		}
		pt := vs[0].add(vs[k].sub(vs[0]).mul(u)).add(vs[k+1].sub(vs[0]).mul(w))
		h, sure := surfaceHeights(t, idx, pt)
		if !sure {
			continue
		}
		// ground
		win := rng64{h.lo - 3.1*s.ch, h.hi + 0.2*s.ch}
		if !s.flat {
			lo, hi := boundsOf(vs)
			for j := range s.bt {
				b := &s.bt[j]
				if s.maybeWalkable(b) && b.lo[0] < hi[0]+near && b.hi[0] > lo[0]-near && b.lo[2] < hi[2]+near && b.hi[2] > lo[2]-near {
					win.add(b.lo[1] - s.climb - 3*s.ch)
					win.add(b.hi[1] + s.climb + 3*s.ch)
				}
			}
			if h.hi < win.lo || h.lo > win.hi {
				c.Fatalf("point %v of polygon %x at %v: the ground around it is at %v\n%v", pt, ref, h, win, s)
			}
		}
		supported := func(q v64, near float64) bool {
			for j := range s.bt {
				b := &s.bt[j]
				if s.maybeWalkable(b) && b.hi[1] >= win.lo && b.lo[1] <= win.hi && b.dist2D(q, near) <= near {
					return true
				}
			}
			return false
		}
		if !supported(pt, near) {
			c.Fatalf("point %v of polygon %x is not on walkable ground (heights %v)\n%v", pt, ref, win, s)
		}
		if area, sure := s.volArea(pt, h.lo-s.ch); s.flat && sure && area == 0 {
			c.Fatalf("point %v of polygon %x is inside an unwalkable volume\n%v", pt, ref, s)
		}
		if !s.flat {
			continue
		}
		// headroom and walls: nothing is in the way of the agent
		keep := 0.94*s.r*s.cs - near
		for j := range s.bt {
			b := &s.bt[j]
			if b.hi[1] < h.hi+math.Max(s.climb, 0)+2*s.ch || b.lo[1] > h.lo+s.height-4*s.ch {
				continue
			}
			switch {
			case b.slope > 89.9 && b.slope < 90.1: // a wall
				if b.lo[1] > h.lo+s.height-4*s.ch-math.Max(s.climb, 0) && b.lo[1] > h.hi+s.ch {
					continue
				}
				if d := b.dist2D(pt, keep); d < keep {
					c.Fatalf("point %v of polygon %x (heights %v) is %v from a wall %v, radius %v\n%v", pt, ref, h, d, b.v, s.set.AgentRadius, s)
				}
			case b.slope < 0.1 || b.slope > 179.9: // a ceiling
				if b.lo[1] < h.hi+2*s.ch {
					continue
				}
				vs := b.v
				if cross2D(vs[0], vs[1], vs[2]) > 0 {
					vs[1], vs[2] = vs[2], vs[1]
				}
				if in := inside2D(pt, vs[:]); in > near {
					c.Fatalf("point %v of polygon %x (heights %v) is under a ceiling at %v, agent height %v\n%v", pt, ref, h, b.lo[1], s.height, s)
				}
			}
		}
		if keep = 0.94*s.r*s.cs - (2.5+s.err)*s.cs; keep > 0 {
			for k := 0; k < 8; k++ {
				a := float64(r.F(0, 7))
				q := pt.add(v64{keep * math.Cos(a), 0, keep * math.Sin(a)})
				if !supported(q, 1.5*s.cs) {
					c.Fatalf("point %v of polygon %x: there is no ground at %v, %v away, radius %v\n%v", pt, ref, q, keep, s.set.AgentRadius, s)
				}
			}
			c.Label("drop-distance")
		}
	}
	if s.flat { // no links between levels
		for _, ref := range polys {
			t, p := polyOf(c, m, ref)
			a := vertsOf(t, p)
			for _, l := range links(c, t, p) {
				t2, p2 := polyOf(c, m, l.Ref)
				if d := math.Abs(a[0][1] - vertsOf(t2, p2)[0][1]); d > s.climb+3*s.ch {
					c.Fatalf("polygons %x %.3f and %x %.3f are linked (%+v), their heights differ by %v (climb %v)\n%v", ref, a, l.Ref, vertsOf(t2, p2), l, d, s.climb, s)
				}
			}
		}
	}
}

// randBScene is a scene of ground, boxes, slabs, ramps and volumes.
func randBScene(r *gen.R) *bscene {
	s := newBScene(bSettings(r))
	cs, ch := s.cs, s.ch
	dim := gen.Pick(r, "cells", 30, 12, 60, 90)
	w, d := float64(r.U(dim/2, dim))*cs+float64(r.F(0, 1)), float64(r.U(dim/2, dim))*cs+float64(r.F(0, 1))
	flat := r.P(0.6)
	// levels of flat scenes; neighbour tiles are linked over twice the climb height
	step := 2*s.climb + 5*ch + float64(r.F(0, 1))
	level := func() float64 {
		if flat {
			return step * float64(r.U(1, 3))
		}
		return float64(gen.Any(r, r.F(0.02, 0.5), r.F(0.3, 2), r.F(1, 4)))
	}
	s.ground(bquad{0, 0, w, d, 0}, r.U(1, 3), r.U(1, 3))
	if r.P(0.25) { // more ground beside it
		y := gen.Any(r, 0, -level(), level())
		gap := gen.Any(r, 0, 0, float64(r.F(0, 1)), 4*cs)
		s.ground(bquad{w + gap, float64(r.F(-2, 2)), w + gap + float64(r.F(2, 10)), d + float64(r.F(-2, 2)), y}, r.U(1, 2), 1)
	}
	place := func(lo, hi float64) bquad {
		bw, bd := float64(r.F(float32(lo), float32(hi))), float64(r.F(float32(lo), float32(hi)))
		x, z := float64(r.F(-0.1, 1))*w, float64(r.F(-0.1, 1))*d
		return bquad{x, z, x + bw, z + bd, 0}
	}
	for n := r.Int("boxes", 0, 5); n > 0; n-- {
		q := place(0.2, math.Max(1, w/3))
		q.y = level()
		yb := gen.Any(r, 0, -0.5)
		if r.P(0.3) { // turned
			a := float64(r.F(0, 1.5))
			rx, rz := (q.x1-q.x0)/2, (q.z1-q.z0)/2
			cx, cz := q.x0+rx, q.z0+rz
			var p [][2]float64
			for _, k := range [4][2]float64{{-1, -1}, {-1, 1}, {1, 1}, {1, -1}} {
				x, z := k[0]*rx, k[1]*rz
				p = append(p, [2]float64{cx + x*math.Cos(a) - z*math.Sin(a), cz + x*math.Sin(a) + z*math.Cos(a)})
			}
			s.prism(p, yb, q.y, r.P(0.5))
			s.desc = append(s.desc, fmt.Sprintf("prism %.2f at %.2f..%.2f", p, yb, q.y))
			continue
		}
		s.box(q, yb, r.P(0.5))
	}
	for n := r.Int("slabs", 0, 2); n > 0; n-- {
		q := place(1, math.Max(2, w/2))
		q.y = level()
		if q.y -= 0; flat {
			q.y = step * float64(r.U(1, 4))
		}
		th := math.Min(float64(r.F(0.05, 0.5)), q.y*0.5)
		s.box(q, q.y-th, true)
	}
	if !flat {
		for n := r.Int("ramps", 0, 2); n > 0; n-- {
			q := place(2, math.Max(3, w/2))
			rp := bramp{bquad: q, alongZ: r.P(0.5)}
			l := q.x1 - q.x0
			if rp.alongZ {
				l = q.z1 - q.z0
			}
			slope := float64(gen.Any(r, r.F(1, s.set.AgentMaxSlope-1), r.F(s.set.AgentMaxSlope+1, 70)))
			rp.y1 = l * math.Tan(slope*math.Pi/180)
			if r.P(0.5) {
				rp.y, rp.y1 = rp.y1, rp.y
			}
			s.ramp(rp)
		}
	}
	s.flat = flat
	for n := gen.Pick(r, "volumes", 0, 0, 1, 3); n > 0; n-- {
		q := place(1, math.Max(2, w/2))
		v := bvol{area: uint8(gen.Any(r, 0, 1, 2, 3, 4, 5, 63, 17)), lo: -2, hi: 2}
		if r.P(0.5) {
			v.lo, v.hi = -2-float64(r.F(0, 5)), level()+2
		}
		v.poly = [][2]float64{{q.x0, q.z0}, {q.x1, q.z0}, {q.x1, q.z1}, {q.x0, q.z1}}
		switch r.U(0, 2) {
		case 0:
			v.poly = v.poly[:3]
		case 1:
			v.poly = append(v.poly[:3], [2]float64{q.x0 + (q.x1-q.x0)*0.4, q.z1 + 0.3*(q.z1-q.z0)}, v.poly[3])
		}
		s.vols = append(s.vols, v)
		s.desc = append(s.desc, fmt.Sprintf("volume %.2f at %.2f..%.2f area %d", v.poly, v.lo, v.hi, v.area))
	}
	s.finish(r)
	return s
}

// turn turns the scene by quarter turns (before finish; not its volumes and
// ramps).
func (s *bscene) turn(n int) {
	for ; n > 0; n-- {
		for i := range s.verts {
			v := &s.verts[i]
			v[0], v[2] = v[2], -v[0]
		}
		for i := range s.quads {
			q := &s.quads[i]
			*q = bquad{q.z0, -q.x1, q.z1, -q.x0, q.y}
		}
		s.desc = append(s.desc, "turned")
	}
}

// passage is a way between two grounds that can or cannot be passed.
type passage struct {
	kind string
	can  bool
}

// passageScene has two grounds with something between them that agents surely
// get past, or surely not.
func passageScene(r *gen.R) (*bscene, passage) {
	set := bSettings(r)
	set.RegionMinSize = min(set.RegionMinSize, 3)
	kind := gen.Pick(r, "between", "step", "stairs", "ramp", "door", "gap", "ceiling", "wall")
	can := r.Bool("can")
	if kind == "door" && !can {
		set.AgentRadius = max(set.AgentRadius, 4*set.CellSize*r.F(1, 1.5))
	}
	if kind == "stairs" || kind == "step" || kind == "wall" {
		set.AgentMaxClimb = max(set.AgentMaxClimb, 3*set.CellHeight)
		set.AgentHeight = max(set.AgentHeight, set.AgentMaxClimb*2.1)
	}
	if kind == "ceiling" {
		set.AgentHeight = max(set.AgentHeight, 6*set.CellHeight)
	}
	s := newBScene(set)
	cs, ch := s.cs, s.ch
	if kind == "ramp" && can { // steps between cells must be climbable
		mx := math.Atan((s.climb-3*ch)/(2*cs)) * 180 / math.Pi
		if mx < 3 {
			set.AgentMaxClimb = float32(3*ch + 2*cs*math.Tan(0.3))
			set.AgentHeight = max(set.AgentHeight, 2.2*set.AgentMaxClimb)
			s = newBScene(set)
		}
	}
	d := s.openRadius()
	wa, wb := 2*d+2*cs+float64(r.F(0, 1)), 2*d+2*cs+float64(r.F(0, 1))
	depth := 2*d + 2*cs + float64(r.F(0, 2))
	any := func(lo, hi float64) float64 { return lo + (hi-lo)*float64(r.F(0, 1)) }
	l, yb := 0.0, 0.0
	var mid func()
	switch kind {
	case "step":
		yb = any(0, s.climb-2*ch)
		if !can {
			yb = s.climb + 2*ch + any(0, 2)
		}
		if r.P(0.5) {
			mid = func() { s.quad(v64{0, 0, depth}, v64{0, 0, 0}, v64{0, yb, 0}, v64{0, yb, depth}) }
		}
	case "stairs":
		n := r.U(2, 5)
		rise := any(0, s.climb-2*ch)
		if !can {
			rise = s.climb + 2*ch + any(0, 0.5)
		}
		run := (4 + any(0, 4)) * cs
		l, yb = run*float64(n-1), rise*float64(n)
		mid = func() {
			for i := 1; i < n; i++ {
				s.box(bquad{run * float64(i-1), 0, run * float64(i), depth, rise * float64(i)}, gen.Any(r, 0, rise*float64(i-1)), false)
			}
		}
	case "ramp":
		limit := float64(set.AgentMaxSlope)
		slope := any(1, math.Min(limit-1, math.Atan((s.climb-3*ch)/(2*cs))*180/math.Pi))
		yb = any(0.5, 3)
		if !can {
			slope = any(limit+1, math.Min(limit+20, 80))
			yb = 2*s.climb + 6*ch + any(0, 2)
		}
		l = yb / math.Tan(slope*math.Pi/180)
		if l > 15 {
			l, yb = 15, 15*math.Tan(slope*math.Pi/180)
		}
		mid = func() { s.ramp(bramp{bquad: bquad{0, 0, l, depth, 0}, y1: yb}) }
	case "door":
		l = any(0.1, 3)
		w := (2*(s.r+1)+4+2*s.err)*cs + any(0, 1)
		if !can {
			w = any(0.05, 2*0.94*s.r*cs-2*cs)
		}
		top := s.climb + 3*ch + any(0, 3)
		if w > depth-2*cs {
			depth = w + 4*cs
		}
		z := any(0, depth-w)
		mid = func() {
			s.ground(bquad{0, 0, l, depth, 0}, 1, 1)
			s.box(bquad{0, -1, l, z, top}, 0, false)
			s.box(bquad{0, z + w, l, depth + 1, top}, 0, false)
		}
	case "gap":
		if !can {
			l = (2.01 + any(0, 5)) * cs
			if r.P(0.5) {
				low := s.climb + 3*ch + any(0, 3)
				mid = func() { s.ground(bquad{-1, -1, l + 1, depth + 1, -low}, 1, 1) }
			}
		}
	case "ceiling":
		l = (2.5 + any(0, 8)) * cs
		y := s.height + 3*ch + any(0, 2)
		if !can {
			y = any(2*ch, s.height-3*ch)
		}
		top := math.Max(y+0.2, s.climb+4*ch)
		mid = func() {
			s.ground(bquad{0, 0, l, depth, 0}, 1, 1)
			s.box(bquad{0, -1, l, depth + 1, top}, y, true)
		}
	case "wall":
		l = any(0.05, 2)
		top := any(0, s.climb-2*ch)
		if !can {
			top = s.climb + 2*ch + any(0, 2)
		}
		mid = func() {
			s.ground(bquad{0, 0, l, depth, 0}, 1, 1)
			s.box(bquad{0, -1, l, depth + 1, top}, gen.Any(r, 0, -1.0), false)
		}
	}
	s.ground(bquad{-wa, 0, 0, depth, 0}, r.U(1, 2), r.U(1, 2))
	s.ground(bquad{l, 0, l + wb, depth, yb}, r.U(1, 2), r.U(1, 2))
	if mid != nil {
		mid()
	}
	s.turn(r.U(0, 3))
	s.finish(r)
	s.flat = false
	s.desc = append(s.desc, fmt.Sprintf("%s, passable: %v", kind, can))
	return s, passage{kind, can}
}

func (p passage) check(c *hx.Case, r *gen.R, s *bscene, m *detour.NavMesh, ok bool) {
	if !ok {
		c.Fatalf("the build fails\n%v", s)
	}
	var hs [2]*bhit
	var ps [2]v64
	for i := range hs {
		q := s.quads[i]
		ps[i] = v64{(q.x0 + q.x1) / 2, q.y, (q.z0 + q.z1) / 2}
		if !s.open(ps[i], q, s.openRadius()) {
			c.Label("not open")
			return
		}
		h, all := s.at(m, ps[i], q.y)
		if h == nil {
			if s.lonely(c, m) {
				c.Label("one-cell-region")
				return
			}
			c.Fatalf("open ground is not covered: %v: %v\n%v", ps[i], hits(all), s)
		}
		hs[i] = h
	}
	st, q := detour.NewNavMeshQuery(m, 4096)
	if detour.StatusFailed(st) {
		c.Fatalf("NewNavMeshQuery: %x", st)
	}
	path := make([]detour.PolyRef, 4096)
	for i := range hs {
		n, st := q.FindPath(hs[i].ref, hs[1-i].ref, ps[i].vec(), ps[1-i].vec(), everything{detour.NewStandardQueryFilter()}, path)
		if detour.StatusFailed(st) || n == 0 {
			c.Fatalf("FindPath: %x", st)
		}
		if got := path[n-1] == hs[1-i].ref; got != p.can {
			if p.can && s.lonely(c, m) {
				c.Label("one-cell-region")
				return
			}
			c.Fatalf("path from %v to %v: found %v, passable %v (%d polygons, status %x)\n%v", ps[i], ps[1-i], got, p.can, n, st, s)
		}
	}
	c.Label(p.kind)
	c.LabelIf(p.can, p.kind+" passable")
	c.Nontrivial(s.text, s.set)
	c.Sample("%v", s)
}
