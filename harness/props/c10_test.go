package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/harness/gen"
	"verif/harness/hx"
)

type portal struct{ l, r v64 }

// corridorPortals lists the borders crossed by a corridor.
func (s *scene) corridorPortals(c *hx.Case, path []detour.PolyRef) ([]portal, bool) {
	var ps []portal
	for i := 0; i+1 < len(path); i++ {
		found := false
		for _, e := range s.edges(c, path[i]) {
			if e.to != path[i+1] {
				continue
			}
			as, bs := s.portals(c, path[i], e.link)
			if len(as) == 0 {
				return nil, false // the tile of the connection ran out of links
			}
			ps = append(ps, portal{as[0], bs[0]})
			found = true
			break
		}
		if !found {
			c.Fatalf("corridor %x is broken at %d", path, i)
		}
	}
	return ps, true
}

// segDist2D is the distance between two segments in the (x,z) plane.
func segDist2D(a, b, p, q v64) float64 {
	d1, d2 := cross2D(a, b, p), cross2D(a, b, q)
	d3, d4 := cross2D(p, q, a), cross2D(p, q, b)
	if (d1 > 0) != (d2 > 0) && (d3 > 0) != (d4 > 0) {
		return 0
	}
	best := math.Inf(1)
	for _, x := range [][3]v64{{p, a, b}, {q, a, b}, {a, p, q}, {b, p, q}} {
		_, d := closestSeg2D(x[0], x[1], x[2])
		best = math.Min(best, d)
	}
	return best
}

// shortest is the length of the shortest path through the portals, which may be
// missed by eps.
func shortest(start, end v64, ps []portal, eps float64) float64 {
	pts := []v64{start}
	at := []int{-1}
	for i, p := range ps {
		pts, at = append(pts, p.l, p.r), append(at, i, i)
	}
	pts, at = append(pts, end), append(at, len(ps))
	best := make([]float64, len(pts))
	for i := range best {
		best[i] = math.Inf(1)
	}
	best[0] = 0
	for i := range pts {
		if math.IsInf(best[i], 1) {
			continue
		}
		for j := i + 1; j < len(pts); j++ {
			if at[j] == at[i] {
				continue
			}
			d := best[i] + pts[i].dist2D(pts[j])
			if d >= best[j] {
				continue
			}
			ok := true
			for k := at[i] + 1; k < at[j] && ok; k++ {
				ok = segDist2D(pts[i], pts[j], ps[k].l, ps[k].r) <= eps
			}
			if ok {
				best[j] = d
			}
		}
	}
	return best[len(best)-1]
}

// sameLine tells whether a corner lies on the line of the border crossed just before
// or after it, like when a polygon is left where it is entered. The corners of
// the straight path are not well defined then.
func sameLine(start, end v64, ps []portal) bool {
	// the side of a line through points that differ in the last bits is noise
	pts := []v64{start, end}
	for _, p := range ps {
		pts = append(pts, p.l, p.r)
	}
	for i, p := range pts {
		for _, q := range pts[:i] {
			dx, dz := math.Abs(p[0]-q[0]), math.Abs(p[2]-q[2])
			if dx > 0 && dx < 1e-3 || dz > 0 && dz < 1e-3 {
				return true
			}
		}
	}
	for i, p := range ps {
		d := p.r.sub(p.l)
		if d.len() < 1e-3 {
			continue
		}
		if i > 0 && (p.l.dist2D(ps[i-1].r) < 1e-2 && p.r.dist2D(ps[i-1].l) < 1e-2 || p.l.dist2D(ps[i-1].l) < 1e-2 && p.r.dist2D(ps[i-1].r) < 1e-2) {
			return true // back to where it came from
		}
		near := []v64{start, end}
		if i > 0 {
			near = []v64{ps[i-1].l, ps[i-1].r, end}
		}
		if i+1 < len(ps) {
			near = append(near[:len(near)-1], ps[i+1].l, ps[i+1].r)
		}
		for _, x := range near {
			if x.dist2D(p.l) > 1e-3 && x.dist2D(p.r) > 1e-3 && math.Abs(cross2D(p.l, p.r, x)) < 5e-3*d.len() {
				return true
			}
		}
	}
	return false
}

// along tells whether a leg of a polyline runs along a border, so that it has no
// defined crossing point.
func along(pts []v64, ps []portal) bool {
	for i := 1; i < len(pts); i++ {
		u := pts[i].sub(pts[i-1])
		for _, p := range ps {
			v := p.r.sub(p.l)
			if v.len() > 1e-3 && math.Abs(u[0]*v[2]-u[2]*v[0]) < 2e-2*u.len()*v.len() && segDist2D(pts[i-1], pts[i], p.l, p.r) < 1e-2 {
				return true
			}
		}
	}
	return false
}

// clamped is where a position is clamped to on the border of a polygon.
func (s *scene) clamped(c *hx.Case, ref detour.PolyRef, pos v64) (v64, bool) {
	t, p := polyOf(c, s.m, ref)
	vs := vertsOf(t, p)
	if inside2D(pos, vs) >= 0 {
		return pos, true
	}
	best, res := math.Inf(1), pos
	for k := range vs {
		a, b := vs[k], vs[(k+1)%len(vs)]
		u, d := closestSeg2D(pos, a, b)
		if d < best {
			best, res = d, lerp64(a, b, u)
		}
	}
	return res, false
}

type straight struct {
	pts   []v64
	flags []uint8
	refs  []detour.PolyRef
	st    detour.Status
}

func straightPath(c *hx.Case, q *detour.NavMeshQuery, a, b d3.Vec3, path []detour.PolyRef, size int, options int32) straight {
	sp := make([]d3.Vec3, size)
	for i := range sp {
		sp[i] = d3.NewVec3()
	}
	fl, rf := make([]uint8, size), make([]detour.PolyRef, size)
	n, st := q.FindStraightPath(a, b, path, sp, fl, rf, options)
	if n < 0 || n > size {
		c.Fatalf("FindStraightPath: %d corners in a buffer of %d", n, size)
	}
	res := straight{flags: fl[:n], refs: rf[:n], st: st}
	for i := 0; i < n; i++ {
		res.pts = append(res.pts, to64(sp[i]))
	}
	return res
}

func (p *straight) length() float64 {
	l := 0.0
	for i := 1; i < len(p.pts); i++ {
		l += p.pts[i-1].dist2D(p.pts[i])
	}
	return l
}

func TestC10(t *testing.T) {
	hx.Run(t, "funnel", "a corridor of at least 4 polygons whose straight path has a corner", 144000, 4800000, func(c *hx.Case) {
		r := gen.New(c.T)
		o := pathOpts
		if r.Bool("onetile") {
			o.MaxNx, o.MaxNy, o.MaxCells = 1, 1, 8
		}
		s := newScene(c, r, o)
		f, _ := randFilter(r, false, false)
		q := newQuery(c, s.m, 2048)
		a, b := s.farEnds(r, s.pick(r), s.pick(r))
		spread := gen.Any(r, float32(0), 0, 0, 1)
		pa, pb := s.point(c, r, a, spread), s.point(c, r, b, spread)
		buf := make([]detour.PolyRef, 1000)
		n, _ := q.FindPath(a, b, pa, pb, f, buf)
		path := buf[:n]
		if _, p := polyOf(c, s.m, path[n-1]); p.Type() == offMesh {
			path = path[:n-1]
			n--
		}
		if n > 300 {
			path, n = path[:300], 300
		}
		c.LabelIf(n > 100, "corridor of more than 100 polygons")
		what := fmt.Sprintf("straight path from %v to %v through %x on %s", pa, pb, path, s.name)
		ps, ok := s.corridorPortals(c, path)
		if !ok {
			c.Label("half a connection")
			return
		}
		start, sin := s.clamped(c, path[0], to64(pa))
		end, ein := s.clamped(c, path[n-1], to64(pb))
		scale := math.Max(scaleOf(start), scaleOf(end))
		p := straightPath(c, q, pa, pb, path, 3*n+8, 0)
		if p.st != detour.Success || len(p.pts) < 1 {
			c.Fatalf("%s: %d corners, status %x", what, len(p.pts), uint32(p.st))
		}
		k := len(p.pts)
		okEnd := func(got, want, pos v64, in bool, name string) {
			if got.dist(want) < 1e-4*(1+scale*0.1) {
				return
			}
			if !in && nearly(got.dist2D(pos), want.dist2D(pos), 1e-5+1e-6*scale) && got.dist2D(want) < 0.2 {
				return
			}
			c.Fatalf("%s: %s at %v, expected %v", what, name, got, want)
		}
		okEnd(p.pts[0], start, to64(pa), sin, "start")
		okEnd(p.pts[k-1], end, to64(pb), ein, "end")

		shifted := 0.0
		// an end of a connection that reaches two layers lies on one of them only
		for i, x := range ps {
			for _, ref := range path[i : i+2] {
				if t, po := polyOf(c, s.m, ref); x.l == x.r && po.Type() != offMesh {
					shifted = math.Max(shifted, dist2DPoly(x.l, vertsOf(t, po)))
				}
			}
		}
		if shifted > 1e-2 {
			c.Label("a connection to two layers")
			return
		}

		// as short as possible within the corridor
		got := p.length()
		tol := 2e-3*(1+got) + 1e-5*scale
		lo, hi := shortest(p.pts[0], p.pts[k-1], ps, 2e-3), shortest(p.pts[0], p.pts[k-1], ps, 1e-6)
		degenerate := sameLine(p.pts[0], p.pts[k-1], ps)
		c.LabelIf(degenerate, "collinear borders")
		if got > hi+tol && !degenerate {
			c.Fatalf("%s: length %v, the corridor allows %v: %v; borders %v", what, got, hi, p.pts, ps)
		}
		if got < lo-tol && !degenerate {
			c.Fatalf("%s: length %v, no path through the corridor is shorter than %v: %v; borders %v", what, got, lo, p.pts, ps)
		}
		// the part of an edge shared with another tile is rounded to 1/255
		round := 0.0
		for i := 0; i+1 < n; i++ {
			t, po := polyOf(c, s.m, path[i])
			if t2, _ := polyOf(c, s.m, path[i+1]); t != t2 {
				for j, vs := 0, vertsOf(t, po); j < len(vs); j++ {
					round = math.Max(round, vs[j].dist2D(vs[(j+1)%len(vs)])/255)
				}
			}
		}
		s.checkInside(c, what, path, p.pts, 1.2e-2+1e-5*scale+round+shifted)

		// flags and references
		ncon := 0
		nearStart := false
		for i, x := range path {
			if _, y := polyOf(c, s.m, x); y.Type() == offMesh {
				ncon++
				// one that starts at a corner of the path is not told apart from it
				for j, x := range p.pts {
					nearStart = nearStart || p.flags[j] != 4 && x.dist2D(ps[i-1].l) < 5e-3
				}
			}
		}
		gotCon := 0
		for i := range p.pts {
			fl := p.flags[i]
			if fl != 0 && fl != 1 && fl != 2 && fl != 4 || fl == 2 != (i == k-1) || fl == 1 && i != 0 {
				c.Fatalf("%s: flags %v", what, p.flags)
			}
			if (fl == 2) != (p.refs[i] == 0) {
				c.Fatalf("%s: flags %v, references %x", what, p.flags, p.refs)
			}
			if fl == 4 {
				gotCon++
				if _, y := polyOf(c, s.m, p.refs[i]); y.Type() != offMesh {
					c.Fatalf("%s: corner %d is marked as a connection, its polygon %x is none", what, i, p.refs[i])
				}
			}
		}
		if gotCon != ncon && !nearStart && !degenerate {
			c.Fatalf("%s: %d corners are marked as connections, the corridor has %d: %v; borders %v", what, gotCon, ncon, p.pts, ps)
		}
		clear := true
		for _, x := range ps {
			clear = clear && p.pts[0].dist2D(x.l) > 5e-3 && p.pts[0].dist2D(x.r) > 5e-3
		}
		if clear && p.pts[0].dist2D(end) > 5e-3 && (p.flags[0] != 1 || p.refs[0] != path[0]) {
			c.Fatalf("%s: flags %v, references %x", what, p.flags, p.refs)
		}
		s.checkEntered(c, what, path, ps, &p, scale)

		// options
		for _, opt := range []uint8{detour.StraightPathAreaCrossings, detour.StraightPathAllCrossings} {
			x := straightPath(c, q, pa, pb, path, 3*n+8, int32(opt))
			if x.st != detour.Success {
				c.Fatalf("%s: option %d: status %x", what, opt, uint32(x.st))
			}
			if degenerate || along(p.pts, ps) {
				c.Label("a leg along a border")
				continue
			}
			if !nearly(x.length(), got, tol) {
				c.Fatalf("%s: length %v with option %d, %v without: %v, %v; borders %v", what, x.length(), opt, got, x.pts, p.pts, ps)
			}
			m := 0
			for _, y := range x.pts {
				for m < k && y.dist(p.pts[m]) < 1e-3*(1+scale*0.01) {
					m++
				}
			}
			if m < k {
				c.Fatalf("%s: option %d: corner %v is missing from %v", what, opt, p.pts[m], x.pts)
			}
			s.checkEntered(c, what+fmt.Sprintf(", option %d", opt), path, ps, &x, scale)
			for i, po := range ps {
				_, p1 := polyOf(c, s.m, path[i])
				_, p2 := polyOf(c, s.m, path[i+1])
				if opt == detour.StraightPathAreaCrossings && p1.Area() == p2.Area() {
					continue
				}
				on, leg := false, -1
				for j, y := range x.pts {
					_, d := closestSeg2D(y, po.l, po.r)
					on = on || d < 5e-3+1e-5*scale
					if j > 0 && segDist2D(x.pts[j-1], y, po.l, po.r) < 1e-3 {
						leg = j
					}
				}
				if on || leg < 0 {
					continue
				}
				// nearly parallel crossings have no defined point
				u, v := x.pts[leg].sub(x.pts[leg-1]), po.r.sub(po.l)
				if math.Abs(u[0]*v[2]-u[2]*v[0]) > 1e-3*u.len()*v.len() {
					c.Fatalf("%s: option %d: nothing on border %d (%v to %v): %v", what, opt, i, po.l, po.r, x.pts)
				}
			}
		}
		if n >= 4 && k > 2 {
			c.Nontrivial(s.name, path[0], path[n-1], pa, pb)
		}
		c.LabelIf(ncon > 0, "corridor over an off-mesh connection")
		c.LabelIf(!sin || !ein, "clamped ends")
		c.Sample("%s: %d polygons, %d corners, length %.4f (shortest %.4f)", s.name, n, k, got, hi)

		// small buffers
		opt := int32(gen.Any(r, 0, 1, 2))
		full := straightPath(c, q, pa, pb, path, 3*n+8, opt)
		size := r.U(1, len(full.pts))
		small := straightPath(c, q, pa, pb, path, size, opt)
		if len(small.pts) != size {
			c.Fatalf("%s: %d corners in a buffer of %d, the straight path has %d", what, len(small.pts), size, len(full.pts))
		}
		for i := 0; i < size; i++ {
			if small.pts[i] != full.pts[i] || i+1 < size && (small.flags[i] != full.flags[i] || small.refs[i] != full.refs[i]) {
				c.Fatalf("%s: buffer of %d: corner %d is %v flags %d polygon %x, otherwise %v flags %d polygon %x", what, size, i,
					small.pts[i], small.flags[i], small.refs[i], full.pts[i], full.flags[i], full.refs[i])
			}
		}
		too := detour.StatusDetail(small.st, detour.BufferTooSmall)
		if small.st != flagged(false, false, too) || !too && size < len(full.pts) {
			c.Fatalf("%s: buffer of %d for %d corners: status %x", what, size, len(full.pts), uint32(small.st))
		}
		if too && size == len(full.pts) && !degenerate && !along(full.pts, ps) {
			near := false
			for _, x := range ps {
				last := full.pts[len(full.pts)-1]
				near = near || last.dist2D(x.l) < 1e-2 || last.dist2D(x.r) < 1e-2
			}
			_, dl := closestSeg2D(end, ps0(ps).l, ps0(ps).r)
			if !near && dl > 1e-2 && start.dist2D(end) > 1e-2 {
				c.Fatalf("%s: a buffer of %d, which is enough, is said to be too small (status %x): %v; borders %v", what, size, uint32(small.st), full.pts, ps)
			}
		}

		// broken corridors
		if n >= 2 && r.P(0.3) {
			at := r.U(1, n-1)
			bad := detour.PolyRef(0)
			for k := 0; k < 10 && bad == 0; k++ {
				x := s.pick(r)
				adj := false
				for _, e := range s.edges(c, path[at-1]) {
					adj = adj || e.to == x
				}
				if !adj {
					bad = x
				}
			}
			if bad != 0 {
				broken := append([]detour.PolyRef{}, path...)
				broken[at] = bad
				x := straightPath(c, q, pa, pb, broken, 3*n+8, int32(gen.Any(r, 0, 1, 2)))
				if x.st != flagged(true, false, false) {
					c.Fatalf("%s: corridor %x is broken at %d: status %x", what, broken, at, uint32(x.st))
				}
				want, in := s.clamped(c, broken[at-1], to64(pb))
				okEnd(x.pts[len(x.pts)-1], want, to64(pb), in, "end of a broken corridor")
				c.Label("broken corridor")
			}
		}
	})
}

func ps0(ps []portal) portal {
	if len(ps) == 0 {
		return portal{v64{1e9, 0, 1e9}, v64{1e9, 0, 1e9}}
	}
	return ps[len(ps)-1]
}

// checkInside checks that a polyline goes through the corridor polygons in order.
func (s *scene) checkInside(c *hx.Case, what string, path []detour.PolyRef, pts []v64, tol float64) {
	k := 0
	for i := 1; i < len(pts); i++ {
		const m = 12
		for j := 0; j <= m; j++ {
			p := lerp64(pts[i-1], pts[i], float64(j)/m)
			for {
				t, po := polyOf(c, s.m, path[k])
				d := 0.0
				if vs := vertsOf(t, po); po.Type() == offMesh {
					_, d = closestSeg2D(p, vs[0], vs[1])
				} else {
					d = dist2DPoly(p, vs)
				}
				if d <= tol {
					break
				}
				if k++; k == len(path) {
					c.Fatalf("%s: leaves the corridor at %v: %v", what, p, pts)
				}
			}
		}
	}
}

// checkEntered checks that each corner lies on the border to the polygon it says
// is entered there.
func (s *scene) checkEntered(c *hx.Case, what string, path []detour.PolyRef, ps []portal, p *straight, scale float64) {
	k := 0
	for i := range p.pts {
		if p.refs[i] == 0 || p.flags[i] == 1 {
			continue
		}
		ok := false
		for j := k + 1; j < len(path); j++ {
			if path[j] != p.refs[i] {
				continue
			}
			if _, d := closestSeg2D(p.pts[i], ps[j-1].l, ps[j-1].r); d < 5e-3+1e-5*scale {
				ok, k = true, j-1
				break
			}
		}
		if !ok {
			c.Fatalf("%s: corner %d at %v is not on the border to %x, the polygon it enters: %v %x", what, i, p.pts[i], p.refs[i], p.pts, p.refs)
		}
	}
}
