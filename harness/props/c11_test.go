package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/harness/gen"
	"verif/harness/hx"
)

// costCall is one call of QueryFilter.Cost.
type costCall struct {
	pa, pb          v64
	prev, cur, next detour.PolyRef
	cost            float32
}

// recFilter records the cost calls.
type recFilter struct {
	detour.QueryFilter
	c     *hx.Case
	s     *scene
	calls []costCall
}

func (f *recFilter) Cost(pa, pb d3.Vec3, prevRef detour.PolyRef, prevTile *detour.MeshTile, prevPoly *detour.Poly,
	curRef detour.PolyRef, curTile *detour.MeshTile, curPoly *detour.Poly,
	nextRef detour.PolyRef, nextTile *detour.MeshTile, nextPoly *detour.Poly) float32 {
	r := f.QueryFilter.Cost(pa, pb, prevRef, prevTile, prevPoly, curRef, curTile, curPoly, nextRef, nextTile, nextPoly)
	check := func(name string, ref detour.PolyRef, t *detour.MeshTile, p *detour.Poly) {
		if ref == 0 {
			return
		}
		if t2, p2 := polyOf(f.c, f.s.m, ref); t2 != t || p2 != p {
			f.c.Fatalf("Cost: the %s tile or polygon is not that of %x", name, ref)
		}
	}
	check("previous", prevRef, prevTile, prevPoly)
	check("current", curRef, curTile, curPoly)
	check("next", nextRef, nextTile, nextPoly)
	f.calls = append(f.calls, costCall{to64(pa), to64(pb), prevRef, curRef, nextRef, r})
	return r
}

// rayStep is a polygon crossed by a ray.
type rayStep struct {
	ref  detour.PolyRef
	edge int     // edge left through
	t    float64 // where
	at   v64     // on the edge
}

// rayWalk follows a ray in float64. hint is the path of the implementation,
// taken where two links allow to go on. sure is false when the walk depends on
// rounding.
func (s *scene) rayWalk(c *hx.Case, start detour.PolyRef, a, b v64, f detour.QueryFilter, hint []detour.PolyRef) (steps []rayStep, end bool, sure bool) {
	ref := start
	dir := b.sub(a)
	l := math.Hypot(dir[0], dir[2])
	if l < 1e-2 {
		return nil, false, false
	}
	eps := 2e-3 + 4e-6*math.Max(scaleOf(a), scaleOf(b))
	for len(steps) < 4096 {
		t, p := polyOf(c, s.m, ref)
		vs := vertsOf(t, p)
		lo, hi, hiE := 0.0, 1.0, -1
		for k := range vs {
			u, v := vs[k], vs[(k+1)%len(vs)]
			e := v.sub(u)
			el := math.Hypot(e[0], e[2])
			d := dir[2]*e[0] - dir[0]*e[2]
			n := e[2]*(a[0]-u[0]) - e[0]*(a[2]-u[2])
			// n/el: depth of a inside of the edge
			if math.Abs(d) < 1e-4*l*el {
				if n < eps*el+1e-4*l*el {
					return nil, false, false
				}
				continue
			}
			x := n / d
			if d < 0 {
				lo = math.Max(lo, x)
			} else if x < hi {
				hi, hiE = x, k
			}
		}
		if hi < lo {
			return nil, false, false
		}
		if ref == start {
			if inside2D(a, vs) < eps {
				return nil, false, false
			}
		}
		if hiE < 0 {
			if inside2D(b, vs) < eps {
				return nil, false, false
			}
			return append(steps, rayStep{ref, -1, 1, b}), true, true
		}
		u, v := vs[hiE], vs[(hiE+1)%len(vs)]
		x := lerp64(a, b, hi)
		el := u.dist2D(v)
		w := ((x[0]-u[0])*(v[0]-u[0]) + (x[2]-u[2])*(v[2]-u[2])) / (el * el)
		sin := math.Abs(dir[2]*(v[0]-u[0])-dir[0]*(v[2]-u[2])) / (l * el)
		if w*el < eps/sin || (1-w)*el < eps/sin || (1-hi)*l < eps/sin {
			return nil, false, false
		}
		// the height along the edge
		x[1] = u[1] + w*(v[1]-u[1])
		steps = append(steps, rayStep{ref, hiE, hi, x})
		var next, maybe []detour.PolyRef
		for _, k := range links(c, t, p) {
			if int(k.Edge) != hiE || !s.pass(c, k.Ref, f) {
				continue
			}
			if _, p2 := polyOf(c, s.m, k.Ref); p2.Type() == offMesh {
				continue
			}
			if k.Side == 0xff || k.BMin == 0 && k.BMax == 255 {
				next = append(next, k.Ref)
				continue
			}
			y := w * 255
			slack := eps / sin / el * 255
			if y > float64(k.BMin)+slack && y < float64(k.BMax)-slack {
				next = append(next, k.Ref)
			} else if y > float64(k.BMin)-slack && y < float64(k.BMax)+slack {
				maybe = append(maybe, k.Ref)
			}
		}
		if len(maybe) > 0 {
			return nil, false, false
		}
		if len(next) == 0 {
			return steps, false, true
		}
		ref = next[0]
		if k := len(steps); k < len(hint) {
			for _, x := range next {
				if x == hint[k] {
					ref = x
				}
			}
		}
		// the edge of a neighbour tile need not match
		t2, p2 := polyOf(c, s.m, ref)
		if t2 != t && dist2DPoly(x, vertsOf(t2, p2)) > 1e-6+1e-7*scaleOf(x) {
			return nil, false, false
		}
	}
	c.Fatalf("endless ray")
	return
}

func TestC11(t *testing.T) {
	hx.Run(t, "raycast", "a ray that crosses at least 2 polygon borders without passing within rounding errors of a corner", 250000, 4000000, func(c *hx.Case) {
		r := gen.New(c.T)
		s := newScene(c, r, pathOpts)
		f, fname := randFilter(r, false, false)
		if r.P(0.3) {
			f = detour.NewStandardQueryFilter()
			fname = "default"
		}
		q := newQuery(c, s.m, 64)
		for k := 0; k < 6; k++ {
			start := s.pick(r)
			a := s.point(c, r, start, 0)
			b := s.point(c, r, s.pick(r), 0)
			switch r.U(0, 5) {
			case 0:
				b = d3.Vec3{a[0] + r.F(-30, 30), a[1] + r.F(-2, 2), a[2] + r.F(-30, 30)}
			case 1:
				b = d3.Vec3{a[0] + r.F(-3, 3), a[1], a[2]}
			case 2:
				b = d3.Vec3{a[0], a[1], a[2] + r.F(-30, 30)}
			}
			size := gen.Any(r, 256, 256, 256, 256, r.U(0, 6))
			opts := gen.Any(r, 0, detour.RaycastUseCosts)
			prev := gen.Any(r, 0, s.pick(r))
			a0, b0 := d3.NewVec3From(a), d3.NewVec3From(b)
			rf := &recFilter{QueryFilter: f, c: c, s: s}
			hit := detour.RaycastHit{Path: make([]detour.PolyRef, size), MaxPath: size, T: 0.123, PathCost: 77, PathCount: 99,
				HitEdgeIndex: 55, HitNormal: gen.Any(r, nil, d3.Vec3{9, 9, 9})}
			st := q.Raycast(start, a, b, rf, opts, &hit, prev)
			what := fmt.Sprintf("raycast from %x %v to %v with buffer of %d, options %d on %s, filter %s: T %v, %d polygons %x, edge %d, normal %v, cost %v, status %x",
				start, a, b, size, opts, s.name, fname, hit.T, hit.PathCount, hit.Path[:max(0, min(hit.PathCount, size))], hit.HitEdgeIndex, hit.HitNormal, hit.PathCost, uint32(st))
			if !detour.StatusSucceed(st) || a != nil && (a[0] != a0[0] || a[1] != a0[1] || a[2] != a0[2] || b[0] != b0[0] || b[1] != b0[1] || b[2] != b0[2]) {
				c.Fatalf("%s: failed or changed its arguments", what)
			}
			if hit.PathCount < 0 || hit.PathCount > size || hit.T != math.MaxFloat32 && !(hit.T >= 0 && hit.T <= 1) {
				c.Fatalf("%s", what)
			}
			n := hit.PathCount
			path := hit.Path[:n]
			for i := range path {
				if i == 0 {
					if path[0] != start {
						c.Fatalf("%s: does not begin at the start polygon", what)
					}
					continue
				}
				ok := false
				for _, e := range s.edges(c, path[i-1]) {
					ok = ok || e.to == path[i]
				}
				if !ok || !s.pass(c, path[i], f) {
					c.Fatalf("%s: step to %x", what, path[i])
				}
			}
			if opts == 0 && (hit.PathCost != 0 || len(rf.calls) != 0) {
				c.Fatalf("%s: costs", what)
			}

			steps, end, sure := s.rayWalk(c, start, to64(a), to64(b), f, path)
			if !sure {
				c.Label("rounding")
				continue
			}
			want := make([]detour.PolyRef, len(steps))
			for i := range steps {
				want[i] = steps[i].ref
			}
			what = fmt.Sprintf("%s; expected path %x", what, want)
			if n != min(size, len(want)) {
				c.Fatalf("%s: %d polygons", what, len(want))
			}
			for i := range path {
				if path[i] != want[i] {
					c.Fatalf("%s: polygon %d", what, i)
				}
			}
			if st != flagged(false, false, len(want) > size) {
				c.Fatalf("%s: %d polygons", what, len(want))
			}
			last := steps[len(steps)-1]
			dir := to64(b).sub(to64(a))
			l := math.Hypot(dir[0], dir[2])
			if end {
				if hit.T != math.MaxFloat32 {
					c.Fatalf("%s: the end is reached", what)
				}
			} else {
				t, p := polyOf(c, s.m, last.ref)
				vs := vertsOf(t, p)
				u, v := vs[last.edge], vs[(last.edge+1)%len(vs)]
				e := v.sub(u)
				sin := math.Abs(dir[2]*e[0]-dir[0]*e[2]) / (l * math.Hypot(e[0], e[2]))
				if hit.T > 1 || math.Abs(float64(hit.T)-last.t)*l > (1e-4+2e-6*scaleOf(last.at))/sin {
					c.Fatalf("%s: wall at %v", what, last.t)
				}
				if hit.HitEdgeIndex != last.edge {
					c.Fatalf("%s: wall is edge %d", what, last.edge)
				}
				nn := v64{e[2], 0, -e[0]}
				nn = nn.mul(1 / nn.len())
				if len(hit.HitNormal) < 3 || to64(hit.HitNormal).dist(nn) > 1e-4*(1+scaleOf(u)*1e-2/e.len()) {
					c.Fatalf("%s: normal should be %v", what, nn)
				}
			}
			if opts != 0 {
				// cost of the part travelled
				at, cost := to64(a), 0.0
				if len(rf.calls) != len(steps) {
					c.Fatalf("%s: %d costs asked for", what, len(rf.calls))
				}
				tol := 1e-3
				for i, x := range steps {
					_, p := polyOf(c, s.m, x.ref)
					d := at.dist(x.at)
					cost += d * float64(f.AreaCost(int32(p.Area())))
					at = x.at
					call := rf.calls[i]
					t, p := polyOf(c, s.m, x.ref)
					if vs := vertsOf(t, p); x.edge >= 0 {
						e := vs[(x.edge+1)%len(vs)].sub(vs[x.edge])
						sin := math.Abs(dir[2]*e[0]-dir[0]*e[2]) / (l * math.Hypot(e[0], e[2]))
						tol += (1e-4 + 2e-6*scaleOf(x.at)) / sin * float64(f.AreaCost(int32(p.Area()))) * (1 + math.Abs(e[1])/math.Hypot(e[0], e[2]))
						if x.at.dist(call.pb) > 1e-3+2e-6*scaleOf(x.at)/sin*(1+math.Abs(e[1])/math.Hypot(e[0], e[2])) {
							c.Fatalf("%s: cost %d is up to %v, the border is crossed at %v", what, i, call.pb, x.at)
						}
					}
					pr := prev
					if i > 0 {
						pr = steps[i-1].ref
					}
					if call.cur != x.ref || call.prev != pr {
						c.Fatalf("%s: cost %d is for %x coming from %x", what, i, call.cur, call.prev)
					}
					next := x.ref
					if i+1 < len(steps) {
						next = steps[i+1].ref
					} else if !end {
						next = 0
					}
					if call.next != next {
						c.Fatalf("%s: cost %d is towards %x, not %x", what, i, call.next, next)
					}
				}
				if math.Abs(float64(hit.PathCost)-cost) > tol*4+1e-4*cost {
					c.Fatalf("%s: cost should be %v", what, cost)
				}
			}

			// the short form
			nrm := d3.Vec3{7, 7, 7}
			path2 := make([]detour.PolyRef, size)
			n2, t2, st2 := q.Raycast2(start, a, b, f, nrm, path2, size)
			if n2 != n || t2 != hit.T || st2 != st || !end && to64(nrm) != to64(hit.HitNormal) {
				c.Fatalf("%s: Raycast2: %d polygons, T %v, normal %v, status %x", what, n2, t2, nrm, uint32(st2))
			}
			for i := range path {
				if path2[i] != path[i] {
					c.Fatalf("%s: Raycast2: path %x", what, path2)
				}
			}
			if len(steps) >= 3 {
				c.Nontrivial(s.name, start, a0, b0)
			}
			c.LabelIf(end, "reaches the end")
			c.LabelIf(!end, "hits a wall")
			cross := false
			for i := 1; i < len(steps); i++ {
				t1, _ := polyOf(c, s.m, steps[i-1].ref)
				t2, _ := polyOf(c, s.m, steps[i].ref)
				cross = cross || t1 != t2
			}
			c.LabelIf(cross, "crosses tiles")
			c.LabelIf(len(want) > size, "small buffer")
			c.Sample("%s: from %v to %v: %x, T %v", s.name, a0, b0, path, hit.T)
		}
	})
}
