package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/harness/gen"
	"verif/harness/hx"
)

// bruteNearest checks one nearest polygon query; it returns the answer.
func (s *scene) bruteNearest(c *hx.Case, q *detour.NavMeshQuery, pos, ext d3.Vec3, f detour.QueryFilter, fname string) (detour.PolyRef, *nearCand, []nearCand) {
	p0, e0 := to64(pos), to64(ext)
	st, ref, pt := q.FindNearestPoly(pos, ext, f)
	what := fmt.Sprintf("FindNearestPoly(%v, %v) on %s, filter %s", pos, ext, s.name, fname)
	if st != detour.Success {
		c.Fatalf("%s: status %x", what, uint32(st))
	}
	if to64(pos) != p0 || to64(ext) != e0 {
		c.Fatalf("%s: changed its arguments", what)
	}
	var cs []nearCand
	for i := range s.m.Tiles {
		t := &s.m.Tiles[i]
		if t.Header == nil {
			continue
		}
		cs = append(cs, nearCands(s.m, t, p0, e0, func(p *detour.Poly) bool { return f.PassFilter(0, t, p) })...)
	}
	g := checkNearest(c, what, cs, p0, ref)
	if ref == 0 {
		if pt != nil {
			c.Fatalf("%s: point %v without a polygon", what, pt)
		}
		return 0, nil, cs
	}
	if len(pt) != 3 {
		c.Fatalf("%s: found %x without a point", what, ref)
	}
	// the point is the closest one on that polygon
	tol := 1e-3 * (1 + scaleOf(p0)*0.02)
	x := to64(pt)
	if d := x.dist2D(g.pt); d > tol && math.Abs(x.dist2D(p0)-g.pt.dist2D(p0)) > tol*0.1 {
		c.Fatalf("%s: point %v on %x, expected %v", what, pt, ref, g.pt)
	}
	own := d3.NewVec3()
	if st := q.ClosestPointOnPoly(ref, pos, own, nil); detour.StatusFailed(st) || to64(own) != x {
		c.Fatalf("%s: point %v on %x, the closest point is %v", what, pt, ref, own)
	}
	return ref, g, cs
}

func TestC12(t *testing.T) {
	hx.Run(t, "nearest", "at least 3 polygons in the box of a query", 60000, 2000000, func(c *hx.Case) {
		r := gen.New(c.T)
		s := newScene(c, r, pathOpts)
		f, fname := randFilter(r, false, false)
		if r.P(0.4) {
			f, fname = detour.NewStandardQueryFilter(), "default"
		}
		q := newQuery(c, s.m, 64)
		for k := 0; k < 6; k++ {
			pos := s.point(c, r, s.pick(r), gen.Any(r, float32(0), 0, 0.5, 3, 10))
			if r.P(0.2) {
				// at a vertex or on an edge
				t, p := polyOf(c, s.m, s.pick(r))
				vs := vertsOf(t, p)
				i := r.U(0, len(vs)-1)
				pos = lerp64(vs[i], vs[(i+1)%len(vs)], float64(gen.Any(r, 0, 0.5, r.F(0, 1)))).vec()
			}
			ext := d3.Vec3{r.F(0, 4), r.F(0, 4), r.F(0, 4)}
			switch r.U(0, 5) {
			case 0:
				ext = d3.Vec3{0, r.F(0, 10), 0}
			case 1:
				ext = d3.Vec3{r.F(5, 40), r.F(5, 40), r.F(5, 40)}
			case 2:
				ext = d3.Vec3{r.F(0, 40), r.F(0, 0.5), r.F(0, 1)}
			case 3:
				ext = d3.Vec3{0.1, 0.1, 0.1}
			}
			if r.P(0.05) {
				// far beyond the mesh
				for i := range ext {
					if r.P(0.6) {
						ext[i] = gen.Any(r, float32(1e3), 1e5, 1e8, 1e12, 1e30, math.MaxFloat32)
					}
				}
			}
			ref, _, cs := s.bruteNearest(c, q, pos, ext, f, fname)
			if len(cs) >= 3 {
				c.Nontrivial(s.name, pos, ext, fname)
			}
			tiles := map[*detour.MeshTile]bool{}
			for i := range cs {
				t, _ := polyOf(c, s.m, cs[i].ref)
				tiles[t] = true
			}
			c.LabelIf(len(tiles) > 1, "box in several tiles")
			c.LabelIf(ref == 0, "nothing found")
			c.Sample("%s: %v within %v: %x out of %d", s.name, pos, ext, ref, len(cs))
		}
	})
	hx.Run(t, "index", "a mesh with a spatial index whose query box holds at least 2 polygons", 20000, 500000, func(c *hx.Case) {
		r := gen.New(c.T)
		w := gen.NewWorld(r, pathOpts)
		order := r.Perm(len(w.Tiles))
		a := worldScene(c, w, order)
		had := false
		for _, t := range w.Tiles {
			had = had || t.BV
			t.BV = !t.BV
		}
		b := worldScene(c, w, order)
		f, fname := randFilter(r, false, false)
		qa, qb := newQuery(c, a.m, 64), newQuery(c, b.m, 64)
		for k := 0; k < 4; k++ {
			pos := a.point(c, r, a.pick(r), gen.Any(r, float32(0), 1, 5))
			ext := d3.Vec3{r.F(0, 10), r.F(0, 4), r.F(0, 10)}
			ra, ga, cs := a.bruteNearest(c, qa, pos, ext, f, fname)
			rb, gb, _ := b.bruteNearest(c, qb, pos, ext, f, fname)
			// the boxes of the index are rounded up
			if ga != nil && gb != nil && ga.strict && gb.strict {
				if d := math.Abs(ga.d.lo - gb.d.lo); d > 2*measureTol(math.Max(ga.d.lo, gb.d.lo), scaleOf(to64(pos)))+ga.d.hi-ga.d.lo+gb.d.hi-gb.d.lo {
					c.Fatalf("%s: nearest to %v: %x (measure %v) and %x (%v) with the spatial indices swapped", a.name, pos, ra, ga.d, rb, gb.d)
				}
			}
			if had && len(cs) >= 2 {
				c.Nontrivial(a.name, pos, ext)
			}
		}
	})
}
