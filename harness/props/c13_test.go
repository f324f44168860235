package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/harness/gen"
	"verif/harness/hx"
)

// polyIndex is the index of a polygon in its tile.
func polyIndex(t *detour.MeshTile, p *detour.Poly) int {
	for i := range t.Polys {
		if &t.Polys[i] == p {
			return i
		}
	}
	return -1
}

// probe draws a position near a polygon.
func probe(c *hx.Case, r *gen.R, s *scene, ref detour.PolyRef) (d3.Vec3, string) {
	t, p := polyOf(c, s.m, ref)
	vs := vertsOf(t, p)
	i := r.U(0, len(vs)-1)
	a, b := vs[i], vs[(i+1)%len(vs)]
	dy := gen.Any(r, 0, 0, float64(r.F(-5, 5)))
	switch r.U(0, 8) {
	case 0: // a vertex
		a[1] += dy
		return a.vec(), "vertex"
	case 1: // on an edge
		x := lerp64(a, b, float64(r.F(0, 1)))
		x[1] += dy
		return x.vec(), "edge"
	case 2: // beyond an edge
		x := lerp64(a, b, float64(r.F(-0.5, 1.5)))
		d := b.sub(a)
		if l := math.Hypot(d[0], d[2]); l > 0 {
			k := float64(gen.Any(r, r.F(0, 0.01), r.F(0, 1), r.F(0, 20)))
			x[0] -= d[2] / l * k
			x[2] += d[0] / l * k
		}
		x[1] += dy
		return x.vec(), "beyond an edge"
	case 3: // inside a detail triangle, or on its border
		k := polyIndex(t, p)
		if p.Type() != offMesh && t.DetailMeshes[k].TriCount > 0 {
			tr := detailTri(t, k, uint8(r.U(0, int(t.DetailMeshes[k].TriCount)-1)))
			u, v := float64(r.F(0, 1)), float64(r.F(0, 1))
			if u+v > 1 {
				u, v = 1-u, 1-v
			}
			if r.P(0.3) {
				u = 0
			}
			x := tr[0].add(tr[1].sub(tr[0]).mul(u)).add(tr[2].sub(tr[0]).mul(v))
			x[1] += dy
			return x.vec(), "detail triangle"
		}
	case 4: // anywhere
		x := s.point(c, r, s.pick(r), 30)
		return x, "anywhere"
	}
	x := to64(s.point(c, r, ref, 0))
	x[1] += dy
	return x.vec(), "inside"
}

func TestC13(t *testing.T) {
	hx.Run(t, "closest", "a position outside a polygon, or over one that has a detail mesh", 60000, 2500000, func(c *hx.Case) {
		r := gen.New(c.T)
		s := newScene(c, r, pathOpts)
		q := newQuery(c, s.m, 64)
		for k := 0; k < 12; k++ {
			ref := s.all[r.U(0, len(s.all)-1)]
			pos, kind := probe(c, r, s, ref)
			t, p := polyOf(c, s.m, ref)
			vs := vertsOf(t, p)
			x := to64(pos)
			// the result does not depend on what was in the result variables
			junk := func() (d3.Vec3, bool) {
				return d3.Vec3{r.F(-9, 9), r.F(-9, 9), r.F(-9, 9)}, r.P(0.5)
			}
			cl, over := junk()
			st := q.ClosestPointOnPoly(ref, pos, cl, &over)
			what := fmt.Sprintf("ClosestPointOnPoly(%x, %v) [%s] on %s: %v, over %v; polygon %v", ref, pos, kind, s.name, cl, over, vs)
			if st != detour.Success || to64(pos) != x {
				c.Fatalf("%s: status %x", what, uint32(st))
			}
			cl2, _ := junk()
			if st := q.ClosestPointOnPoly(ref, pos, cl2, nil); detour.StatusFailed(st) || to64(cl2) != to64(cl) {
				c.Fatalf("%s: %v without the indication", what, cl2)
			}
			scale := math.Max(scaleOf(x), scaleOf(vs[0]))
			tol := 1e-3 * (1 + scale*0.02)
			got := to64(cl)
			if p.Type() == offMesh {
				d := vs[1].sub(vs[0])
				u := got.sub(vs[0])
				l := d.len()
				w := 0.0
				if l > 0 {
					w = (u[0]*d[0] + u[1]*d[1] + u[2]*d[2]) / (l * l)
				}
				if over || got.dist(lerp64(vs[0], vs[1], w)) > tol || w < -1e-3 || w > 1+1e-3 {
					c.Fatalf("%s: not on the connection", what)
				}
				// monotone: nearer to the end it lies nearer to
				d0, d1 := x.dist(vs[0]), x.dist(vs[1])
				if d0 < d1-tol && w > 0.5+1e-3 || d1 < d0-tol && w < 0.5-1e-3 {
					c.Fatalf("%s: at the wrong end of the connection", what)
				}
				c.Label("off-mesh connection")
				continue
			}
			pt, depth, h := closest64(t, polyIndex(t, p), x)
			eps := 1e-5 + 4e-6*scale
			if over && depth < -eps || !over && depth > eps {
				c.Fatalf("%s: the position is %v inside the polygon", what, depth)
			}
			if over {
				if got[0] != x[0] || got[2] != x[2] {
					c.Fatalf("%s: should keep its horizontal position", what)
				}
			} else if math.Abs(got.dist2D(x)-pt.dist2D(x)) > tol*0.1 || dist2DPoly(got, vs) > tol*0.1 {
				c.Fatalf("%s: the closest point is %v", what, pt)
			}
			// height, at the place found
			hh, sure := surfaceHeights(t, polyIndex(t, p), got)
			if !sure {
				if over {
					hh.add(x[1])
				} else {
					hh.add(h.lo)
					hh.add(h.hi)
					for i := range vs {
						if u, d := closestSeg2D(got, vs[i], vs[(i+1)%len(vs)]); d < tol {
							hh.add(lerp64(vs[i], vs[(i+1)%len(vs)], u)[1])
						}
					}
				}
			}
			if got[1] < hh.lo-tol || got[1] > hh.hi+tol {
				c.Fatalf("%s: the surface is at height %v", what, hh)
			}
			if !over || t.DetailMeshes[polyIndex(t, p)].VertCount > 0 {
				c.Nontrivial(s.name, ref, x)
			}
			c.LabelIf(over && t.DetailMeshes[polyIndex(t, p)].VertCount > 0, "over a polygon with detail vertices")
			c.Label(kind)

			// border
			b, _ := junk()
			st = q.ClosestPointOnPolyBoundary(ref, pos, b)
			what = fmt.Sprintf("ClosestPointOnPolyBoundary(%x, %v) [%s] on %s: %v; polygon %v", ref, pos, kind, s.name, b, vs)
			if st != detour.Success || to64(pos) != x {
				c.Fatalf("%s: status %x", what, uint32(st))
			}
			got = to64(b)
			if over != (got == x) && math.Abs(depth) > eps {
				c.Fatalf("%s: over the polygon: %v", what, over)
			}
			if depth > eps {
				continue
			}
			if depth < -eps {
				if math.Abs(got.dist2D(x)-pt.dist2D(x)) > tol*0.1 {
					c.Fatalf("%s: the nearest border point is %v", what, pt)
				}
				ok := false
				for i := range vs {
					u, d := closestSeg2D(got, vs[i], vs[(i+1)%len(vs)])
					e := lerp64(vs[i], vs[(i+1)%len(vs)], u)
					ok = ok || d < tol*0.1 && math.Abs(e[1]-got[1]) < tol+tol*math.Abs(vs[i][1]-vs[(i+1)%len(vs)][1])/vs[i].dist2D(vs[(i+1)%len(vs)])
				}
				if !ok {
					c.Fatalf("%s: not on the border", what)
				}
			}
			c.Sample("%s: %x from %v (%s): %v, border %v", s.name, ref, pos, kind, cl, b)
		}
	})
}
