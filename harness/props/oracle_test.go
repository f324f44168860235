package props

import (
	"math"

	"github.com/arl/go-detour/detour"

	"verif/harness/hx"
)

// rng64 is a range of values.
type rng64 struct{ lo, hi float64 }

func (r *rng64) add(v float64) {
	r.lo, r.hi = math.Min(r.lo, v), math.Max(r.hi, v)
}

func emptyRng() rng64 { return rng64{math.Inf(1), math.Inf(-1)} }

// detailTri returns the vertices of detail triangle j of polygon i.
func detailTri(t *detour.MeshTile, i int, j uint8) [3]v64 {
	p, pd := &t.Polys[i], t.DetailMeshes[i]
	k := (pd.TriBase + uint32(j)) * 4
	var res [3]v64
	for n := 0; n < 3; n++ {
		x := t.DetailTris[k+uint32(n)]
		if x < p.VertCount {
			o := int(p.Verts[x]) * 3
			res[n] = to64(t.Verts[o : o+3])
		} else {
			o := (pd.VertBase + uint32(x-p.VertCount)) * 3
			res[n] = to64(t.DetailVerts[o : o+3])
		}
	}
	return res
}

// baryOf: barycentric coordinates of p in the (x,z) plane (w of b, w of c).
func baryOf(p v64, t [3]v64) (u, v float64, ok bool) {
	d := cross2D(t[0], t[1], t[2])
	if math.Abs(d) < 1e-12 {
		return 0, 0, false
	}
	v = cross2D(t[0], t[1], p) / d
	u = cross2D(t[2], t[0], p) / d
	return u, v, true
}

// surfaceHeights is the range of heights the detail surface of polygon i may be
// said to have at p; sure is false when no detail triangle clearly contains p.
func surfaceHeights(t *detour.MeshTile, i int, p v64) (h rng64, sure bool) {
	h = emptyRng()
	for j := uint8(0); j < t.DetailMeshes[i].TriCount; j++ {
		tr := detailTri(t, i, j)
		u, v, ok := baryOf(p, tr)
		if !ok {
			continue
		}
		// error of barycentric coordinates in float32
		x := cross2D(tr[0], tr[1], tr[2])
		l0, l1 := tr[0].dist2D(tr[1]), tr[0].dist2D(tr[2])
		eps := 1e-6 * (l0 * l0 * l1 * l1 / (x * x)) * (1 + scaleOf(p)/(1e-9+math.Min(l0, l1))*0.1)
		m := math.Min(math.Min(u, v), 1-u-v)
		if m < -4e-4-eps {
			continue
		}
		y := tr[0][1] + u*(tr[1][1]-tr[0][1]) + v*(tr[2][1]-tr[0][1])
		dy := eps * (math.Abs(tr[1][1]-tr[0][1]) + math.Abs(tr[2][1]-tr[0][1]))
		// ... which never gets the height beyond those of the triangle by much
		lo := math.Min(tr[0][1], math.Min(tr[1][1], tr[2][1]))
		hi := math.Max(tr[0][1], math.Max(tr[1][1], tr[2][1]))
		h.add(math.Max(y-dy, math.Min(y, lo)))
		h.add(math.Min(y+dy, math.Max(y, hi)))
		if m >= -2e-5 && eps < 5e-5 {
			sure = true
		}
	}
	return h, sure
}

// closest64 is the closest point of polygon i to pos (projected when pos is over
// it), how deep pos is inside the polygon (negative: outside), and the range of
// heights the result may have.
func closest64(t *detour.MeshTile, i int, pos v64) (pt v64, depth float64, h rng64) {
	vs := vertsOf(t, &t.Polys[i])
	depth = inside2D(pos, vs)
	pt = pos
	if depth < 0 {
		best := math.Inf(1)
		for k := range vs {
			a, b := vs[k], vs[(k+1)%len(vs)]
			u, d := closestSeg2D(pos, a, b)
			if d < best {
				best = d
				pt = lerp64(a, b, u)
			}
		}
	}
	h, sure := surfaceHeights(t, i, pt)
	if !sure {
		h.add(pt[1])
	}
	pt[1] = (h.lo + h.hi) / 2
	return pt, depth, h
}

// nearCand is a polygon that may be the nearest one.
type nearCand struct {
	ref    detour.PolyRef
	d      rng64 // distance measure of the nearest polygon query
	strict bool  // certainly in the box
	pos    v64
	pt     v64
	depth  float64
	h      rng64
}

const overEps = 2e-4

// nearMeasure is the range of the measure by which the nearest polygon is
// chosen: squared distance, or the squared height beyond the climb height for a
// point over the polygon.
func nearMeasure(t *detour.MeshTile, pos, pt v64, depth float64, h rng64) rng64 {
	res := emptyRng()
	climb := float64(t.Header.WalkableClimb)
	for _, y := range []float64{h.lo, h.hi} {
		if depth > -overEps {
			d := math.Max(0, math.Abs(pos[1]-y)-climb)
			res.add(d * d)
		}
		if depth < overEps {
			d := pos.dist(v64{pt[0], y, pt[2]})
			res.add(d * d)
		}
	}
	if h.lo < pos[1] && pos[1] < h.hi {
		if depth > -overEps {
			res.add(0)
		}
		if depth < overEps {
			d := pos.dist2D(pt)
			res.add(d * d)
		}
	}
	return res
}

// nearCands lists the ground polygons of a tile whose bounds may overlap the box
// of the given extents around pos.
func nearCands(m *detour.NavMesh, t *detour.MeshTile, pos, ext v64, pass func(*detour.Poly) bool) []nearCand {
	var res []nearCand
	for i := range t.Polys {
		p := &t.Polys[i]
		if p.Type() == offMesh || !pass(p) {
			continue
		}
		vlo, vhi := boundsOf(vertsOf(t, p))
		dlo, dhi := vlo, vhi
		pd := t.DetailMeshes[i]
		for k := uint32(0); k < uint32(pd.VertCount); k++ {
			o := (pd.VertBase + k) * 3
			v := to64(t.DetailVerts[o : o+3])
			for x := range v {
				dlo[x], dhi[x] = math.Min(dlo[x], v[x]), math.Max(dhi[x], v[x])
			}
		}
		strict, maybe := true, true
		q := 3.0 / float64(t.Header.BvQuantFactor)
		if len(t.BvTree) == 0 {
			q = 0
		}
		for x := 0; x < 3; x++ {
			tol := 1e-4 * (1 + math.Abs(pos[x])*0.01)
			if pos[x]-ext[x] > vhi[x]-tol || pos[x]+ext[x] < vlo[x]+tol {
				strict = false
			}
			if pos[x]-ext[x] > dhi[x]+tol+q || pos[x]+ext[x] < dlo[x]-tol-q {
				maybe = false
			}
		}
		if !maybe {
			continue
		}
		pt, depth, h := closest64(t, i, pos)
		res = append(res, nearCand{ref: refOf(m, t, i), d: nearMeasure(t, pos, pt, depth, h), strict: strict, pos: pos, pt: pt, depth: depth, h: h})
	}
	return res
}

func boundsOf(vs []v64) (lo, hi v64) {
	lo, hi = vs[0], vs[0]
	for _, v := range vs {
		for x := range v {
			lo[x], hi[x] = math.Min(lo[x], v[x]), math.Max(hi[x], v[x])
		}
	}
	return
}

func measureTol(d, scale float64) float64 { return 1e-3*(1+d) + 4e-6*scale*(1+math.Sqrt(d)) }

func scaleOf(p v64) float64 {
	return math.Max(math.Abs(p[0]), math.Max(math.Abs(p[1]), math.Abs(p[2])))
}

// checkNearest checks that got is an acceptable nearest polygon among cs.
func checkNearest(c *hx.Case, what string, cs []nearCand, pos v64, got detour.PolyRef) *nearCand {
	best, strict := math.Inf(1), 0
	var g *nearCand
	for i := range cs {
		if cs[i].strict {
			strict++
			best = math.Min(best, cs[i].d.hi)
		}
		if cs[i].ref == got {
			g = &cs[i]
		}
	}
	if got == 0 {
		if strict > 0 {
			c.Fatalf("%s: nothing found, %d polygons overlap the box", what, strict)
		}
		return nil
	}
	if g == nil {
		c.Fatalf("%s: found %x, which is not in the box around %v", what, got, pos)
	}
	if g.d.lo > best+measureTol(best, scaleOf(pos)) {
		c.Fatalf("%s: nearest to %v: found %x at measure %v, another polygon in the box has %v; candidates %+v", what, pos, got, g.d, best, cs)
	}
	return g
}
