package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/arl/go-detour/recast"

	"verif/harness/gen"
	"verif/harness/hx"
)

const walkable = 63 // recast.WalkableArea, as documented

func TestC17(t *testing.T) {
	hx.Run(t, "slope", "at least one triangle below the limit and one above it (or facing down)", 400000, 5000000, func(c *hx.Case) {
		r := gen.New(c.T)
		nv := r.Int("verts", 3, 20)
		scale := gen.Any(r, float32(1), 1, 100, 0.01)
		off := gen.Any(r, float32(0), 0, 500) * scale
		flat := gen.Any(r, float32(1), 0.3, 0)
		verts := make([]float32, 0, nv*3)
		for i := 0; i < nv; i++ {
			if r.P(0.2) { // exact slopes
				verts = append(verts, float32(r.U(-4, 4))*scale, float32(r.U(-4, 4))*scale, float32(r.U(-4, 4))*scale)
			} else {
				verts = append(verts, off+r.F(-5, 5)*scale, r.F(-5, 5)*scale*flat, off+r.F(-5, 5)*scale)
			}
		}
		slope := gen.Any(r, float32(45), 45, 0, 30, 60, 89, r.F(0, 89.9), r.F(0, 10))
		nt := r.U(1, 12)
		var tris []int32
		// what to expect: 1 walkable, 0 not, -1 too close to the limit
		want := make([]int, nt)
		limit := math.Cos(float64(slope) * math.Pi / 180)
		var up, down int
		for i := 0; i < nt; i++ {
			var k [3]int
			for j := range k {
				k[j] = r.U(0, nv-1)
				tris = append(tris, int32(k[j]))
			}
			a, b, d := to64(verts[k[0]*3:k[0]*3+3]), to64(verts[k[1]*3:k[1]*3+3]), to64(verts[k[2]*3:k[2]*3+3])
			u, v := b.sub(a), d.sub(a)
			n := v64{u[1]*v[2] - u[2]*v[1], u[2]*v[0] - u[0]*v[2], u[0]*v[1] - u[1]*v[0]}
			// Rounding of the normal.
			err := 1e-5 * (u.len()*v.len() + 1e-30)
			switch l := n.len(); {
			case l == 0:
				want[i] = -1
				if k[0] == k[1] || k[1] == k[2] || k[0] == k[2] {
					want[i] = -2 // no surface at all
				}
			case l < 20*err || math.Abs(n[1]/l-limit) < err/l+1e-6:
				want[i] = -1
			case n[1]/l > limit:
				want[i] = 1
				up++
			default:
				down++
			}
		}
		before := make([]uint8, nt+3)
		for i := range before {
			before[i] = uint8(gen.Any(r, 0, 0, 1, 5, 62, 63, r.U(0, 255)))
		}
		v0, t0 := fmt.Sprint(verts), fmt.Sprint(tris)
		m, d := append([]uint8{}, before...), append([]uint8{}, before...)
		ctx := recast.NewBuildContext(r.P(0.5))
		recast.MarkWalkableTriangles(ctx, slope, verts, int32(nv), tris, int32(nt), m)
		recast.ClearUnwalkableTriangles(ctx, slope, verts, int32(nv), tris, int32(nt), d)
		if fmt.Sprint(verts) != v0 || fmt.Sprint(tris) != t0 {
			c.Fatalf("the geometry was changed")
		}
		for i := range before {
			what := fmt.Sprintf("entry %d of %d triangles at %v degrees (%v, %v)", i, nt, slope, verts, tris)
			wm, wd := before[i], before[i]
			if i < nt {
				switch want[i] {
				case 1:
					wm = walkable
				case 0:
					wd = 0
				case -2:
					wd = 0
				case -1: // one or the other
					if m[i] == walkable && d[i] == before[i] {
						wm = walkable
					} else {
						wd = 0
					}
				}
			}
			if m[i] != wm {
				c.Fatalf("%s: marked from %d to %d, want %d", what, before[i], m[i], wm)
			}
			if d[i] != wd {
				c.Fatalf("%s: cleared from %d to %d, want %d", what, before[i], d[i], wd)
			}
		}
		if up > 0 && down > 0 {
			c.Nontrivial(slope, tris, verts)
		}
		c.Sample("%d triangles at %v degrees, %d walkable %d not", nt, slope, up, down)
	})

	hx.Run(t, "bounds", "at least 3 vertices and a box of more than one cell each way", 300000, 5000000, func(c *hx.Case) {
		r := gen.New(c.T)
		nv := r.Int("verts", 1, 30)
		scale := gen.Any(r, float32(1), 100, 0.01, 1e4)
		off := r.F(-10, 10) * scale
		verts := make([]float32, nv*3+r.U(0, 3))
		var lo, hi [3]float32
		for i := range verts {
			verts[i] = off + r.F(-5, 5)*scale
		}
		for i := 0; i < nv*3; i++ {
			if i < 3 || verts[i] < lo[i%3] {
				lo[i%3] = verts[i]
			}
			if i < 3 || verts[i] > hi[i%3] {
				hi[i%3] = verts[i]
			}
		}
		v0 := fmt.Sprint(verts)
		bmin, bmax := []float32{7, 7, 7, 7}, []float32{-7, -7, -7, -7}
		recast.CalcBounds(verts, int32(nv), bmin[:3], bmax[:3])
		if fmt.Sprint(verts) != v0 {
			c.Fatalf("CalcBounds changed the vertices")
		}
		if [3]float32(bmin[:3]) != lo || [3]float32(bmax[:3]) != hi || bmin[3] != 7 || bmax[3] != -7 {
			c.Fatalf("bounds of %d vertices %v: %v %v, want %v %v", nv, verts, bmin, bmax, lo, hi)
		}
		cs := gen.Any(r, float32(0.3), 1, 0.05, r.F(0.01, 3)) * gen.Any(r, 1, scale)
		w, h := recast.CalcGridSize(bmin[:3], bmax[:3], cs)
		for k, got := range []int32{w, h} {
			x := (float64(hi[k*2]) - float64(lo[k*2])) / float64(cs)
			err := 1e-6*x + 1e-6*math.Max(math.Abs(float64(hi[k*2])), math.Abs(float64(lo[k*2])))/float64(cs)
			if x > 1e6 {
				continue
			}
			a, b := int32(math.Floor(x+0.5-err)), int32(math.Floor(x+0.5+err))
			if got < a || got > b {
				c.Fatalf("grid of %v to %v with cells of %v: %d x %d, want %v cells", bmin, bmax, cs, w, h, x)
			}
		}
		if nv > 2 && w > 1 && h > 1 {
			c.Nontrivial(verts, cs)
		}
		c.Sample("%d vertices, bounds %v %v, cells of %v: %dx%d", nv, lo, hi, cs, w, h)
	})
}
