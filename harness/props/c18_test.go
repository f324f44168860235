package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/arl/go-detour/recast"
	"github.com/arl/gogeo/f32/d3"

	"verif/harness/gen"
	"verif/harness/hx"
)

type grid struct {
	w, h   int32
	lo, hi [3]float32
	cs, ch float32
}

func (g grid) field() *recast.Heightfield {
	return recast.NewHeightfield(g.w, g.h, g.lo[:], g.hi[:], g.cs, g.ch)
}

func randGrid(r *gen.R) grid {
	g := grid{w: int32(r.Int("w", 1, 9)), h: int32(r.Int("h", 1, 9))}
	g.cs, g.ch = gen.Any(r, float32(1), 0.3, 0.1, r.F(0.05, 3)), gen.Any(r, float32(1), 0.2, r.F(0.05, 2))
	if r.P(0.7) {
		g.lo = [3]float32{r.F(-40, 40), r.F(-20, 20), r.F(-40, 40)}
	}
	tall := r.U(1, 40)
	switch r.U(0, 99) {
	case 0: // higher than spans can be
		tall = r.U(8000, 9000)
	case 1, 2: // large
		g.w = int32(r.U(200, 300))
	case 3, 4:
		g.h = int32(r.U(200, 300))
	}
	g.hi = [3]float32{g.lo[0] + float32(g.w)*g.cs, g.lo[1] + float32(tall)*g.ch, g.lo[2] + float32(g.h)*g.cs}
	return g
}

// randTri draws a triangle around the grid.
func randTri(r *gen.R, g grid) [9]float32 {
	var t [9]float32
	ext := [3]float32{float32(g.w) * g.cs, g.hi[1] - g.lo[1], float32(g.h) * g.cs}
	kind := r.U(0, 9)
	size := gen.Any(r, float32(0.05), 0.3, 1, 3, 3, 100)
	var ctr [3]float32
	for k := range ctr {
		ctr[k] = g.lo[k] + r.F(-0.4, 1.4)*ext[k]
	}
	for i := 0; i < 9; i++ {
		k := i % 3
		switch {
		case kind < 5:
			t[i] = ctr[k] + r.F(-1, 1)*size*ext[k]
		case kind < 8: // on the lines of the grid, or half way between
			n := int(g.w)
			step := g.cs
			if k == 2 {
				n = int(g.h)
			}
			if k == 1 {
				n, step = int((g.hi[1]-g.lo[1])/g.ch), g.ch
			}
			t[i] = g.lo[k] + float32(r.U(-4, 2*n+4))*0.5*step
		default: // a wall or a line
			if i >= 3 && k != 1 {
				t[i] = t[i%3] + (t[i-3]-t[i%3])*r.F(-2, 2)
				if i < 6 {
					t[i] = t[i%3] + r.F(-1, 1)*size*ext[k]
				}
				break
			}
			t[i] = ctr[k] + r.F(-1, 1)*size*ext[k]
		}
	}
	if r.P(0.05) {
		copy(t[3:6], t[0:3])
		if r.P(0.5) {
			copy(t[6:9], t[0:3])
		}
	}
	if r.P(0.15) { // flat
		t[4], t[7] = t[1], t[1]
	}
	return t
}

func TestC18(t *testing.T) {
	top := int(recast.RC_SPAN_MAX_HEIGHT)
	hx.Run(t, "triangle", "a triangle with both cells it touches and cells it does not, or partly outside the field", 500000, 12000000, func(c *hx.Case) {
		r := gen.New(c.T)
		g := randGrid(r)
		tri := randTri(r, g)
		area := uint8(r.U(1, 63))
		hf := g.field()
		perm := [][3]int{{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}}[r.U(0, 5)]
		v := func(i int) d3.Vec3 { return d3.Vec3{tri[i*3], tri[i*3+1], tri[i*3+2]} }
		if !recast.RasterizeTriangle(recast.NewBuildContext(false), v(perm[0]), v(perm[1]), v(perm[2]), area, hf, int32(r.U(0, 3))) {
			c.Fatalf("RasterizeTriangle fails")
		}
		what := fmt.Sprintf("triangle %v on %+v", tri, g)
		p := []v64{to64(tri[0:3]), to64(tri[3:6]), to64(tri[6:9])}
		big := 0.0
		for i := range tri {
			big = math.Max(big, math.Max(math.Abs(float64(tri[i])), math.Max(math.Abs(float64(g.lo[i%3])), math.Abs(float64(g.hi[i%3])))))
		}
		cs, ch := float64(g.cs), float64(g.ch)
		e := 3e-6*big + 1e-4*cs
		ey := 3e-6*big + 1e-4*ch
		by := float64(g.hi[1]) - float64(g.lo[1])
		base := float64(g.lo[1])
		touched, empty := 0, 0
		var cells [][]rspan
		for z := int32(0); z < g.h; z++ {
			for x := int32(0); x < g.w; x++ {
				col := column(c, hf, x, z)
				cells = append(cells, col)
				x0, z0 := float64(g.lo[0])+float64(x)*cs, float64(g.lo[2])+float64(z)*cs
				lo, hi, ok := clipY(p, x0-e, x0+cs+e, z0-e, z0+cs+e)
				slo, shi, sok := clipY(p, x0+e, x0+cs-e, z0+e, z0+cs-e)
				lo, hi, slo, shi = lo-base, hi-base, slo-base, shi-base
				if !ok || hi < -ey || lo > by+ey {
					if len(col) != 0 {
						c.Fatalf("%s: spans %v in column %d,%d, which it does not touch (heights %v to %v)", what, col, x, z, lo, hi)
					}
					empty++
					continue
				}
				if len(col) == 0 {
					if sok && shi > ey && slo < by-ey {
						c.Fatalf("%s: nothing in column %d,%d, where it reaches from %v to %v", what, x, z, slo, shi)
					}
					continue
				}
				if len(col) > 1 || col[0].area != area {
					c.Fatalf("%s: spans %v in column %d,%d", what, col, x, z)
				}
				touched++
				s := col[0]
				clamp := func(y float64) float64 { return math.Max(0, math.Min(by, y)) }
				a0, b1 := int(math.Floor((clamp(lo)-ey)/ch)), int(math.Ceil((clamp(hi)+ey)/ch))
				a0, b1 = minI(a0, top), minI(b1, top)
				if s.min < a0 || s.max > maxInt(b1, s.min+1) || s.max <= s.min {
					c.Fatalf("%s: span %v in column %d,%d, where it reaches from %v to %v", what, s, x, z, lo, hi)
				}
				if sok {
					a1, b0 := int(math.Floor((clamp(slo)+ey)/ch)), int(math.Ceil((clamp(shi)-ey)/ch))
					if s.min > minI(a1, top) || s.max < minI(b0, top) {
						c.Fatalf("%s: span %v in column %d,%d, where it reaches from %v to %v", what, s, x, z, slo, shi)
					}
				}
			}
		}
		// Every point of the triangle is in a span of its cell (or, on a line of
		// the grid, of one of the cells around).
		for k := 0; k < 8; k++ {
			a, b := float64(r.F(0, 1)), float64(r.F(0, 1))
			if a+b > 1 {
				a, b = 1-a, 1-b
			}
			q := p[0].add(p[1].sub(p[0]).mul(a)).add(p[2].sub(p[0]).mul(b))
			fx, fz, y := (q[0]-float64(g.lo[0]))/cs, (q[2]-float64(g.lo[2]))/cs, q[1]-base
			d := 2 * e / cs
			if fx < d || fz < d || fx > float64(g.w)-d || fz > float64(g.h)-d || y < ey || y > math.Min(by, float64(top)*ch)-ey || e > cs/4 {
				continue
			}
			// What lies along a line of the grid may be lost to rounding.
			wide := func(k int) bool {
				return math.Max(p[0][k], math.Max(p[1][k], p[2][k]))-math.Min(p[0][k], math.Min(p[1][k], p[2][k])) > 8*e
			}
			if math.Floor(fx-d) != math.Floor(fx+d) && !wide(0) || math.Floor(fz-d) != math.Floor(fz+d) && !wide(2) {
				continue
			}
			ok := false
			for x := int(math.Floor(fx - d)); x <= int(math.Floor(fx+d)); x++ {
				for z := int(math.Floor(fz - d)); z <= int(math.Floor(fz+d)); z++ {
					if x < 0 || z < 0 || x >= int(g.w) || z >= int(g.h) {
						continue
					}
					for _, s := range cells[x+z*int(g.w)] {
						ok = ok || y >= float64(s.min)*ch-ey && y <= float64(s.max)*ch+ey
					}
				}
			}
			if !ok {
				c.Fatalf("%s: point %v is in no span", what, q)
			}
		}
		out := false
		for i := range tri {
			out = out || tri[i] < g.lo[i%3] || tri[i] > g.hi[i%3]
		}
		c.LabelIf(out && touched > 0, "partly outside")
		if touched > 0 && (empty > 0 || out) {
			c.Nontrivial(what)
		}
		c.Sample("%s: %d columns touched, %d not", what, touched, empty)
	})

	hx.Run(t, "soup", "at least 3 triangles sharing a column", 120000, 3000000, func(c *hx.Case) {
		r := gen.New(c.T)
		g := randGrid(r)
		n := r.Int("triangles", 1, 10)
		thr := int32(r.U(0, 3))
		var list []float32
		var areas []uint8
		ctx := recast.NewBuildContext(false)
		model := make([][]rspan, g.w*g.h)
		one := g.field()
		share := make([]int, g.w*g.h)
		for k := 0; k < n; k++ {
			t := randTri(r, g)
			list = append(list, t[:]...)
			areas = append(areas, uint8(gen.Any(r, 0, 1, 5, walkable)))
			hf := g.field()
			for _, f := range []*recast.Heightfield{hf, one} {
				if !recast.RasterizeTriangle(ctx, t[0:3], t[3:6], t[6:9], areas[k], f, thr) {
					c.Fatalf("RasterizeTriangle fails")
				}
			}
			for i, col := range field(c, hf) {
				for _, s := range col {
					model[i] = addModel(model[i], s, int(thr))
					share[i]++
				}
			}
		}
		// shared vertices in another order
		idx := make([]int32, n*3)
		var verts []float32
		order := r.Perm(n * 3)
		at := make([]int32, n*3)
		for i, k := range order {
			at[k] = int32(i)
			verts = append(verts, list[k*3:k*3+3]...)
		}
		for i := range idx {
			idx[i] = at[i]
		}
		two, three := g.field(), g.field()
		v0, l0 := fmt.Sprint(verts, idx, areas), fmt.Sprint(list)
		if !recast.RasterizeTriangles(ctx, verts, int32(n*3), idx, areas, int32(n), two, thr) ||
			!recast.RasterizeTriangles2(ctx, list, areas, int32(n), three, thr) {
			c.Fatalf("rasterizing %d triangles fails", n)
		}
		if fmt.Sprint(verts, idx, areas) != v0 || fmt.Sprint(list) != l0 {
			c.Fatalf("rasterizing changed its input")
		}
		for i, f := range []*recast.Heightfield{one, two, three} {
			if d := diffField(f, field(c, f), model); d != "" {
				c.Fatalf("%d triangles given the %d. way: %s (%v, areas %v, threshold %d on %+v)", n, i+1, d, list, areas, thr, g)
			}
			if f.Width != g.w || f.Height != g.h || f.BMin != g.lo || f.BMax != g.hi || f.Cs != g.cs || f.Ch != g.ch {
				c.Fatalf("the heightfield changed: %+v", g)
			}
		}
		for _, k := range share {
			if k > 2 {
				c.Nontrivial(list, g)
				break
			}
		}
		c.Sample("%d triangles on %+v", n, g)
	})
}
