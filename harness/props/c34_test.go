package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"

	"verif/harness/gen"
	"verif/harness/hx"
)

// randConvex is a convex polygon, clockwise in (x,z) as navigation mesh polygons are.
func randConvex(r *gen.R, scale float64) []v64 {
	n := r.U(3, 6)
	cx, cz := float64(r.F(-1, 1))*scale, float64(r.F(-1, 1))*scale
	rx, rz := float64(r.F(0.1, 1))*scale, float64(r.F(0.1, 1))*scale
	vs := make([]v64, n)
	off := float64(r.F(0, 6))
	for i := range vs {
		a := off - 2*math.Pi*(float64(i)+float64(r.F(-0.3, 0.3)))/float64(n)
		// through float32, as the code gets it
		vs[i] = to64(v64{cx + rx*math.Cos(a), float64(r.F(-1, 1)) * scale, cz + rz*math.Sin(a)}.vec())
	}
	return vs
}

func TestC34(t *testing.T) {
	point := func(r *gen.R, s float64) v64 {
		if r.P(0.2) { // on a grid: coincidences
			return v64{float64(r.U(-3, 3)), float64(r.U(-3, 3)), float64(r.U(-3, 3))}
		}
		return to64(v64{float64(r.F(-1, 1)) * s, float64(r.F(-1, 1)) * s, float64(r.F(-1, 1)) * s}.vec())
	}

	hx.Run(t, "segments", "two lines which are not parallel", 900000, 20000000, func(c *hx.Case) {
		r := gen.New(c.T)
		s := gen.Pick(r, "scale", 1.0, 10, 1000)
		p, q, a, b := point(r, s), point(r, s), point(r, s), point(r, s)
		what := fmt.Sprintf("%v %v, %v %v", p, q, a, b)
		area := float64(detour.TriArea2D(p.vec(), q.vec(), a.vec()))
		want := (a[0]-p[0])*(q[2]-p[2]) - (q[0]-p[0])*(a[2]-p[2])
		size := q.dist2D(p)*a.dist2D(p) + 1e-30
		if !nearly(area, want, 1e-6*size+1e-30) {
			c.Fatalf("TriArea2D(%v, %v, %v) = %v, want %v", p, q, a, area, want)
		}
		hit, sp, tp := detour.IntersectSegSeg2D(p.vec(), q.vec(), a.vec(), b.vec())
		u, v, w := q.sub(p), b.sub(a), p.sub(a)
		d := u[2]*v[0] - u[0]*v[2]
		lu, lv := math.Hypot(u[0], u[2]), math.Hypot(v[0], v[2])
		if math.IsNaN(float64(sp)) || math.IsNaN(float64(tp)) || math.IsInf(float64(sp), 0) || math.IsInf(float64(tp), 0) {
			c.Fatalf("IntersectSegSeg2D(%s): %v %v %v", what, hit, sp, tp)
		}
		if math.Abs(d) > 1e-3*lu*lv && math.Abs(d) > 1e-5 {
			if !hit {
				c.Fatalf("IntersectSegSeg2D(%s): no intersection", what)
			}
			ws, wt := (v[2]*w[0]-v[0]*w[2])/d, (u[2]*w[0]-u[0]*w[2])/d
			lw := math.Hypot(w[0], w[2])
			if !nearly(float64(sp), ws, 1e-5*(1+lv*lw/math.Abs(d)+math.Abs(ws)*lu*lv/math.Abs(d))) || !nearly(float64(tp), wt, 1e-5*(1+lu*lw/math.Abs(d)+math.Abs(wt)*lu*lv/math.Abs(d))) {
				c.Fatalf("IntersectSegSeg2D(%s): %v %v, want %v %v", what, sp, tp, ws, wt)
			}
			c.Nontrivial(what)
		} else if d == 0 && hit && lu*lv < 1e3 {
			c.Fatalf("IntersectSegSeg2D(%s): parallel lines meet at %v %v", what, sp, tp)
		}
		c.Sample("%s", what)
	})

	hx.Run(t, "polygon", "a segment which crosses the border of the polygon", 700000, 20000000, func(c *hx.Case) {
		r := gen.New(c.T)
		s := gen.Pick(r, "scale", 1.0, 30, 300)
		vs := randConvex(r, s)
		var p, q v64
		mid := v64{}
		for _, v := range vs {
			mid = mid.add(v.mul(1 / float64(len(vs))))
		}
		p, q = point(r, 2*s), point(r, 2*s)
		if r.P(0.5) {
			p = lerp64(mid, vs[r.U(0, len(vs)-1)], float64(r.F(0, 0.95)))
		}
		if r.P(0.3) {
			q = lerp64(mid, vs[r.U(0, len(vs)-1)], float64(r.F(0, 0.95)))
		}
		if r.P(0.05) {
			q = p
		}
		p, q = to64(p.vec()), to64(q.vec())
		flat := make([]float32, 0, len(vs)*3)
		for _, v := range vs {
			flat = append(flat, v.vec()...)
		}
		what := fmt.Sprintf("segment %v %v, polygon %v", p, q, vs)
		// centre
		idx := make([]uint16, 0, 6)
		var want v64
		k := r.U(3, len(vs))
		for i := 0; i < k; i++ {
			j := (i*5 + k) % len(vs)
			idx = append(idx, uint16(j))
			want = want.add(vs[j].mul(1 / float64(k)))
		}
		if got := to64(detour.CalcPolyCenter(idx, int32(k), flat)); got.dist(want) > 1e-5*s {
			c.Fatalf("CalcPolyCenter of %v in %v: %v, want %v", idx, vs, got, want)
		}
		tmin, tmax, smin, smax, res := detour.IntersectSegmentPoly2D(p.vec(), q.vec(), flat, len(vs))
		if smin < -1 || smin >= len(vs) || smax < -1 || smax >= len(vs) {
			c.Fatalf("%s: edges %d %d", what, smin, smax)
		}
		if res && !(0 <= tmin && tmin <= tmax && tmax <= 1) {
			c.Fatalf("%s: from %v to %v", what, tmin, tmax)
		}
		// clip in float64
		lo, hi, el, eh := 0.0, 1.0, -1, -1
		margin := math.Inf(1) // how clear the answer is
		for i := range vs {
			a, b := vs[i], vs[(i+1)%len(vs)]
			l := a.dist2D(b)
			d0, d1 := -cross2D(a, b, p)/l, -cross2D(a, b, q)/l // depth inside the edge
			if math.Abs(d0-d1) < 1e-4*s {
				margin = math.Min(margin, math.Abs(d0))
				if d0 < 0 {
					lo = 2
				}
				continue
			}
			x := d0 / (d0 - d1)
			if d1 > d0 {
				if x > lo {
					lo, el = x, i
				}
			} else if x < hi {
				hi, eh = x, i
			}
		}
		length := p.dist2D(q)
		if lo <= 1 && hi >= 0 {
			margin = math.Min(margin, math.Abs(hi-lo)*length)
			if length == 0 {
				margin = math.Abs(inside2D(p, vs))
			}
		}
		if margin < 1e-3*s {
			return
		}
		if res != (lo <= hi) {
			c.Fatalf("%s: meets %v (%v to %v)", what, res, lo, hi)
		}
		if !res {
			return
		}
		tol := 1e-3 * s / math.Max(length, 1e-3*s)
		if !nearly(float64(tmin), lo, tol) || !nearly(float64(tmax), hi, tol) {
			c.Fatalf("%s: meets from %v to %v, want %v to %v", what, tmin, tmax, lo, hi)
		}
		// the edges, when they are clear
		clear := func(x float64, skip int) bool {
			at := lerp64(p, q, x)
			for i := range vs {
				_, d := closestSeg2D(at, vs[i], vs[(i+1)%len(vs)])
				if i != skip && d < 5e-3*s {
					return false
				}
			}
			return true
		}
		if clear(lo, el) && smin != el && lo != 0 {
			c.Fatalf("%s: enters by edge %d, want %d", what, smin, el)
		}
		if clear(hi, eh) && smax != eh && hi != 1 {
			c.Fatalf("%s: leaves by edge %d, want %d", what, smax, eh)
		}
		if lo == 0 && smin != -1 && clear(0, -1) || hi == 1 && smax != -1 && clear(1, -1) {
			c.Fatalf("%s: inside at an end, edges %d %d", what, smin, smax)
		}
		if lo > 0 || hi < 1 {
			c.Nontrivial(what)
		}
		c.Sample("%s", what)
	})

	hx.Run(t, "bounds", "boxes which overlap in exactly two dimensions, or touch", 900000, 20000000, func(c *hx.Case) {
		r := gen.New(c.T)
		m := gen.Pick(r, "range", 3, 12, 65535)
		var q [4][]uint16
		var f [4][]float32
		for i := range q {
			q[i], f[i] = make([]uint16, 3), make([]float32, 3)
		}
		dims, touch := 0, false
		for k := 0; k < 3; k++ {
			over := false
			for i := 0; i < 4; i += 2 {
				x, y := r.U(0, m), r.U(0, m)
				if x > y {
					x, y = y, x
				}
				q[i][k], q[i+1][k] = uint16(x), uint16(y)
				f[i][k], f[i+1][k] = float32(x)*0.25-100, float32(y)*0.25-100
			}
			for x := int(q[0][k]); !over && x <= int(q[1][k]); x++ {
				if x >= int(q[2][k]) && x <= int(q[3][k]) {
					over = true
				}
				if m > 100 {
					over = maxInt(int(q[0][k]), int(q[2][k])) <= minInt(int(q[1][k]), int(q[3][k]))
					break
				}
			}
			if over {
				dims++
			}
			touch = touch || q[0][k] == q[3][k] || q[1][k] == q[2][k]
		}
		want := dims == 3
		for i := 0; i < 2; i++ {
			if got := detour.OverlapQuantBounds(q[0], q[1], q[2], q[3]); got != want {
				c.Fatalf("OverlapQuantBounds(%v) = %v", q, got)
			}
			if got := detour.OverlapBounds(f[0], f[1], f[2], f[3]); got != want {
				c.Fatalf("OverlapBounds(%v) = %v", f, got)
			}
			q[0], q[1], q[2], q[3] = q[2], q[3], q[0], q[1]
			f[0], f[1], f[2], f[3] = f[2], f[3], f[0], f[1]
		}
		if dims == 2 || touch {
			c.Nontrivial(q)
		}
		c.Sample("%v", q)
	})

	hx.Run(t, "directions", "always", 800, 10000, func(c *hx.Case) {
		r := gen.New(c.T)
		d := int32(r.Int("dir", 0, 3))
		want := [4][2]int32{{-1, 0}, {0, 1}, {1, 0}, {0, -1}}[d]
		x, y := recast.GetDirOffsetX(d), recast.GetDirOffsetY(d)
		if x != want[0] || y != want[1] {
			c.Fatalf("direction %d leads to %d,%d", d, x, y)
		}
		if e := recast.GetDirForOffset(x, y); e != d {
			c.Fatalf("offset %d,%d is direction %d, want %d", x, y, e, d)
		}
		o := (d + 2) & 3
		if recast.GetDirOffsetX(o) != -x || recast.GetDirOffsetY(o) != -y {
			c.Fatalf("direction %d is not opposite to %d", o, d)
		}
		c.Nontrivial(d)
		c.Sample("direction %d", d)
	})
}
