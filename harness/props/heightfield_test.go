package props

import (
	"fmt"
	"math"

	"github.com/arl/go-detour/recast"

	"verif/harness/gen"
	"verif/harness/hx"
)

// rspan is a span of the reference model.
type rspan struct {
	min, max int
	area     uint8
}

// addModel adds a span to a column of the model: what it touches it merges with.
func addModel(col []rspan, s rspan, thr int) []rspan {
	var below, above []rspan
	for _, x := range col { // ascending
		switch {
		case x.max < s.min:
			below = append(below, x)
		case x.min > s.max:
			above = append(above, x)
		default:
			d := x.max - s.max
			switch {
			case d <= thr && -d <= thr:
				if x.area > s.area {
					s.area = x.area
				}
			case d > 0:
				s.area = x.area
			}
			s.min, s.max = minInt(s.min, x.min), maxInt(s.max, x.max)
		}
	}
	return append(append(below, s), above...)
}

// column reads a column of a heightfield, checking its form.
func column(c *hx.Case, hf *recast.Heightfield, x, y int32) []rspan {
	var res []rspan
	for _, s := range recast.VColumn(hf, x, y, 100000) {
		if len(res) == 99999 {
			c.Fatalf("endless column %d,%d", x, y)
		}
		res = append(res, rspan{s.Min, s.Max, s.Area})
	}
	return res
}

func sameColumn(a, b []rspan) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// field is a whole heightfield.
func field(c *hx.Case, hf *recast.Heightfield) [][]rspan {
	res := make([][]rspan, hf.Width*hf.Height)
	for y := int32(0); y < hf.Height; y++ {
		for x := int32(0); x < hf.Width; x++ {
			res[x+y*hf.Width] = column(c, hf, x, y)
		}
	}
	return res
}

func diffField(hf *recast.Heightfield, got, want [][]rspan) string {
	for i := range got {
		if !sameColumn(got[i], want[i]) {
			return fmt.Sprintf("column %d,%d: %v, want %v", i%int(hf.Width), i/int(hf.Width), got[i], want[i])
		}
	}
	return ""
}

// randDims is the size of a field, seldom very long.
func randDims(r *gen.R, maxDim int) (w, h int32) {
	w, h = int32(r.U(1, maxDim)), int32(r.U(1, maxDim))
	if r.P(0.01) {
		w, h = int32(r.U(100, 300)), int32(r.U(1, minI(6, maxDim)))
		if r.P(0.5) {
			w, h = h, w
		}
	}
	return w, h
}

// randField is a heightfield with spans added at random (nothing wider than the
// interesting range of agent heights).
func randField(r *gen.R, maxDim int) *recast.Heightfield {
	w, h := randDims(r, maxDim)
	cs, ch := gen.Any(r, float32(0.3), 1, 0.1), gen.Any(r, float32(0.2), 1, 0.5)
	org := [3]float32{r.F(-50, 50), r.F(-50, 50), r.F(-50, 50)}
	end := [3]float32{org[0] + float32(w)*cs, org[1] + 100*ch, org[2] + float32(h)*cs}
	hf := recast.NewHeightfield(w, h, org[:], end[:], cs, ch)
	top := gen.Any(r, 12, 30, 80, 400)
	if r.P(0.03) {
		top = 8000
	}
	dense := gen.Any(r, 0.3, 0.8, 0.95)
	layers := gen.Any(r, 1, 2, 4, 8)
	base := r.U(0, 3)
	wobble := r.U(0, 3)
	dead := gen.Any(r, 0, 0.1, 0.4)
	for y := int32(0); y < h; y++ {
		for x := int32(0); x < w; x++ {
			if !r.P(dense) {
				continue
			}
			for l := 0; l < layers; l++ {
				lo := r.U(0, top)
				if r.P(0.7) { // floors shared by the columns
					lo = base + l*top/layers + r.U(0, wobble)
				}
				hi := lo + 1 + r.U(0, 3)*r.U(0, 3)
				area := uint8(gen.Any(r, walkable, walkable, walkable, 1, 2, 40))
				if r.P(dead) {
					area = 0
				}
				recast.VAddSpan(hf, x, y, uint16(lo), uint16(hi), area, int32(r.U(0, 1)))
			}
		}
	}
	return hf
}

// clipY clips a polygon to a rectangle in (x,z) and returns its heights.
func clipY(tri []v64, x0, x1, z0, z1 float64) (lo, hi float64, ok bool) {
	p := append([]v64{}, tri...)
	for _, cut := range []struct {
		axis  int
		at, s float64
	}{{0, x0, 1}, {0, x1, -1}, {2, z0, 1}, {2, z1, -1}} {
		var q []v64
		for i := range p {
			a, b := p[i], p[(i+1)%len(p)]
			da, db := (a[cut.axis]-cut.at)*cut.s, (b[cut.axis]-cut.at)*cut.s
			if da >= 0 {
				q = append(q, a)
			}
			if da < 0 != (db < 0) {
				q = append(q, lerp64(a, b, da/(da-db)))
			}
		}
		if p = q; len(p) == 0 {
			return 0, 0, false
		}
	}
	lo, hi = math.Inf(1), math.Inf(-1)
	for _, v := range p {
		lo, hi = math.Min(lo, v[1]), math.Max(hi, v[1])
	}
	return lo, hi, true
}

// smoothField is a heightfield of a few storeys with slopes, steps, holes and
// blocks; its areas come in patches.
func smoothField(r *gen.R, maxDim int) *recast.Heightfield {
	w, h := randDims(r, maxDim)
	cs, ch := gen.Any(r, float32(0.3), 1, 0.1), gen.Any(r, float32(0.2), 1, 0.5)
	org := [3]float32{r.F(-50, 50), r.F(-50, 50), r.F(-50, 50)}
	end := [3]float32{org[0] + float32(w)*cs, org[1] + 200*ch, org[2] + float32(h)*cs}
	hf := recast.NewHeightfield(w, h, org[:], end[:], cs, ch)
	type rect struct {
		x0, y0, x1, y1 int32
		v              int
	}
	rects := func(n, size, lo, hi int) (res []rect) {
		for ; n > 0; n-- {
			x, y := int32(r.U(-2, int(w))), int32(r.U(-2, int(h)))
			res = append(res, rect{x, y, x + int32(r.U(0, size)), y + int32(r.U(0, size)), r.U(lo, hi)})
		}
		return res
	}
	at := func(rs []rect, x, y int32, none int) int {
		for _, b := range rs {
			if x >= b.x0 && y >= b.y0 && x <= b.x1 && y <= b.y1 {
				return b.v
			}
		}
		return none
	}
	big := maxInt(int(w), int(h))
	storeys := gen.Any(r, 1, 1, 2, 3)
	for l := 0; l < storeys; l++ {
		holes := rects(r.U(0, gen.Any(r, 2, 6, 20)), gen.Any(r, 1, 3, big/3), 1, 1)
		blocks := rects(r.U(0, gen.Any(r, 0, 5, 15)), gen.Any(r, 0, 2, big/4), 1, 12)
		areas := rects(r.U(0, gen.Any(r, 0, 3, 10)), gen.Any(r, 2, 5, big/2), 0, 3)
		steps := rects(r.U(0, gen.Any(r, 0, 3, 8)), gen.Any(r, 2, 5, big/2), 0, 6)
		sx, sz := gen.Any(r, 0, 0, 1, 2, -1), gen.Any(r, 0, 0, 1, -1)
		den := r.U(1, 4)
		noise := gen.Any(r, 0, 0, 0, 1)
		cut := int32(-1)
		if l > 0 && r.P(0.5) { // a gallery
			cut = int32(r.U(0, int(w)))
		}
		for y := int32(0); y < h; y++ {
			for x := int32(0); x < w; x++ {
				if at(holes, x, y, 0) == 1 || cut >= 0 && x > cut {
					continue
				}
				top := 10 + l*20 + (sx*int(x)+sz*int(y))/den + at(steps, x, y, 0) + r.U(0, noise)
				lo := maxInt(0, top-1-r.U(0, 1))
				if top <= lo {
					top = lo + 1
				}
				if b := at(blocks, x, y, 0); b > 0 {
					recast.VAddSpan(hf, x, y, uint16(lo), uint16(top+b), uint8(gen.Any(r, 0, walkable)), 1)
					continue
				}
				a := uint8(walkable)
				if v := at(areas, x, y, walkable); v < walkable {
					a = uint8(v)
				}
				recast.VAddSpan(hf, x, y, uint16(lo), uint16(top), a, 1)
			}
		}
	}
	return hf
}

// randCompact is a compact heightfield ready for regions. It is consistent
// unless the agent climbs higher than half its height.
func randCompact(c *hx.Case, r *gen.R, maxDim int) *recast.CompactHeightfield {
	var hf *recast.Heightfield
	if r.P(0.75) {
		hf = smoothField(r, maxDim)
	} else {
		hf = randField(r, maxDim)
	}
	ctx := recast.NewBuildContext(false)
	height := r.U(3, 10)
	climb := r.U(0, (height-1)/2)
	if r.P(0.05) {
		climb = r.U(0, 12)
	}
	if r.P(0.6) {
		recast.FilterLowHangingWalkableObstacles(ctx, int32(climb), hf)
		recast.FilterLedgeSpans(ctx, int32(height), int32(climb), hf)
		recast.FilterWalkableLowHeightSpans(ctx, int32(height), hf)
	}
	chf := &recast.CompactHeightfield{}
	if !recast.BuildCompactHeightfield(ctx, int32(height), int32(climb), hf, chf) {
		c.Fatalf("BuildCompactHeightfield fails")
	}
	if r.P(0.3) {
		recast.ErodeWalkableArea(ctx, int32(r.U(1, 3)), chf)
	}
	return chf
}

// spanCells gives the cell of each span.
func spanCells(chf *recast.CompactHeightfield) (xs, ys []int) {
	for i, cell := range chf.Cells {
		for k := 0; k < int(cell.Count); k++ {
			xs, ys = append(xs, i%int(chf.Width)), append(ys, i/int(chf.Width))
		}
	}
	return xs, ys
}
