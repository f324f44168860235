package props

import (
	"testing"

	"github.com/arl/go-detour/recast"

	"verif/harness/gen"
	"verif/harness/hx"
)

// conAt follows the connection of span i of cell x,y.
func conAt(chf *recast.CompactHeightfield, x, y, i, dir int) (nx, ny, ni int, ok bool) {
	con := int(chf.Spans[i].Con >> (6 * uint(dir)) & 0x3f)
	if con == noCon {
		return 0, 0, 0, false
	}
	nx, ny = x+dirX[dir], y+dirY[dir]
	return nx, ny, int(chf.Cells[nx+ny*int(chf.Width)].Index) + con, true
}

// chamfer is the distance (2 per side, 3 per diagonal) of all spans to the
// nearest one which is unwalkable or misses a walkable neighbour.
func chamfer(chf *recast.CompactHeightfield) []int {
	const far = 1 << 30
	w, h := int(chf.Width), int(chf.Height)
	dist := make([]int, chf.SpanCount)
	// who looks at a span: reverse edges
	type edge struct{ to, d int32 }
	rev := make([][]edge, chf.SpanCount)
	for i := range dist {
		dist[i] = far
	}
	var buckets [][]int32
	push := func(i int32, d int) {
		for len(buckets) <= d {
			buckets = append(buckets, nil)
		}
		buckets[d] = append(buckets[d], i)
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			cell := chf.Cells[x+y*w]
			for i := int(cell.Index); i < int(cell.Index)+int(cell.Count); i++ {
				n := 0
				for dir := 0; dir < 4; dir++ {
					nx, ny, ni, ok := conAt(chf, x, y, i, dir)
					if !ok {
						continue
					}
					if chf.Areas[ni] != 0 {
						n++
					}
					rev[ni] = append(rev[ni], edge{int32(i), 2})
					if _, _, di, ok := conAt(chf, nx, ny, ni, (dir+3)&3); ok {
						rev[di] = append(rev[di], edge{int32(i), 3})
					}
				}
				if chf.Areas[i] == 0 || n < 4 {
					dist[i] = 0
					push(int32(i), 0)
				}
			}
		}
	}
	for d := 0; d < len(buckets); d++ {
		for k := 0; k < len(buckets[d]); k++ {
			i := buckets[d][k]
			if dist[i] != d {
				continue
			}
			for _, e := range rev[i] {
				if nd := d + int(e.d); nd < dist[e.to] {
					dist[e.to] = nd
					push(e.to, nd)
				}
			}
		}
	}
	return dist
}

// consistent tells if the connections are mutual and both ways around a corner
// lead to the same span: what looks flat locally is flat.
func consistent(chf *recast.CompactHeightfield) bool {
	w := int(chf.Width)
	for cell := range chf.Cells {
		x, y := cell%w, cell/w
		for i := int(chf.Cells[cell].Index); i < int(chf.Cells[cell].Index)+int(chf.Cells[cell].Count); i++ {
			for dir := 0; dir < 4; dir++ {
				nx, ny, ni, ok := conAt(chf, x, y, i, dir)
				if !ok {
					continue
				}
				if _, _, bi, ok := conAt(chf, nx, ny, ni, (dir+2)&3); !ok || bi != i {
					return false
				}
				_, _, di, ok := conAt(chf, nx, ny, ni, (dir+1)&3)
				ox, oy, oi, ok2 := conAt(chf, x, y, i, (dir+1)&3)
				if !ok || !ok2 {
					continue
				}
				if _, _, ei, ok := conAt(chf, ox, oy, oi, dir); ok && ei != di {
					return false
				}
			}
		}
	}
	return true
}

// plateau is a big flat field with a few holes, steps and dead cells.
func plateau(r *gen.R, lo, hi int) *recast.Heightfield {
	w, h := int32(r.U(lo, hi)), int32(r.U(lo, hi))
	hf := recast.NewHeightfield(w, h, []float32{0, 0, 0}, []float32{float32(w), 100, float32(h)}, 1, 1)
	type rect struct{ x0, y0, x1, y1 int32 }
	var holes, dead, up []rect
	for n := r.U(0, 6); n > 0; n-- {
		x, y := int32(r.U(0, int(w)-1)), int32(r.U(0, int(h)-1))
		b := rect{x, y, x + int32(r.U(0, int(w)/8)), y + int32(r.U(0, int(h)/8))}
		switch r.U(0, 2) {
		case 0:
			holes = append(holes, b)
		case 1:
			dead = append(dead, b)
		case 2:
			up = append(up, b)
		}
	}
	in := func(rs []rect, x, y int32) bool {
		for _, b := range rs {
			if x >= b.x0 && y >= b.y0 && x <= b.x1 && y <= b.y1 {
				return true
			}
		}
		return false
	}
	top := uint16(r.U(1, 3))
	for y := int32(0); y < h; y++ {
		for x := int32(0); x < w; x++ {
			if in(holes, x, y) {
				continue
			}
			area, t := uint8(walkable), top
			if in(dead, x, y) {
				area = 0
			}
			if in(up, x, y) {
				t += 2
			}
			recast.VAddSpan(hf, x, y, 0, t, area, 1)
		}
	}
	return hf
}

func erodeCheck(c *hx.Case, r *gen.R, hf *recast.Heightfield, radii ...int) {
	climb, height := gen.Any(r, 0, 1, 2, 3, 9), gen.Any(r, 3, 6, 10)
	chf := &recast.CompactHeightfield{}
	ctx := recast.NewBuildContext(false)
	if !recast.BuildCompactHeightfield(ctx, int32(height), int32(climb), hf, chf) {
		c.Fatalf("BuildCompactHeightfield fails")
	}
	dist := chamfer(chf)
	exact := consistent(chf)
	c.LabelIf(!exact, "ambiguous neighbours")
	max := 0
	for _, d := range dist {
		if d < 1<<30 {
			max = maxInt(max, d)
		}
	}
	areas := append([]uint8{}, chf.Areas...)
	spans := append([]recast.CompactSpan{}, chf.Spans...)
	for _, radius := range radii {
		copy(chf.Areas, areas)
		if !recast.ErodeWalkableArea(ctx, int32(radius), chf) {
			c.Fatalf("ErodeWalkableArea fails")
		}
		gone, left := 0, 0
		for i, a := range chf.Areas {
			want := areas[i]
			if dist[i] < 2*radius {
				want = 0
			}
			if !exact && dist[i] > 0 && a == areas[i] {
				want = a // sweeps may not reach around ambiguous corners
			}
			if a != want {
				c.Fatalf("radius %d (%dx%d, climb %d): area %d of a span at distance %d/2 becomes %d, want %d", radius, hf.Width, hf.Height, climb, areas[i], dist[i], a, want)
			}
			if a != areas[i] {
				gone++
			} else if a != 0 {
				left++
			}
			if chf.Spans[i] != spans[i] {
				c.Fatalf("span %d changes from %+v to %+v", i, spans[i], chf.Spans[i])
			}
		}
		if gone > 0 && left > 0 {
			c.Nontrivial(radius, hf.Width, hf.Height, areas, len(dist), gone)
			c.LabelIf(2*radius > 255, "radius over 127")
		}
		c.Sample("%dx%d: radius %d erodes %d spans, leaves %d (deepest %d/2)", hf.Width, hf.Height, radius, gone, left, max)
	}
}

func TestC22(t *testing.T) {
	hx.Run(t, "layered", "an erosion which takes some walkable spans and leaves some", 60000, 1000000, func(c *hx.Case) {
		r := gen.New(c.T)
		hf := randField(r, r.Int("dim", 3, 25))
		erodeCheck(c, r, hf, r.Int("radius", 1, 5), r.U(1, 254))
	})
	hx.Run(t, "plateau", "an erosion which takes some walkable spans and leaves some", 8000, 200000, func(c *hx.Case) {
		r := gen.New(c.T)
		hf := plateau(r, 1, 50)
		erodeCheck(c, r, hf, r.Int("radius", 1, 25), r.U(1, 30))
	})
	hx.Run(t, "deep", "an erosion which takes some walkable spans and leaves some", 100, 2000, func(c *hx.Case) {
		r := gen.New(c.T)
		hf := plateau(r, 200, 540)
		erodeCheck(c, r, hf, r.Int("radius", 1, 254), r.U(100, 254), r.U(60, 140))
	})
}
