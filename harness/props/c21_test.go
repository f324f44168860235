package props

import (
	"testing"

	"github.com/arl/go-detour/recast"

	"verif/harness/gen"
	"verif/harness/hx"
)

var dirX, dirY = [4]int{-1, 0, 1, 0}, [4]int{0, 1, 0, -1}

const noCon = 0x3f

// cspan is an open span of the model.
type cspan struct {
	y, h int
	area uint8
}

// compactModel lists the open spans of a field.
func compactModel(f [][]rspan) [][]cspan {
	res := make([][]cspan, len(f))
	for i, col := range f {
		for k, g := range gaps(col) {
			if col[k].area != 0 {
				res[i] = append(res[i], cspan{g[0], minInt(g[1]-g[0], 255), col[k].area})
			}
		}
	}
	return res
}

// fits tells if an agent can step between two open spans.
func fits(a, b cspan, height, climb int) bool {
	return minInt(a.y+a.h, b.y+b.h)-maxInt(a.y, b.y) >= height && absInt(a.y-b.y) <= climb
}

// checkCompact compares a compact field to the model.
func checkCompact(c *hx.Case, chf *recast.CompactHeightfield, m [][]cspan, w, h, height, climb int) (cons, amb int) {
	total := 0
	for i := range m {
		cell := chf.Cells[i]
		if int(cell.Count) != len(m[i]) {
			c.Fatalf("cell %d,%d has %d spans, want %d", i%w, i/w, cell.Count, len(m[i]))
		}
		if len(m[i]) > 0 && int(cell.Index) != total {
			c.Fatalf("cell %d,%d starts at %d, want %d", i%w, i/w, cell.Index, total)
		}
		for k, s := range m[i] {
			cs := chf.Spans[total+k]
			if int(cs.Y) != s.y || int(cs.H) != s.h || chf.Areas[total+k] != s.area || cs.Reg != 0 {
				c.Fatalf("cell %d,%d span %d: floor %d open %d area %d region %d, want %v", i%w, i/w, k, cs.Y, cs.H, chf.Areas[total+k], cs.Reg, s)
			}
		}
		total += len(m[i])
	}
	if int(chf.SpanCount) != total || len(chf.Spans) != total || len(chf.Areas) != total {
		c.Fatalf("%d spans (%d, %d), want %d", chf.SpanCount, len(chf.Spans), len(chf.Areas), total)
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			for k, s := range m[x+y*w] {
				for dir := 0; dir < 4; dir++ {
					want, n := noCon, 0
					nx, ny := x+dirX[dir], y+dirY[dir]
					if nx >= 0 && ny >= 0 && nx < w && ny < h {
						for j, ns := range m[nx+ny*w] {
							if fits(s, ns, height, climb) {
								if want == noCon && j <= noCon-1 {
									want = j
								}
								n++
							}
						}
					}
					got := int(recast.GetCon(&chf.Spans[int(chf.Cells[x+y*w].Index)+k], int32(dir)))
					if got != want {
						c.Fatalf("cell %d,%d span %d direction %d is connected to %d, want %d", x, y, k, dir, got, want)
					}
					if n > 1 {
						amb++
					}
					if want == noCon {
						continue
					}
					cons++
					// The way back.
					back := int(recast.GetCon(&chf.Spans[int(chf.Cells[nx+ny*w].Index)+want], int32(dir+2)&3))
					if back != k {
						// Only where several spans could be it.
						m2 := 0
						for _, os := range m[x+y*w] {
							if fits(os, m[nx+ny*w][want], height, climb) {
								m2++
							}
						}
						if m2 < 2 {
							c.Fatalf("connection of %d,%d span %d in direction %d is not mutual", x, y, k, dir)
						}
					}
				}
			}
		}
	}
	return cons, amb
}

func TestC21(t *testing.T) {
	hx.Run(t, "compact", "a field with connected and unconnected neighbours", 80000, 1500000, func(c *hx.Case) {
		r := gen.New(c.T)
		hf := randField(r, r.Int("dim", 1, 12))
		f := field(c, hf)
		climb := gen.Any(r, 0, 1, 2, 3, 5, 9, 40, 63, 64, 100, 254, 255, 256, 1000, 0xffff, 100000)
		height := gen.Any(r, 3, 4, 6, 10, 30, 1)
		ctx := recast.NewBuildContext(r.Bool("log"))
		chf := &recast.CompactHeightfield{}
		if !recast.BuildCompactHeightfield(ctx, int32(height), int32(climb), hf, chf) {
			c.Fatalf("BuildCompactHeightfield fails")
		}
		if d := diffField(hf, field(c, hf), f); d != "" {
			c.Fatalf("the heightfield is changed: %s", d)
		}
		if chf.Width != hf.Width || chf.Height != hf.Height || chf.Cs != hf.Cs || chf.Ch != hf.Ch || chf.BMin != hf.BMin ||
			chf.BMax != [3]float32{hf.BMax[0], hf.BMax[1] + float32(height)*hf.Ch, hf.BMax[2]} ||
			int(chf.WalkableHeight) != height || int(chf.WalkableClimb) != climb || chf.MaxRegions != 0 || len(chf.Cells) != len(f) {
			c.Fatalf("wrong description %+v of %+v", chf, hf)
		}
		m := compactModel(f)
		cons, amb := checkCompact(c, chf, m, int(hf.Width), int(hf.Height), height, climb)
		c.LabelIf(amb > 0, "ambiguous neighbours")
		if cons > 0 && cons < 4*int(chf.SpanCount) {
			c.Nontrivial(m, height, climb)
		}
		c.Sample("%dx%d, %d spans, %d connections, climb %d height %d", hf.Width, hf.Height, chf.SpanCount, cons, climb, height)
	})

	hx.Run(t, "layers", "columns of more layers than a connection can tell", 600, 20000, func(c *hx.Case) {
		r := gen.New(c.T)
		w, h := int32(r.Int("w", 1, 4)), int32(r.Int("h", 1, 4))
		hf := recast.NewHeightfield(w, h, []float32{0, 0, 0}, []float32{float32(w), 1000, float32(h)}, 1, 1)
		step := r.U(5, 9)
		most := 0
		for i := int32(0); i < w*h; i++ {
			n := r.U(40, 200)
			most = maxInt(most, n)
			for l := 0; l < n; l++ {
				recast.VAddSpan(hf, i%w, i/w, uint16(l*step), uint16(l*step+1+r.U(0, 1)), uint8(1+r.U(0, 62)), 1)
			}
		}
		climb, height := r.U(0, 2), r.U(1, 4)
		chf := &recast.CompactHeightfield{}
		if !recast.BuildCompactHeightfield(recast.NewBuildContext(true), int32(height), int32(climb), hf, chf) {
			return // refused: fine
		}
		m := compactModel(field(c, hf))
		cons, _ := checkCompact(c, chf, m, int(w), int(h), height, climb)
		if most > noCon && cons > 0 {
			c.Nontrivial(w, h, m)
		}
		c.Sample("%dx%d columns of up to %d layers, %d connections", w, h, most, cons)
	})

	hx.Run(t, "connections", "a connection set again", 200000, 2000000, func(c *hx.Case) {
		r := gen.New(c.T)
		var s recast.CompactSpan
		s.Con = uint32(r.U(0, 1<<24-1))
		s.Y, s.H, s.Reg = uint16(r.U(0, 65535)), uint8(r.U(0, 255)), uint16(r.U(0, 65535))
		before := s
		var want [4]int32
		for d := range want {
			want[d] = recast.GetCon(&s, int32(d))
			if want[d] != int32(s.Con>>(6*d)&0x3f) {
				c.Fatalf("connection %d of %x is %d", d, s.Con, want[d])
			}
		}
		n := r.Int("n", 1, 12)
		for k := 0; k < n; k++ {
			d, v := r.U(0, 3), int32(r.U(0, noCon))
			recast.SetCon(&s, int32(d), v)
			want[d] = v
			for e := range want {
				if got := recast.GetCon(&s, int32(e)); got != want[e] {
					c.Fatalf("connection %d set to %d: connection %d is %d, want %d", d, v, e, got, want[e])
				}
			}
		}
		if s.Y != before.Y || s.H != before.H || s.Reg != before.Reg || s.Con>>24 != 0 {
			c.Fatalf("setting connections turns %+v into %+v", before, s)
		}
		for d := 0; d < 4; d++ {
			x, y := recast.GetDirOffsetX(int32(d)), recast.GetDirOffsetY(int32(d))
			if int(x) != dirX[d] || int(y) != dirY[d] || recast.GetDirForOffset(x, y) != int32(d) {
				c.Fatalf("direction %d is %d,%d", d, x, y)
			}
		}
		if n > 1 {
			c.Nontrivial(s)
		}
		c.Sample("%d connections set: %06x", n, s.Con)
	})
}
