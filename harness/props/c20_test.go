package props

import (
	"testing"

	"github.com/arl/go-detour/recast"

	"verif/harness/gen"
	"verif/harness/hx"
)

const noCeiling = 0xffff

func absInt(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// lowModel lets a walkable span carry what hangs just above it.
func lowModel(f [][]rspan, climb int) int {
	n := 0
	for i, col := range f {
		res := append([]rspan{}, col...)
		for k := 1; k < len(col); k++ {
			if col[k].area == 0 && col[k-1].area != 0 && col[k].max-col[k-1].max <= climb {
				res[k].area = col[k-1].area
				n++
			}
		}
		f[i] = res
	}
	return n
}

// gaps are the open intervals of a column.
func gaps(col []rspan) (res [][2]int) {
	for i, s := range col {
		top := noCeiling
		if i+1 < len(col) {
			top = col[i+1].min
		}
		res = append(res, [2]int{s.max, top})
	}
	return res
}

// ledgeModel removes walkability next to a drop or on too steep ground.
func ledgeModel(f [][]rspan, w, h, height, climb int) int {
	n := 0
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			col := f[x+y*w]
			for k, g := range gaps(col) {
				if col[k].area == 0 {
					continue
				}
				ledge := false
				lo, hi := g[0], g[0]
				for _, d := range [][2]int{{-1, 0}, {1, 0}, {0, -1}, {0, 1}} {
					nx, ny := x+d[0], y+d[1]
					if nx < 0 || ny < 0 || nx >= w || ny >= h {
						ledge = true // floors are above the base: the field ends in a drop
						continue
					}
					// Below the lowest span there is a floor out of reach.
					low := [2]int{-climb, noCeiling}
					if ncol := f[nx+ny*w]; len(ncol) > 0 {
						low[1] = ncol[0].min
					}
					for i, ng := range append([][2]int{low}, gaps(f[nx+ny*w])...) {
						if minInt(g[1], ng[1])-maxInt(g[0], ng[0]) <= height {
							continue // the agent does not fit through
						}
						if g[0]-ng[0] > climb {
							ledge = true
						}
						if i > 0 && absInt(ng[0]-g[0]) <= climb {
							lo, hi = minInt(lo, ng[0]), maxInt(hi, ng[0])
						}
					}
				}
				if ledge || hi-lo > climb {
					col[k].area = 0
					n++
				}
			}
		}
	}
	return n
}

// headModel removes walkability where an agent can not stand.
func headModel(f [][]rspan, height int) int {
	n := 0
	for _, col := range f {
		for k, g := range gaps(col) {
			if g[1]-g[0] <= height {
				if col[k].area != 0 {
					n++
				}
				col[k].area = 0
			}
		}
	}
	return n
}

func TestC20(t *testing.T) {
	hx.Run(t, "filters", "a filter which changes spans and leaves others walkable", 160000, 1200000, func(c *hx.Case) {
		r := gen.New(c.T)
		hf := randField(r, r.Int("dim", 1, 12))
		ctx := recast.NewBuildContext(r.Bool("log"))
		model := field(c, hf)
		climb := gen.Any(r, 0, 1, 2, 3, 5, 9, 40)
		height := gen.Any(r, 3, 4, 6, 10, 30)
		n := r.Int("filters", 1, 4)
		for k := 0; k < n; k++ {
			changed := 0
			name := ""
			if r.P(0.2) {
				climb, height = r.U(0, 10), r.U(1, 20)
			}
			switch (k + r.U(0, 2)) % 3 {
			case 0:
				name = "FilterLowHangingWalkableObstacles"
				changed = lowModel(model, climb)
				recast.FilterLowHangingWalkableObstacles(ctx, int32(climb), hf)
			case 1:
				name = "FilterLedgeSpans"
				changed = ledgeModel(model, int(hf.Width), int(hf.Height), height, climb)
				recast.FilterLedgeSpans(ctx, int32(height), int32(climb), hf)
			case 2:
				name = "FilterWalkableLowHeightSpans"
				changed = headModel(model, height)
				recast.FilterWalkableLowHeightSpans(ctx, int32(height), hf)
			}
			if d := diffField(hf, field(c, hf), model); d != "" {
				c.Fatalf("%s(climb %d, height %d) on %dx%d: %s", name, climb, height, hf.Width, hf.Height, d)
			}
			left := 0
			for _, col := range model {
				for _, s := range col {
					if s.area != 0 {
						left++
					}
				}
			}
			c.LabelIf(changed > 0, name)
			if changed > 0 && left > 0 {
				c.Nontrivial(name, model)
				c.Sample("%s climb %d height %d on %dx%d: %d changed, %d walkable left", name, climb, height, hf.Width, hf.Height, changed, left)
			}
		}
	})
}
