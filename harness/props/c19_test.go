package props

import (
	"testing"

	"github.com/arl/go-detour/recast"

	"verif/harness/gen"
	"verif/harness/hx"
)

func TestC19(t *testing.T) {
	hx.Run(t, "columns", "an addition which merges at least two spans", 800000, 12000000, func(c *hx.Case) {
		r := gen.New(c.T)
		w, h := int32(r.Int("w", 1, 4)), int32(r.Int("h", 1, 3))
		hf := recast.NewHeightfield(w, h, []float32{0, 0, 0}, []float32{float32(w), 100, float32(h)}, 1, 1)
		model := make([][]rspan, w*h)
		top := gen.Any(r, 6, 20, 100, 65535)
		thick := gen.Any(r, 1, 3, top)
		nareas := gen.Any(r, 1, 4, 63)
		n := r.Int("spans", 1, 40)
		merged := 0
		fixedThr := r.P(0.5)
		thr0 := r.U(0, 3)
		for k := 0; k < n; k++ {
			x, y := int32(r.U(0, int(w)-1)), int32(r.U(0, int(h)-1))
			lo := r.U(0, top-1)
			hi := minInt(lo+r.U(1, thick), top)
			s := rspan{lo, hi, uint8(r.U(0, nareas))}
			thr := thr0
			if !fixedThr {
				thr = gen.Any(r, 0, 1, 2, 5, 1000)
			}
			col := &model[x+y*w]
			before := len(*col)
			*col = addModel(*col, s, thr)
			if len(*col) < before {
				merged++
			}
			if !recast.VAddSpan(hf, x, y, uint16(lo), uint16(hi), s.area, int32(thr)) {
				c.Fatalf("a span is not added")
			}
			got := column(c, hf, x, y)
			for i := range got {
				if got[i].min >= got[i].max || i > 0 && got[i-1].max >= got[i].min {
					c.Fatalf("column %v is not a sorted list of separate spans", got)
				}
			}
			if !sameColumn(got, *col) {
				c.Fatalf("span %v (threshold %d) added: column %v, want %v", s, thr, got, *col)
			}
		}
		if d := diffField(hf, field(c, hf), model); d != "" {
			c.Fatalf("other columns changed: %s", d)
		}
		want := int32(0)
		for _, col := range model {
			for _, s := range col {
				if s.area != 0 {
					want++
				}
			}
		}
		if got := hf.GetHeightFieldSpanCount(recast.NewBuildContext(false)); got != want {
			c.Fatalf("%d walkable spans counted, want %d", got, want)
		}
		if merged > 0 {
			c.Nontrivial(model, n)
		}
		c.Sample("%d spans in %dx%d columns up to %d, %d mergers", n, w, h, top, merged)
	})

	hx.Run(t, "pools", "more spans alive than two pools hold, with mergers in between", 240, 6000, func(c *hx.Case) {
		r := gen.New(c.T)
		w, h := int32(r.Int("w", 20, 60)), int32(r.U(20, 60))
		hf := recast.NewHeightfield(w, h, []float32{0, 0, 0}, []float32{float32(w), 100, float32(h)}, 1, 1)
		model := make([][]rspan, w*h)
		n := r.U(5000, 20000)
		for k := 0; k < n; k++ {
			x, y := int32(r.U(0, int(w)-1)), int32(r.U(0, int(h)-1))
			lo := r.U(0, 60)
			s := rspan{lo, lo + 1 + r.U(0, 2), uint8(r.U(0, 63))}
			if r.P(0.02) {
				s.max = lo + r.U(5, 80) // frees several
			}
			model[x+y*w] = addModel(model[x+y*w], s, 1)
			if !recast.VAddSpan(hf, x, y, uint16(s.min), uint16(s.max), s.area, 1) {
				c.Fatalf("a span is not added")
			}
		}
		alive := 0
		for _, col := range model {
			alive += len(col)
		}
		if d := diffField(hf, field(c, hf), model); d != "" {
			c.Fatalf("after %d additions: %s", n, d)
		}
		if alive > 4096 {
			c.Nontrivial(w, h, n, alive)
		}
		c.Sample("%d spans added to %dx%d columns, %d left", n, w, h, alive)
		hf.Free()
	})
}
