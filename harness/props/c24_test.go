package props

import (
	"fmt"
	"testing"

	"github.com/arl/go-detour/recast"

	"verif/harness/gen"
	"verif/harness/hx"
)

const borderFlag = 0x8000

// outline is the sequence of what lies beyond the edges of a region, one cyclic
// list of labels for each closed loop of edges.
func outlines(chf *recast.CompactHeightfield, xs, ys []int, label func(i int) int, reg int, members []int) [][]int {
	type edge struct{ i, dir int }
	beyond := func(i, dir int) (int, int) { // label, neighbour
		_, _, ni, ok := conAt(chf, xs[i], ys[i], i, dir)
		if !ok {
			return 0, -1
		}
		return label(ni), ni
	}
	seen := map[edge]bool{}
	var res [][]int
	for _, m := range members {
		for d := 0; d < 4; d++ {
			if l, _ := beyond(m, d); l == reg || seen[edge{m, d}] {
				continue
			}
			var loop []int
			e := edge{m, d}
			for !seen[e] {
				seen[e] = true
				l, _ := beyond(e.i, e.dir)
				if len(loop) == 0 || loop[len(loop)-1] != l {
					loop = append(loop, l)
				}
				// Follow the border: the next edge starts where this one ends.
				n := edge{e.i, (e.dir + 1) & 3}
				for k := 0; k < 4; k++ {
					l, ni := beyond(n.i, n.dir)
					if l != reg {
						break
					}
					n = edge{ni, (n.dir + 3) & 3}
				}
				e = n
			}
			for len(loop) > 1 && loop[0] == loop[len(loop)-1] {
				loop = loop[:len(loop)-1]
			}
			res = append(res, loop)
		}
	}
	return res
}

// slits lists the regions with neighbouring cells which are not connected: a
// wall without thickness.
func slits(chf *recast.CompactHeightfield, regs []int, areas []uint8) map[int]bool {
	res := map[int]bool{}
	w, h := int(chf.Width), int(chf.Height)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			cell := chf.Cells[x+y*w]
			for i := int(cell.Index); i < int(cell.Index)+int(cell.Count); i++ {
				for d := 0; d < 4; d++ {
					nx, ny := x+dirX[d], y+dirY[d]
					if nx < 0 || ny < 0 || nx >= w || ny >= h {
						continue
					}
					if _, _, _, ok := conAt(chf, x, y, i, d); ok {
						continue
					}
					n := chf.Cells[nx+ny*w]
					for j := int(n.Index); j < int(n.Index)+int(n.Count); j++ {
						if regs[j] == regs[i] && areas[i] != 0 && areas[j] != 0 {
							res[regs[i]] = true
						}
					}
				}
			}
		}
	}
	return res
}

func TestC24(t *testing.T) {
	hx.Run(t, "monotone", "at least two regions, or walkable spans without one", 90000, 500000, func(c *hx.Case) {
		r := gen.New(c.T)
		chf := randCompact(c, r, gen.Pick(r, "dim", 24, 12, 40, 4, 60))
		w, h := int(chf.Width), int(chf.Height)
		border := 0
		if r.Bool("border") {
			border = r.U(0, 6)
		}
		minArea, mergeArea := gen.Any(r, 0, 1, 4, 8, 20, 64), gen.Any(r, 0, 3, 20, 400, 100000)
		ctx := recast.NewBuildContext(false)
		areas := append([]uint8{}, chf.Areas...)
		spans := append([]recast.CompactSpan{}, chf.Spans...)
		what := fmt.Sprintf("%dx%d border %d min %d merge %d", w, h, border, minArea, mergeArea)
		if !recast.BuildRegionsMonotone(ctx, chf, int32(border), int32(minArea), int32(mergeArea)) {
			c.Fatalf("BuildRegionsMonotone fails")
		}
		xs, ys := spanCells(chf)
		regs := make([]int, len(spans))
		for i := range spans {
			regs[i] = int(chf.Spans[i].Reg)
			spans[i].Reg = chf.Spans[i].Reg
			if spans[i] != chf.Spans[i] || areas[i] != chf.Areas[i] {
				c.Fatalf("span %d changes", i)
			}
		}
		if !consistent(chf) {
			c.Label("ambiguous neighbours")
			return
		}
		inBorder := func(i int) bool {
			return xs[i] < border || ys[i] < border || xs[i] >= w-border || ys[i] >= h-border
		}
		// Border and unwalkable spans.
		members := map[int][]int{}
		for i, g := range regs {
			switch {
			case areas[i] == 0:
				if g != 0 {
					c.Fatalf("%s: unwalkable span of %d,%d in region %x", what, xs[i], ys[i], g)
				}
			case inBorder(i):
				in := map[int]bool{1: xs[i] < border, 2: xs[i] >= w-border, 3: ys[i] < border, 4: ys[i] >= h-border}
				if g&borderFlag == 0 || !in[g&^borderFlag] {
					c.Fatalf("%s: border span of %d,%d in region %x", what, xs[i], ys[i], g)
				}
			default:
				if g&borderFlag != 0 || g > int(chf.MaxRegions) {
					c.Fatalf("%s: span of %d,%d in region %x (max %d)", what, xs[i], ys[i], g, chf.MaxRegions)
				}
				if g != 0 {
					members[g] = append(members[g], i)
				}
			}
		}
		// Connected components of the walkable spans (border excluded).
		comp := make([]int, len(regs))
		none := 0
		for s := range regs {
			if comp[s] != 0 || areas[s] == 0 || inBorder(s) {
				continue
			}
			stack := []int{s}
			comp[s] = s + 1
			size, toBorder, dropped, kept := 0, false, 0, 0
			for len(stack) > 0 {
				i := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				size++
				if regs[i] == 0 {
					dropped++
				} else {
					kept++
				}
				for d := 0; d < 4; d++ {
					_, _, ni, ok := conAt(chf, xs[i], ys[i], i, d)
					if !ok || areas[ni] == 0 {
						continue
					}
					if inBorder(ni) {
						toBorder = true
						continue
					}
					if comp[ni] == 0 {
						comp[ni] = s + 1
						stack = append(stack, ni)
					}
				}
			}
			small := size < minArea && !toBorder
			if small && kept > 0 || !small && dropped > 0 {
				c.Fatalf("%s: island of %d spans around %d,%d (at the border: %v): %d spans have no region", what, size, xs[s], ys[s], toBorder, dropped)
			}
			none += dropped
		}
		// The regions themselves.
		label := func(i int) int { return regs[i] }
		loops := map[int][]int{}
		slit := slits(chf, regs, areas)
		overlap := map[[2]int]bool{}
		for _, cell := range chf.Cells {
			for i := int(cell.Index); i < int(cell.Index)+int(cell.Count); i++ {
				for j := int(cell.Index); j < i; j++ {
					overlap[[2]int{regs[i], regs[j]}] = true
					overlap[[2]int{regs[j], regs[i]}] = true
				}
			}
		}
		for g, ms := range members {
			seen := map[int]bool{ms[0]: true}
			stack := []int{ms[0]}
			for len(stack) > 0 {
				i := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if areas[i] != areas[ms[0]] {
					c.Fatalf("%s: region %d has areas %d and %d", what, g, areas[i], areas[ms[0]])
				}
				for d := 0; d < 4; d++ {
					if _, _, ni, ok := conAt(chf, xs[i], ys[i], i, d); ok && regs[ni] == g && !seen[ni] {
						seen[ni] = true
						stack = append(stack, ni)
					}
				}
			}
			if len(seen) != len(ms) {
				c.Fatalf("%s: region %d has %d spans, %d of them connected", what, g, len(ms), len(seen))
			}
			if overlap[[2]int{g, g}] {
				c.Fatalf("%s: region %d is twice in a column", what, g)
			}
			ol := outlines(chf, xs, ys, label, g, ms)
			if slit[g] {
				c.Label("slit")
				continue
			}
			if len(ol) != 1 {
				c.Fatalf("%s: region %d has %d outlines", what, g, len(ol))
			}
			loops[g] = ol[0]
		}
		// Small regions are merged as far as possible.
		count := func(loop []int, g int) (n int) {
			for _, l := range loop {
				if l == g {
					n++
				}
			}
			return n
		}
		for g, loop := range loops {
			if len(members[g]) > mergeArea && count(loop, 0) > 0 {
				continue
			}
			for _, o := range loop {
				if members[o] == nil || slit[o] || areas[members[o][0]] != areas[members[g][0]] || overlap[[2]int{g, o}] {
					continue
				}
				if count(loop, o) == 1 && count(loops[o], g) == 1 {
					c.Fatalf("%s: region %d (%d spans) is not merged with %d (%d spans)", what, g, len(members[g]), o, len(members[o]))
				}
			}
		}
		if len(members) > 1 || none > 0 {
			c.Nontrivial(what, regs)
		}
		c.LabelIf(none > 0, "removed islands")
		c.Sample("%s: %d regions of %d spans, %d spans without region", what, len(members), len(regs), none)
	})
}
