package props

import (
	"fmt"
	"sort"

	"github.com/arl/go-detour/recast"

	"verif/harness/gen"
	"verif/harness/hx"
)

// labelComponents makes one region of all connected spans of the same area.
func labelComponents(chf *recast.CompactHeightfield, r *gen.R) map[int][]int {
	xs, ys := spanCells(chf)
	members := map[int][]int{}
	order := r.Perm(len(xs))
	g := 0
	for _, s := range order {
		if chf.Areas[s] == 0 || chf.Spans[s].Reg != 0 {
			continue
		}
		g++
		stack := []int{s}
		chf.Spans[s].Reg = uint16(g)
		for len(stack) > 0 {
			i := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			members[g] = append(members[g], i)
			for d := 0; d < 4; d++ {
				if _, _, ni, ok := conAt(chf, xs[i], ys[i], i, d); ok && chf.Areas[ni] == chf.Areas[i] && chf.Spans[ni].Reg == 0 {
					chf.Spans[ni].Reg = uint16(g)
					stack = append(stack, ni)
				}
			}
		}
	}
	chf.MaxRegions = uint16(g)
	for _, ms := range members {
		sort.Ints(ms)
	}
	return members
}

// crosses tells if two segments cross properly.
func crosses(a, b, p, q rawVert) bool {
	o := func(a, b, c rawVert) int {
		d := (b.x-a.x)*(c.z-a.z) - (c.x-a.x)*(b.z-a.z)
		switch {
		case d > 0:
			return 1
		case d < 0:
			return -1
		}
		return 0
	}
	return o(a, b, p)*o(a, b, q) < 0 && o(p, q, a)*o(p, q, b) < 0
}

// wallsCompact makes a flat field with walls around each other: holes which
// see the outline of their region only through gaps in other holes.
func wallsCompact(c *hx.Case, r *gen.R) *recast.CompactHeightfield {
	w, h := r.U(6, 28), r.U(6, 28)
	hf := recast.NewHeightfield(int32(w), int32(h), []float32{0, 0, 0}, []float32{float32(w), 20, float32(h)}, 1, 1)
	top := func(x, z int) uint16 { return uint16(2) }
	if r.P(0.3) {
		top = func(x, z int) uint16 { return uint16(2 + x/5 + z/7) }
	}
	for z := 0; z < h; z++ {
		for x := 0; x < w; x++ {
			recast.VAddSpan(hf, int32(x), int32(z), 0, top(x, z), 1, 1)
		}
	}
	ctx := recast.NewBuildContext(false)
	chf := &recast.CompactHeightfield{}
	if !recast.BuildCompactHeightfield(ctx, 3, 1, hf, chf) {
		c.Fatalf("BuildCompactHeightfield fails")
	}
	put := func(x, z, area int) {
		if x >= 0 && z >= 0 && x < w && z < h {
			chf.Areas[chf.Cells[x+z*w].Index] = uint8(area)
		}
	}
	var ring func(x0, z0, x1, z1, area int)
	ring = func(x0, z0, x1, z1, area int) {
		if x1 < x0 || z1 < z0 {
			return
		}
		var cells [][2]int
		for x := x0; x <= x1; x++ {
			cells = append(cells, [2]int{x, z0})
		}
		for z := z0 + 1; z <= z1; z++ {
			cells = append(cells, [2]int{x1, z})
		}
		if z1 > z0 && x1 > x0 {
			for x := x1 - 1; x >= x0; x-- {
				cells = append(cells, [2]int{x, z1})
			}
			for z := z1 - 1; z > z0; z-- {
				cells = append(cells, [2]int{x0, z})
			}
		}
		gap, at := gen.Any(r, 1, 1, 2, 3, 0), r.U(0, len(cells)-1)
		for i, k := range cells {
			if d := (i - at + len(cells)) % len(cells); d >= gap || len(cells) <= 2 {
				put(k[0], k[1], area)
			}
		}
		in := gen.Any(r, 2, 2, 3)
		if r.P(0.85) {
			ring(x0+in, z0+in, x1-in, z1-in, area)
		}
	}
	for n := r.U(1, 4); n > 0; n-- {
		area := gen.Any(r, 0, 0, 0, 2)
		x0, z0 := r.U(1, w-2), r.U(1, h-2)
		if r.P(0.7) {
			x0, z0 = r.U(1, 3), r.U(1, 3)
		}
		x1, z1 := r.U(x0, w-2), r.U(z0, h-2)
		if r.P(0.5) {
			x1, z1 = w-2, h-2
		}
		ring(x0, z0, x1, z1, area)
	}
	return chf
}

// holesCheck builds contours of regions with holes.
func holesCheck(c *hx.Case) {
	r := gen.New(c.T)
	var chf *recast.CompactHeightfield
	if r.P(0.3) {
		chf = wallsCompact(c, r)
		c.Label("nested walls")
	} else if chf = randCompact(c, r, gen.Pick(r, "dim", 8, 12, 24)); !consistent(chf) {
		return
	}
	members := labelComponents(chf, r)
	o := simplifyOpts{maxError: float64(gen.Any(r, float32(0), 0, 0, 0, 1.3, 3))}
	if r.P(0.3) {
		o.maxEdge, o.walls, o.area = gen.Any(r, 0, 1, 3, 12), r.P(0.7), r.P(0.3)
	}
	ctx := recast.NewBuildContext(false)
	cset := &recast.ContourSet{}
	if !recast.BuildContours(ctx, chf, float32(o.maxError), int32(o.maxEdge), cset, o.flags()) {
		c.Fatalf("BuildContours fails")
	}
	checkContourSet(c, cset, chf, o)
	what := fmt.Sprintf("%dx%d, %+v", chf.Width, chf.Height, o)
	xs, ys := spanCells(chf)
	regs := make([]int, chf.SpanCount)
	for i := range regs {
		regs[i] = int(chf.Spans[i].Reg)
	}
	slit := slits(chf, regs, chf.Areas)
	byReg := map[int][]recast.Contour{}
	for _, cont := range cset.Conts[:cset.NConts] {
		byReg[int(cont.Reg)] = append(byReg[int(cont.Reg)], cont)
	}
	for g, ms := range members {
		if slit[g] || len(ms) == 1 {
			continue
		}
		loops := rawLoops(chf, xs, ys, regs, ms)
		// Every outline that shows has its raw contour.
		conts := byReg[g]
		used := make([]bool, len(conts))
		shown := 0
		corners := map[[2]int]bool{}
		pinched := false
		overlap := false // simplified outlines may run into each other
		for _, raw := range loops {
			for _, v := range raw {
				pinched = pinched || corners[[2]int{v.x, v.z}]
				corners[[2]int{v.x, v.z}] = true
			}
			found := -1
			for k := range conts {
				if !used[k] && sameLoop(contourVerts(conts[k].RVerts, conts[k].NRVerts), raw) {
					found = k
					break
				}
			}
			if found < 0 {
				if !mayVanish(raw, o) {
					c.Fatalf("%s: outline %v of region %d has no contour", what, raw, g)
				}
				overlap = true
				continue
			}
			used[found] = true
			shown++
		}
		if shown != len(conts) {
			c.Fatalf("%s: region %d with %d outlines has %d contours", what, g, len(loops), len(conts))
		}
		// Holes are merged into the outline.
		if o.maxError > 0 || pinched || overlap || len(loops) == 1 || len(conts) == 0 {
			continue
		}
		outline := -1
		for k, cont := range conts {
			if cont.NVerts == 0 {
				continue
			}
			if outline >= 0 {
				c.Fatalf("%s: region %d has %d outlines; %d and %d of its %d contours have vertices", what, g, len(loops), outline, k, len(conts))
			}
			outline = k
		}
		if outline < 0 {
			c.Fatalf("%s: region %d has no contour left", what, g)
		}
		cont := contourVerts(conts[outline].Verts, conts[outline].NVerts)
		if loopArea(cont) != 2*len(ms) {
			c.Fatalf("%s: contour %v of region %d has area %d/2, want %d", what, cont, g, loopArea(cont), len(ms))
		}
		seen := map[[4]int]int{}
		for i, a := range cont {
			b := cont[(i+1)%len(cont)]
			seen[[4]int{a.x, a.z, b.x, b.z}]++
		}
		bridges := 0
		for i, a := range cont {
			b := cont[(i+1)%len(cont)]
			e := [4]int{a.x, a.z, b.x, b.z}
			if seen[e] > 1 {
				c.Fatalf("%s: contour %v of region %d goes twice from %v to %v", what, cont, g, a, b)
			}
			if seen[[4]int{b.x, b.z, a.x, a.z}] > 0 {
				bridges++
			}
			if !corners[[2]int{a.x, a.z}] {
				c.Fatalf("%s: vertex %v of contour %v is not on the outline of region %d", what, a, cont, g)
			}
			for j, p := range cont {
				if q := cont[(j+1)%len(cont)]; crosses(a, b, p, q) {
					c.Fatalf("%s: edges %v-%v and %v-%v of contour %v of region %d cross", what, a, b, p, q, cont, g)
				}
			}
		}
		if bridges != 2*(len(loops)-1) {
			c.Fatalf("%s: contour %v of region %d with %d holes has %d bridges", what, cont, g, len(loops)-1, bridges)
		}
		c.Nontrivial(cont)
		c.LabelIf(len(loops) > 2, "several holes")
		c.Sample("%s: region of %d spans, %d holes, merged contour of %d vertices", what, len(ms), len(loops)-1, len(cont))
	}
}
