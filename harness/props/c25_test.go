package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/arl/go-detour/recast"

	"verif/harness/gen"
	"verif/harness/hx"
)

const (
	regMask      = 0xffff
	borderVertex = 0x10000
	areaBorder   = 0x20000
)

// rawVert is a corner of the outline of a region and what lies beyond the edge
// leading to it.
type rawVert struct{ x, y, z, flags int }

// rawLoops traces the outlines of a region.
func rawLoops(chf *recast.CompactHeightfield, xs, ys, regs, members []int) [][]rawVert {
	type edge struct{ i, dir int }
	g := regs[members[0]]
	beyond := func(i, dir int) int {
		_, _, ni, ok := conAt(chf, xs[i], ys[i], i, dir)
		if !ok {
			return -1
		}
		return ni
	}
	same := func(n int) bool { return n >= 0 && regs[n] == g }
	vert := func(e edge) rawVert {
		v := rawVert{x: xs[e.i], z: ys[e.i]}
		switch e.dir {
		case 0:
			v.z++
		case 1:
			v.x++
			v.z++
		case 2:
			v.x++
		}
		// The spans around the corner, in order.
		next := (e.dir + 1) & 3
		around := [4]int{e.i, beyond(e.i, e.dir), -1, beyond(e.i, next)}
		if n := around[1]; n >= 0 {
			around[2] = beyond(n, next)
		}
		if n := around[3]; n >= 0 {
			if m := beyond(n, e.dir); m >= 0 {
				around[2] = m
			}
		}
		for _, i := range around {
			if i >= 0 {
				v.y = maxInt(v.y, int(chf.Spans[i].Y))
			}
		}
		if n := around[1]; n >= 0 {
			v.flags = regs[n]
			if chf.Areas[n] != chf.Areas[e.i] {
				v.flags |= areaBorder
			}
		}
		// A vertex of the tile border: two spans of the same border next to two
		// spans of the same area inside.
		for j := range around {
			a, b, c, d := around[j], around[(j+1)&3], around[(j+2)&3], around[(j+3)&3]
			if a < 0 || b < 0 || c < 0 || d < 0 {
				break
			}
			if regs[a]&borderFlag != 0 && regs[a] == regs[b] && chf.Areas[a] == chf.Areas[b] && (regs[c]|regs[d])&borderFlag == 0 &&
				chf.Areas[c] == chf.Areas[d] && (regs[c] != 0 || chf.Areas[c] != 0) && (regs[d] != 0 || chf.Areas[d] != 0) {
				v.flags |= borderVertex
			}
		}
		return v
	}
	seen := map[edge]bool{}
	var res [][]rawVert
	for _, m := range members {
		for d := 0; d < 4; d++ {
			if same(beyond(m, d)) || seen[edge{m, d}] {
				continue
			}
			var loop []rawVert
			e := edge{m, d}
			for !seen[e] {
				seen[e] = true
				loop = append(loop, vert(e))
				n := edge{e.i, (e.dir + 1) & 3}
				for k := 0; k < 4; k++ {
					ni := beyond(n.i, n.dir)
					if !same(ni) {
						break
					}
					n = edge{ni, (n.dir + 3) & 3}
				}
				e = n
			}
			res = append(res, loop)
		}
	}
	return res
}

// sameLoop compares loops which may start anywhere.
func sameLoop(a, b []rawVert) bool {
	if len(a) != len(b) {
		return false
	}
start:
	for s := range b {
		for i := range a {
			if a[i] != b[(s+i)%len(b)] {
				continue start
			}
		}
		return true
	}
	return len(a) == 0
}

func contourVerts(v []int32, n int32) (res []rawVert) {
	for i := 0; i < int(n); i++ {
		res = append(res, rawVert{int(v[4*i]), int(v[4*i+1]), int(v[4*i+2]), int(v[4*i+3])})
	}
	return res
}

func loopArea(vs []rawVert) (a int) { // twice
	for i, p := range vs {
		q := vs[(i+len(vs)-1)%len(vs)]
		a += p.x*q.z - q.x*p.z
	}
	return a
}

func segDist(p, a, b rawVert) float64 {
	dx, dz := float64(b.x-a.x), float64(b.z-a.z)
	px, pz := float64(p.x-a.x), float64(p.z-a.z)
	t := 0.0
	if d := dx*dx + dz*dz; d > 0 {
		t = math.Max(0, math.Min(1, (px*dx+pz*dz)/d))
	}
	return math.Hypot(px-t*dx, pz-t*dz)
}

type simplifyOpts struct {
	maxError    float64
	maxEdge     int
	walls, area bool
}

func (o simplifyOpts) flags() (f int32) {
	if o.walls {
		f |= recast.ContourTessWallEdges
	}
	if o.area {
		f |= recast.ContourTessAreaEdges
	}
	return f
}

// checkSimplified tells what is wrong with a simplified outline, "" if nothing.
func checkSimplified(raw, simp []rawVert, o simplifyOpts) string {
	n := len(raw)
	portals := false
	for _, v := range raw {
		portals = portals || v.flags&regMask != 0
	}
	kind := func(k int) int { return raw[k%n].flags & (regMask | areaBorder) }
	mandatory := func(k int) bool { return portals && kind(k) != kind(k+1) }
	loose := func(k int) bool { return kind(k)&regMask == 0 || kind(k)&areaBorder != 0 } // not a plain portal
	split := func(k int) bool {                                                          // edges which are split when too long, which may take them off the outline
		return o.maxEdge > 0 && (o.walls && kind(k)&regMask == 0 || o.area && kind(k)&areaBorder != 0)
	}
	at := map[[3]int][]int{}
	for k, v := range raw {
		at[[3]int{v.x, v.y, v.z}] = append(at[[3]int{v.x, v.y, v.z}], k)
	}
	why := ""
	segment := func(a, b int) bool { // raw indices, a < b <= a+n
		va, vb := raw[a%n], raw[b%n]
		for k := a + 1; k < b; k++ {
			v := raw[k%n]
			if mandatory(k) && (v.x != vb.x || v.z != vb.z) && (v.x != va.x || v.z != va.z) {
				why = fmt.Sprintf("vertex %v, where the neighbour changes, is missing", v)
				return false
			}
			if loose(k) && loose(k+1) && !split(k) {
				if d := segDist(v, va, vb); d > o.maxError*1.0001+1e-4 {
					why = fmt.Sprintf("vertex %v is %v from the edge %v-%v", v, d, va, vb)
					return false
				}
			}
		}
		dx, dz := vb.x-va.x, vb.z-va.z
		if split(a+1) && b-a > 1 && dx*dx+dz*dz > o.maxEdge*o.maxEdge {
			why = fmt.Sprintf("edge %v-%v is too long", va, vb)
			return false
		}
		return true
	}
	extra := func(idx []int) bool {
		// Vertices nobody asked for.
		m := len(idx)
		splits := o.maxEdge > 0 && (o.walls || o.area)
		two := 0
		for i, k := range idx {
			if mandatory(k % n) {
				continue
			}
			if portals && !loose(k) && !loose(k+1) {
				why = fmt.Sprintf("vertex %v is inside a portal", raw[k%n])
				return false
			}
			if splits {
				continue
			}
			needed := false
			for a := 1; a < m && !needed; a++ { // an edge this vertex would be too far from
				for b := 1; a+b <= m && !needed; b++ {
					needed = segDist(raw[k%n], raw[idx[(i+m-a)%m]%n], raw[idx[(i+b)%m]%n]) > o.maxError*0.9999-1e-4
				}
			}
			if !needed {
				if two++; portals || two > 2 {
					why = fmt.Sprintf("vertex %v is not needed", raw[k%n])
					return false
				}
			}
		}
		return true
	}
	idx := make([]int, len(simp))
	steps := 0
	var try func(i int) bool
	try = func(i int) bool {
		if steps++; steps > 20000 {
			return true // undecided
		}
		if i == len(simp) {
			return segment(idx[i-1], idx[0]+n) && extra(idx)
		}
		v := simp[i]
		cands := at[[3]int{v.x, v.y, v.z}]
		if len(cands) == 0 {
			why = fmt.Sprintf("vertex %v is not on the outline", v)
		}
		for lap := 0; lap < 2; lap++ {
			for _, k := range cands {
				k += lap * n
				if i == 0 && lap == 1 || i > 0 && (k <= idx[i-1] || k >= idx[0]+n) {
					continue
				}
				if want := kind(k+1) | raw[k%n].flags&borderVertex; v.flags != want {
					why = fmt.Sprintf("vertex %v has flags %x, want %x", v, v.flags, want)
					continue
				}
				idx[i] = k
				if i > 0 && !segment(idx[i-1], k) {
					continue
				}
				if try(i + 1) {
					return true
				}
			}
		}
		return false
	}
	if try(0) {
		return ""
	}
	return why
}

// mayVanish tells if an outline can be simplified to nothing.
func mayVanish(raw []rawVert, o simplifyOpts) bool {
	n := len(raw)
	portals := false
	for _, v := range raw {
		portals = portals || v.flags&regMask != 0
	}
	var fixed []rawVert
	if portals {
		pts := map[[2]int]bool{}
		for k, v := range raw {
			if v.flags&(regMask|areaBorder) != raw[(k+1)%n].flags&(regMask|areaBorder) && !pts[[2]int{v.x, v.z}] {
				pts[[2]int{v.x, v.z}] = true
				fixed = append(fixed, v)
			}
		}
		if len(fixed) > 2 {
			return false
		}
	}
	if len(fixed) == 0 {
		a, b := raw[0], raw[0]
		for _, v := range raw {
			if v.x < a.x || v.x == a.x && v.z < a.z {
				a = v
			}
			if v.x > b.x || v.x == b.x && v.z > b.z {
				b = v
			}
		}
		fixed = []rawVert{a, b}
	}
	near := func(a, b rawVert) bool {
		for k, v := range raw {
			f, g := v.flags, raw[(k+1)%n].flags
			if (f&regMask == 0 || f&areaBorder != 0) && (g&regMask == 0 || g&areaBorder != 0) && segDist(v, a, b) > o.maxError*1.0001+1e-4 {
				return false
			}
		}
		return true
	}
	if len(fixed) == 2 {
		return near(fixed[0], fixed[1])
	}
	for _, v := range raw {
		if near(fixed[0], v) {
			return true
		}
	}
	return false
}

// checkContourSet compares the description of a contour set to its field.
func checkContourSet(c *hx.Case, cset *recast.ContourSet, chf *recast.CompactHeightfield, o simplifyOpts) {
	b := chf.BorderSize
	pad := float32(b) * chf.Cs
	bmin, bmax := chf.BMin, chf.BMax
	bmin[0], bmin[2], bmax[0], bmax[2] = bmin[0]+pad, bmin[2]+pad, bmax[0]-pad, bmax[2]-pad
	if cset.BMin != bmin || cset.BMax != bmax || cset.Cs != chf.Cs || cset.Ch != chf.Ch || cset.BorderSize != b ||
		cset.Width != chf.Width-2*b || cset.Height != chf.Height-2*b || float64(cset.MaxError) != o.maxError || int(cset.NConts) > len(cset.Conts) {
		c.Fatalf("contour set %v..%v %dx%d border %d of a field %v..%v %dx%d border %d", cset.BMin, cset.BMax, cset.Width, cset.Height, cset.BorderSize,
			chf.BMin, chf.BMax, chf.Width, chf.Height, b)
	}
}

func TestC25(t *testing.T) {
	hx.Run(t, "contours", "an outline with portals and walls", 80000, 800000, func(c *hx.Case) {
		r := gen.New(c.T)
		chf := randCompact(c, r, gen.Pick(r, "dim", 12, 4, 24, 40))
		border := 0
		if r.Bool("border") {
			border = r.U(0, 5)
		}
		ctx := recast.NewBuildContext(r.P(0.2))
		if !recast.BuildRegionsMonotone(ctx, chf, int32(border), gen.Any(r, int32(0), 2, 8), gen.Any(r, int32(0), 20, 400)) {
			c.Fatalf("BuildRegionsMonotone fails")
		}
		o := simplifyOpts{maxError: float64(gen.Any(r, float32(1.3), 0, 0.5, 1, 2, 5))}
		if r.P(0.5) {
			o.maxEdge, o.walls, o.area = gen.Any(r, 0, 1, 3, 12), r.P(0.7), r.P(0.3)
		}
		what := fmt.Sprintf("%dx%d border %d, %+v", chf.Width, chf.Height, border, o)
		cset := &recast.ContourSet{}
		if !recast.BuildContours(ctx, chf, float32(o.maxError), int32(o.maxEdge), cset, o.flags()) {
			c.Fatalf("BuildContours fails")
		}
		checkContourSet(c, cset, chf, o)
		if !consistent(chf) {
			c.Label("ambiguous neighbours")
			return
		}
		xs, ys := spanCells(chf)
		regs := make([]int, chf.SpanCount)
		members := map[int][]int{}
		for i := range regs {
			regs[i] = int(chf.Spans[i].Reg)
			if regs[i] != 0 && regs[i]&borderFlag == 0 {
				members[regs[i]] = append(members[regs[i]], i)
			}
		}
		slit := slits(chf, regs, chf.Areas)
		byReg := map[int][]recast.Contour{}
		for _, cont := range cset.Conts[:cset.NConts] {
			byReg[int(cont.Reg)] = append(byReg[int(cont.Reg)], cont)
			if members[int(cont.Reg)] == nil {
				c.Fatalf("%s: contour of region %x", what, cont.Reg)
			}
		}
		type edge struct{ ax, az, bx, bz, from, to int }
		edges := map[edge]bool{}
		complete := true
		pinched := map[int]bool{} // regions which touch themselves
		for g, ms := range members {
			if slit[g] {
				c.Label("slit")
				complete = false
				continue
			}
			loops := rawLoops(chf, xs, ys, regs, ms)
			raw := loops[0]
			for i := range raw {
				raw[i].x -= border
				raw[i].z -= border
			}
			cs := byReg[g]
			if len(ms) == 1 { // single cells have no contour
				if len(cs) > 0 {
					if len(cs) > 1 || !sameLoop(contourVerts(cs[0].RVerts, cs[0].NRVerts), raw) {
						c.Fatalf("%s: contours %+v of a single span", what, cs)
					}
				}
				complete = false
				continue
			}
			if len(cs) == 0 && mayVanish(raw, o) {
				c.Label("vanished")
				complete = false
				continue
			}
			if len(cs) != 1 || len(loops) != 1 {
				c.Fatalf("%s: region %d of %d spans, with %d outlines, has %d contours (outline %v)", what, g, len(ms), len(loops), len(cs), raw)
			}
			cont := cs[0]
			if cont.Area != chf.Areas[ms[0]] {
				c.Fatalf("%s: contour of region %d has area %d, want %d", what, g, cont.Area, chf.Areas[ms[0]])
			}
			got := contourVerts(cont.RVerts, cont.NRVerts)
			if !sameLoop(got, raw) {
				c.Fatalf("%s: raw contour of region %d is %v, want %v", what, g, got, raw)
			}
			if loopArea(raw) != 2*len(ms) {
				c.Fatalf("oracle: area %d of %d cells", loopArea(raw), len(ms))
			}
			simp := contourVerts(cont.Verts, cont.NVerts)
			if len(simp) < 3 {
				c.Fatalf("%s: contour %v of region %d", what, simp, g)
			}
			if why := checkSimplified(raw, simp, o); why != "" {
				c.Fatalf("%s: contour %v of region %d (outline %v): %s", what, simp, g, raw, why)
			}
			corners := map[[2]int]bool{}
			for _, v := range raw {
				pinched[g] = pinched[g] || corners[[2]int{v.x, v.z}]
				corners[[2]int{v.x, v.z}] = true
			}
			walls, portals := false, false
			for i, v := range simp {
				nx := simp[(i+1)%len(simp)]
				edges[edge{v.x, v.z, nx.x, nx.z, g, v.flags & regMask}] = true
				if v.flags&regMask == 0 {
					walls = true
				} else {
					portals = true
				}
			}
			if walls && portals {
				c.Nontrivial(raw, o)
			}
			c.Sample("%s: region %d of %d spans: %d vertices of %d", what, g, len(ms), len(simp), len(raw))
		}
		if !complete {
			return
		}
		// Portals match.
		for e := range edges {
			if e.to == 0 || e.to&borderFlag != 0 || pinched[e.from] || pinched[e.to] {
				continue
			}
			if !edges[edge{e.bx, e.bz, e.ax, e.az, e.to, e.from}] {
				c.Fatalf("%s: the portal %+v has no match", what, e)
			}
		}
	})

	hx.Run(t, "holes", "a region with holes which are merged", 100000, 800000, holesCheck)
}
