package props

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/arl/go-detour/recast"

	"verif/harness/gen"
	"verif/harness/hx"
)

func turn(a, b, c rawVert) int { // twice the area, positive for the orientation of contours
	return (b.z-a.z)*(c.x-a.x) - (b.x-a.x)*(c.z-a.z)
}

// meshPoly is a polygon of a mesh.
type meshPoly struct {
	idx   []int
	vs    []rawVert
	links []int
	reg   int
	area  uint8
}

func meshPolys(m *recast.PolyMesh) []meshPoly {
	res := make([]meshPoly, m.NPolys)
	nvp := int(m.Nvp)
	for i := range res {
		p := &res[i]
		row := m.Polys[i*2*nvp : (i+1)*2*nvp]
		for j := 0; j < nvp && row[j] != 0xffff; j++ {
			v := int(row[j])
			p.idx = append(p.idx, v)
			if v < int(m.NVerts) {
				p.vs = append(p.vs, rawVert{x: int(m.Verts[3*v]), y: int(m.Verts[3*v+1]), z: int(m.Verts[3*v+2])})
			}
			p.links = append(p.links, int(row[nvp+j]))
		}
		p.reg, p.area = int(m.Regs[i]), m.Areas[i]
	}
	return res
}

func twiceArea(vs []rawVert) (a int) {
	for i := 1; i+1 < len(vs); i++ {
		a += turn(vs[0], vs[i], vs[i+1])
	}
	return a
}

// simplePolygon tells if the edges of a polygon only meet at common vertices.
func simplePolygon(vs []rawVert) bool {
	n := len(vs)
	if n < 3 || twiceArea(vs) <= 0 {
		return false
	}
	sign := func(x int) int {
		switch {
		case x > 0:
			return 1
		case x < 0:
			return -1
		}
		return 0
	}
	on := func(p, a, b rawVert) bool {
		return turn(a, b, p) == 0 && p.x >= min(a.x, b.x) && p.x <= max(a.x, b.x) && p.z >= min(a.z, b.z) && p.z <= max(a.z, b.z)
	}
	for i := 0; i < n; i++ {
		a, b := vs[i], vs[(i+1)%n]
		if a.x == b.x && a.z == b.z {
			return false
		}
		if c := vs[(i+2)%n]; on(c, a, b) || on(a, b, c) {
			return false
		}
		for j := i + 2; j < n; j++ {
			if i == 0 && j == n-1 {
				continue
			}
			p, q := vs[j], vs[(j+1)%n]
			if on(p, a, b) || on(q, a, b) || on(a, p, q) || on(b, p, q) {
				return false
			}
			if sign(turn(a, b, p))*sign(turn(a, b, q)) < 0 && sign(turn(p, q, a))*sign(turn(p, q, b)) < 0 {
				return false
			}
		}
	}
	return true
}

// inLoop tells if a point which is not on the outline is inside.
func inLoop(vs []rawVert, x, z float64) bool {
	in := false
	for i, a := range vs {
		b := vs[(i+1)%len(vs)]
		if (float64(a.z) > z) != (float64(b.z) > z) &&
			x < float64(a.x)+(z-float64(a.z))*float64(b.x-a.x)/float64(b.z-a.z) {
			in = !in
		}
	}
	return in
}

// checkMesh compares a mesh to the contours it was made of, except for what
// the polygons cover.
func checkMesh(c *hx.Case, what string, cset *recast.ContourSet, m *recast.PolyMesh, nvp int, removed bool) []meshPoly {
	if m.BMin != cset.BMin || m.BMax != cset.BMax || m.Cs != cset.Cs || m.Ch != cset.Ch || m.BorderSize != cset.BorderSize || m.MaxEdgeError != cset.MaxError ||
		int(m.Nvp) != nvp || len(m.Flags) != int(m.NPolys) || m.NPolys > m.MaxPolys || len(m.Polys) < int(m.NPolys)*2*nvp || len(m.Verts) < 3*int(m.NVerts) ||
		len(m.Regs) < int(m.NPolys) || len(m.Areas) < int(m.NPolys) {
		c.Fatalf("%s: mesh %+v of contour set %v..%v cs %v ch %v border %d error %v", what, m, cset.BMin, cset.BMax, cset.Cs, cset.Ch, cset.BorderSize, cset.MaxError)
	}
	// Vertices: those of the contours, merged when they have almost the same height.
	conts := map[[2]int][]int{}
	for _, ct := range cset.Conts[:cset.NConts] {
		if ct.NVerts < 3 {
			continue
		}
		for _, v := range contourVerts(ct.Verts, ct.NVerts) {
			conts[[2]int{v.x, v.z}] = append(conts[[2]int{v.x, v.z}], v.y)
		}
	}
	at := map[[2]int][]int{}
	for i := 0; i < int(m.NVerts); i++ {
		x, y, z := int(m.Verts[3*i]), int(m.Verts[3*i+1]), int(m.Verts[3*i+2])
		ok := false
		for _, cy := range conts[[2]int{x, z}] {
			ok = ok || cy == y
		}
		if !ok {
			c.Fatalf("%s: mesh vertex %d (%d,%d,%d) is not a vertex of the contours", what, i, x, y, z)
		}
		for _, o := range at[[2]int{x, z}] {
			if absInt(o-y) <= 2 {
				c.Fatalf("%s: mesh has vertices (%d,%d,%d) and (%d,%d,%d)", what, x, y, z, x, o, z)
			}
		}
		at[[2]int{x, z}] = append(at[[2]int{x, z}], y)
	}
	if !removed {
		for p, ys := range conts {
			for _, y := range ys {
				ok := false
				for _, o := range at[p] {
					ok = ok || absInt(o-y) <= 2
				}
				if !ok {
					c.Fatalf("%s: contour vertex (%d,%d,%d) is missing", what, p[0], y, p[1])
				}
			}
		}
	}
	// Polygons.
	polys := meshPolys(m)
	type edge struct{ a, b int }
	edges := map[edge][]int{}
	for i, p := range polys {
		n := len(p.idx)
		if n < 3 || len(p.vs) != n {
			c.Fatalf("%s: polygon %d of %d vertices: %v", what, i, m.NVerts, p.idx)
		}
		for j := n; j < nvp; j++ {
			if row := m.Polys[i*2*nvp:]; row[j] != 0xffff || row[nvp+j] != 0xffff {
				c.Fatalf("%s: polygon %d with %d vertices: %v", what, i, n, row[:2*nvp])
			}
		}
		for j, v := range p.idx {
			edges[edge{v, p.idx[(j+1)%n]}] = append(edges[edge{v, p.idx[(j+1)%n]}], i)
		}
	}
	w, h := int(cset.Width), int(cset.Height)
	for i, p := range polys {
		for j, l := range p.links {
			a, b := p.idx[j], p.idx[(j+1)%len(p.idx)]
			same, back := edges[edge{a, b}], edges[edge{b, a}]
			va, vb := p.vs[j], p.vs[(j+1)%len(p.vs)]
			name := func() string { return fmt.Sprintf("%s: edge %v-%v of polygon %d", what, va, vb, i) }
			want := 0xffff
			if cset.BorderSize > 0 {
				switch {
				case va.x == 0 && vb.x == 0:
					want = 0x8000
				case va.z == h && vb.z == h:
					want = 0x8001
				case va.x == w && vb.x == w:
					want = 0x8002
				case va.z == 0 && vb.z == 0:
					want = 0x8003
				}
			}
			if len(same) == 1 && len(back) == 1 && back[0] != i {
				want = back[0]
			} else if len(same) > 1 || len(back) > 1 {
				c.Label("edge of many polygons")
				if l == want {
					continue
				}
				ok := false
				for _, k := range back {
					ok = ok || k == l
				}
				if !ok {
					c.Fatalf("%s has link %x; %v are there", name(), l, back)
				}
				continue
			}
			if l != want {
				c.Fatalf("%s has link %x, want %x", name(), l, want)
			}
		}
	}
	return polys
}

// checkCover checks that the polygons of contours which are simple polygons
// are a partition of it, and tells how many those are.
func checkCover(c *hx.Case, r *gen.R, what string, cset *recast.ContourSet, m *recast.PolyMesh, polys []meshPoly) (n int) {
	byReg := map[int][]int{}
	for i, p := range polys {
		byReg[p.reg] = append(byReg[p.reg], i)
	}
	count := map[int]int{}
	for _, ct := range cset.Conts[:cset.NConts] {
		if ct.NVerts >= 3 {
			count[int(ct.Reg)]++
		}
	}
	for g := range byReg {
		if count[g] == 0 {
			c.Fatalf("%s: polygons of region %d", what, g)
		}
	}
	for _, ct := range cset.Conts[:cset.NConts] {
		g := int(ct.Reg)
		if ct.NVerts < 3 || count[g] > 1 {
			continue
		}
		vs := contourVerts(ct.Verts, ct.NVerts)
		simple := simplePolygon(vs)
		for _, i := range byReg[g] {
			if polys[i].area != ct.Area {
				c.Fatalf("%s: polygon %d has area %d, contour of region %d has %d", what, i, polys[i].area, g, ct.Area)
			}
		}
		if !simple {
			c.Label("contour is not simple")
			continue
		}
		n++
		sum := 0
		for _, i := range byReg[g] {
			p := polys[i]
			k := len(p.vs)
			sum += twiceArea(p.vs)
			for j := range p.vs {
				if turn(p.vs[j], p.vs[(j+1)%k], p.vs[(j+2)%k]) <= 0 {
					c.Fatalf("%s: polygon %d %v of contour %v is not convex", what, i, p.vs, vs)
				}
			}
		}
		if want := twiceArea(vs); sum != want {
			c.Fatalf("%s: polygons of contour %v cover %d/2, want %d/2", what, vs, sum, want)
		}
		for k := 0; k < 8; k++ {
			a := vs[r.U(0, len(vs)-1)]
			x, z := float64(a.x)+float64(r.F(-3, 3)), float64(a.z)+float64(r.F(-3, 3))
			want, got := 0, 0
			if inLoop(vs, x, z) {
				want = 1
			}
			for _, i := range byReg[g] {
				if inLoop(polys[i].vs, x, z) {
					got++
				}
			}
			if got != want {
				c.Fatalf("%s: (%v,%v) is in %d polygons of contour %v, want %d", what, x, z, got, vs, want)
			}
		}
		// Nothing is left to merge.
		nvp := int(m.Nvp)
		for ii, i := range byReg[g] {
			for _, j := range byReg[g][ii+1:] {
				a, b := polys[i], polys[j]
				if nvp == 3 || len(a.vs)+len(b.vs)-2 > nvp {
					continue
				}
				for e := range a.idx {
					for f := range b.idx {
						na, nb := len(a.vs), len(b.vs)
						if a.idx[e] != b.idx[(f+1)%nb] || a.idx[(e+1)%na] != b.idx[f] {
							continue
						}
						if turn(a.vs[(e+na-1)%na], a.vs[e], b.vs[(f+2)%nb]) > 0 && turn(b.vs[(f+nb-1)%nb], b.vs[f], a.vs[(e+2)%na]) > 0 {
							c.Fatalf("%s: polygons %v and %v of region %d are not merged", what, a.vs, b.vs, g)
						}
					}
				}
			}
		}
	}
	return n
}

// stripBorder returns a copy of the contours without border vertices.
func stripBorder(cset *recast.ContourSet) *recast.ContourSet {
	res := *cset
	res.Conts = append([]recast.Contour(nil), cset.Conts...)
	for i := range res.Conts {
		ct := &res.Conts[i]
		ct.Verts = append([]int32(nil), ct.Verts...)
		for j := 3; j < len(ct.Verts); j += 4 {
			ct.Verts[j] &^= borderVertex
		}
	}
	return &res
}

// canonical returns the corners of a polygon, beginning with the smallest.
func canonical(p meshPoly) string {
	k := 0
	less := func(a, b rawVert) bool {
		return a.x < b.x || a.x == b.x && (a.z < b.z || a.z == b.z && a.y < b.y)
	}
	for j := range p.vs {
		if less(p.vs[j], p.vs[k]) {
			k = j
		}
	}
	s := ""
	for j := range p.vs {
		v := p.vs[(k+j)%len(p.vs)]
		s += fmt.Sprintf("%d,%d,%d ", v.x, v.y, v.z)
	}
	return s
}

// checkRemoved compares the mesh before and after border vertices were removed.
func checkRemoved(c *hx.Case, r *gen.R, what string, before, after []meshPoly, gone [][3]int) {
	touched := func(p meshPoly) bool {
		for _, v := range p.vs {
			for _, g := range gone {
				if g == [3]int{v.x, v.y, v.z} {
					return true
				}
			}
		}
		return false
	}
	left := map[string]meshPoly{}
	for _, p := range after {
		left[canonical(p)] = p
	}
	sum := 0
	mixed := false // several areas around a vertex
	around := map[[3]int]uint8{}
	for _, p := range before {
		for _, v := range p.vs {
			for _, g := range gone {
				if g == [3]int{v.x, v.y, v.z} {
					if a, ok := around[g]; ok && a != p.area {
						mixed = true
					}
					around[g] = p.area
				}
			}
		}
	}
	for _, p := range before {
		sum += twiceArea(p.vs)
		if len(gone) <= 1 && !touched(p) {
			q, ok := left[canonical(p)]
			if !ok {
				c.Fatalf("%s: polygon %v is lost with vertices %v", what, p.vs, gone)
			}
			if q.reg != p.reg || q.area != p.area {
				c.Fatalf("%s: polygon %v changes region %d -> %d, area %d -> %d", what, p.vs, p.reg, q.reg, p.area, q.area)
			}
		}
	}
	kept := map[string]bool{}
	at := map[rawVert][]meshPoly{} // the polygons of the removed vertex, at their other corners
	for _, p := range before {
		if !touched(p) {
			kept[canonical(p)] = true
			continue
		}
		for _, v := range p.vs {
			at[v] = append(at[v], p)
		}
	}
	for _, p := range after {
		sum -= twiceArea(p.vs)
		k := len(p.vs)
		for j := range p.vs {
			if turn(p.vs[j], p.vs[(j+1)%k], p.vs[(j+2)%k]) <= 0 {
				c.Fatalf("%s: polygon %v is not convex (vertices %v removed)", what, p.vs, gone)
			}
		}
		if len(gone) > 1 || kept[canonical(p)] {
			continue
		}
		// What fills the gap keeps the region of what was there, or has none
		// when there were several.
		sameArea := false
		for _, v := range p.vs {
			sameReg := p.reg == 0
			for _, q := range at[v] {
				sameReg = sameReg || q.reg == p.reg
				sameArea = sameArea || q.area == p.area
			}
			if !sameReg {
				c.Fatalf("%s: polygon %v has region %d, which did not reach its corner %v before vertex %v was removed", what, p.vs, p.reg, v, gone)
			}
		}
		if !sameArea {
			c.Fatalf("%s: polygon %v has area %d, which did not reach its corners before vertex %v was removed", what, p.vs, p.area, gone)
		}
		if p.reg == 0 {
			regs := map[int]bool{}
			for _, ps := range at {
				for _, q := range ps {
					regs[q.reg] = true
				}
			}
			if len(regs) == 1 && !regs[0] {
				c.Fatalf("%s: polygon %v has no region, but all around vertex %v was of region %v", what, p.vs, gone, regs)
			}
		}
	}
	if sum != 0 {
		c.Fatalf("%s: area changes by %d/2 with vertices %v", what, -sum, gone)
	}
	for k := 0; k < 12; k++ {
		g := gone[r.U(0, len(gone)-1)]
		x, z := float64(g[0])+float64(r.F(-3, 3)), float64(g[2])+float64(r.F(-3, 3))
		count := func(ps []meshPoly) (areas []int) {
			for _, p := range ps {
				if inLoop(p.vs, x, z) {
					a := int(p.area)
					if mixed {
						a = 0
					}
					areas = append(areas, a)
				}
			}
			sort.Ints(areas)
			return
		}
		a0, a1 := count(before), count(after)
		if fmt.Sprint(a0) != fmt.Sprint(a1) {
			c.Fatalf("%s: areas at (%v,%v) are %v, without vertices %v %v", what, x, z, a0, gone, a1)
		}
	}
}

// removable is the documented rule for removing a border vertex, and whether
// that leaves what is covered as it is.
func removable(polys []meshPoly, at [3]int) (can, exact, inside bool) {
	remaining := 0
	edges := map[[3]int]int{}
	var open []rawVert
	pos := map[[3]int]rawVert{}
	for _, p := range polys {
		n := len(p.vs)
		k := -1
		for j, v := range p.vs {
			if [3]int{v.x, v.y, v.z} == at {
				k = j
			}
		}
		if k < 0 {
			continue
		}
		remaining += n - 2
		for _, v := range []rawVert{p.vs[(k+1)%n], p.vs[(k+n-1)%n]} {
			e := [3]int{v.x, v.y, v.z}
			edges[e]++
			pos[e] = v
		}
	}
	for e, n := range edges {
		if n > 2 {
			return true, false, false // not decided
		}
		if n == 1 {
			open = append(open, pos[e])
		}
	}
	if remaining <= 2 || len(open) > 2 {
		return false, true, false
	}
	v := rawVert{x: at[0], y: at[1], z: at[2]}
	if len(open) == 0 {
		return true, false, true
	}
	if len(open) != 2 || turn(open[0], v, open[1]) != 0 {
		return true, false, false
	}
	// What is left must be a simple polygon.
	next := map[[3]int]rawVert{}
	var first rawVert
	for _, p := range polys {
		n := len(p.vs)
		for k, v := range p.vs {
			if [3]int{v.x, v.y, v.z} != at {
				continue
			}
			for j := 1; j+1 < n; j++ {
				a, b := p.vs[(k+j)%n], p.vs[(k+j+1)%n]
				next[[3]int{a.x, a.y, a.z}] = b
			}
		}
	}
	for _, o := range open {
		if _, ok := next[[3]int{o.x, o.y, o.z}]; ok {
			first = o
		}
	}
	hole := []rawVert{first}
	for a := first; ; {
		b, ok := next[[3]int{a.x, a.y, a.z}]
		if !ok || len(hole) > len(next)+1 {
			break
		}
		hole = append(hole, b)
		a = b
	}
	return true, len(hole) == len(next)+1 && simplePolygon(hole), false
}

func randSimple(r *gen.R, ox, oz, size int) []rawVert {
	n := r.U(3, gen.Any(r, 5, 9, 20, 40))
	var vs []rawVert
	flat := r.P(0.3) // few different coordinates: collinear corners
	for k := 0; k < n; k++ {
		a := -2 * math.Pi * (float64(k) + float64(r.F(-0.45, 0.45))) / float64(n)
		d := float64(r.F(0.1, 1)) * float64(size) / 2
		v := rawVert{x: ox + size/2 + int(d*math.Cos(a)), z: oz + size/2 + int(d*math.Sin(a)), y: r.U(0, 40)}
		if flat {
			v.x, v.z = v.x/4*4, v.z/4*4
		}
		if m := len(vs); m > 0 && vs[m-1].x == v.x && vs[m-1].z == v.z {
			continue
		}
		vs = append(vs, v)
	}
	if m := len(vs); m > 1 && vs[0].x == vs[m-1].x && vs[0].z == vs[m-1].z {
		vs = vs[:m-1]
	}
	if r.P(0.3) { // points on the edges
		var us []rawVert
		for i, a := range vs {
			us = append(us, a)
			b := vs[(i+1)%len(vs)]
			if (a.x+b.x)%2 == 0 && (a.z+b.z)%2 == 0 && r.P(0.5) && !(absInt(a.x-b.x) < 2 && absInt(a.z-b.z) < 2) {
				us = append(us, rawVert{x: (a.x + b.x) / 2, z: (a.z + b.z) / 2, y: a.y})
			}
		}
		vs = us
	}
	return vs
}

func setOf(conts [][]rawVert, w, h int, border int32) *recast.ContourSet {
	cs := &recast.ContourSet{Cs: 0.3, Ch: 0.2, Width: int32(w), Height: int32(h), BorderSize: border, MaxError: 1.3, BMin: [3]float32{-1, -2, -3}, BMax: [3]float32{100, 50, 100}}
	for i, vs := range conts {
		ct := recast.Contour{NVerts: int32(len(vs)), Reg: uint16(i + 1), Area: uint8(1 + i%63)}
		for _, v := range vs {
			ct.Verts = append(ct.Verts, int32(v.x), int32(v.y), int32(v.z), int32(v.flags))
		}
		cs.Conts = append(cs.Conts, ct)
	}
	cs.NConts = int32(len(cs.Conts))
	return cs
}

func polyMesh(c *hx.Case, what string, cset *recast.ContourSet, nvp int) *recast.PolyMesh {
	m, ok := recast.BuildPolyMesh(recast.NewBuildContext(false), cset, int32(nvp))
	if !ok || m == nil {
		c.Fatalf("%s: BuildPolyMesh fails", what)
	}
	return m
}

func TestC26(t *testing.T) {
	hx.Run(t, "polygons", "a contour which is not convex", 60000, 800000, func(c *hx.Case) {
		r := gen.New(c.T)
		size := gen.Pick(r, "size", 20, 8, 60, 300, 20000)
		var conts [][]rawVert
		for n := r.Int("conts", 1, 4); n > 0; n-- {
			if len(conts) > 0 && r.P(0.4) { // over or under another one
				var vs []rawVert
				for _, v := range conts[r.U(0, len(conts)-1)] {
					v.y = maxInt(0, v.y+r.U(-4, 4))
					vs = append(vs, v)
				}
				conts = append(conts, vs)
				continue
			}
			conts = append(conts, randSimple(r, r.U(0, size), r.U(0, size), size))
		}
		border := gen.Any(r, int32(0), 0, 3)
		cset := setOf(conts, gen.Any(r, size, 2*size), gen.Any(r, size, 2*size), border)
		nvp := gen.Pick(r, "nvp", 6, 3, 4, 5, 8, 12)
		what := fmt.Sprintf("%d contours, nvp %d", len(conts), nvp)
		m := polyMesh(c, what, cset, nvp)
		polys := checkMesh(c, what, cset, m, nvp, false)
		checkCover(c, r, what, cset, m, polys)
		for _, vs := range conts {
			if !simplePolygon(vs) {
				continue
			}
			for j := range vs {
				if turn(vs[j], vs[(j+1)%len(vs)], vs[(j+2)%len(vs)]) < 0 {
					c.Nontrivial(vs, nvp)
					c.Sample("%s: contour %v, %d polygons", what, vs, len(polys))
					break
				}
			}
		}
	})

	hx.Run(t, "regions", "a mesh of several regions with links", 40000, 500000, func(c *hx.Case) {
		r := gen.New(c.T)
		chf := randCompact(c, r, gen.Pick(r, "dim", 12, 4, 24, 40))
		border := 0
		if r.Bool("border") {
			border = r.U(1, 4)
		}
		ctx := recast.NewBuildContext(false)
		if r.P(0.2) {
			labelComponents(chf, r)
		} else if !recast.BuildRegionsMonotone(ctx, chf, int32(border), gen.Any(r, int32(0), 2, 8), gen.Any(r, int32(0), 20, 400)) {
			c.Fatalf("BuildRegionsMonotone fails")
		}
		o := simplifyOpts{maxError: float64(gen.Any(r, float32(1.3), 0, 0.5, 1, 2))}
		if r.P(0.5) {
			o.maxEdge, o.walls, o.area = gen.Any(r, 0, 1, 3, 12), r.P(0.7), r.P(0.3)
		}
		cset := &recast.ContourSet{}
		if !recast.BuildContours(ctx, chf, float32(o.maxError), int32(o.maxEdge), cset, o.flags()) {
			c.Fatalf("BuildContours fails")
		}
		nvp := gen.Pick(r, "nvp", 6, 3, 4, 5, 8, 12)
		what := fmt.Sprintf("%dx%d border %d, %+v, nvp %d", chf.Width, chf.Height, border, o, nvp)
		plain := stripBorder(cset)
		m := polyMesh(c, what, plain, nvp)
		before := checkMesh(c, what, plain, m, nvp, false)
		simple := checkCover(c, r, what, plain, m, before)
		allSimple := simple == int(cset.NConts)
		if !allSimple || len(before) == 0 {
			return
		}
		links := 0
		for _, p := range before {
			for _, l := range p.links {
				if l < len(before) && before[l].reg != p.reg {
					links++
				}
			}
		}
		if links > 0 {
			c.Nontrivial(chf.Width, chf.Height, nvp, o, chf.SpanCount)
		}
		c.Sample("%s: %d regions, %d polygons, %d links between regions", what, cset.NConts, len(before), links)

		verts := func(ps []meshPoly) map[[3]int]bool {
			res := map[[3]int]bool{}
			for _, p := range ps {
				for _, v := range p.vs {
					res[[3]int{v.x, v.y, v.z}] = true
				}
			}
			return res
		}
		lost := func(b, a []meshPoly) (gone [][3]int) {
			now := verts(a)
			for v := range verts(b) {
				if !now[v] {
					gone = append(gone, v)
				}
			}
			sort.Slice(gone, func(i, j int) bool { return fmt.Sprint(gone[i]) < fmt.Sprint(gone[j]) })
			return gone
		}
		// With the border vertices of the contours.
		flagged := map[[2]int]bool{}
		for _, ct := range cset.Conts[:cset.NConts] {
			for _, v := range contourVerts(ct.Verts, ct.NVerts) {
				if v.flags&borderVertex != 0 {
					flagged[[2]int{v.x, v.z}] = true
				}
			}
		}
		if len(flagged) > 0 && consistent(chf) {
			m := polyMesh(c, what, cset, nvp)
			after := checkMesh(c, what, cset, m, nvp, true)
			gone := lost(before, after)
			for _, g := range gone {
				if !flagged[[2]int{g[0], g[2]}] {
					c.Fatalf("%s: vertex %v is removed, flagged are %v", what, g, flagged)
				}
			}
			if len(gone) > 0 {
				straight := true
				for _, g := range gone {
					can, exact, _ := removable(before, g)
					straight = straight && can && exact
				}
				if !straight {
					c.Label("border vertex at a corner")
				} else {
					c.Label("border vertices removed")
					checkRemoved(c, r, what, before, after, gone)
				}
			}
		}
		// With any vertex as border vertex.
		one := stripBorder(cset)
		k := r.U(0, int(one.NConts)-1)
		j := r.U(0, int(one.Conts[k].NVerts)-1)
		x, y, z := one.Conts[k].Verts[4*j], one.Conts[k].Verts[4*j+1], one.Conts[k].Verts[4*j+2]
		var at *[3]int
		for v := range verts(before) {
			if v[0] == int(x) && v[2] == int(z) {
				if at != nil {
					return
				}
				at = &[3]int{v[0], v[1], v[2]}
			}
		}
		if at == nil {
			return
		}
		one.Conts[k].Verts[4*j+3] |= borderVertex
		m = polyMesh(c, what, one, nvp)
		after := checkMesh(c, what, one, m, nvp, true)
		gone := lost(before, after)
		can, exact, inside := removable(before, *at)
		if inside || can && !exact { // there are no such border vertices
			return
		}
		what += fmt.Sprintf(", vertex (%d,%d,%d) marked", x, y, z)
		if len(gone) > 1 || len(gone) == 1 && gone[0] != *at {
			c.Fatalf("%s: vertices %v are removed", what, gone)
		}
		if can == (len(gone) == 0) {
			var star []string
			for _, p := range before {
				for _, v := range p.vs {
					if [3]int{v.x, v.y, v.z} == *at {
						star = append(star, canonical(p))
					}
				}
			}
			c.Fatalf("%s: removed %v, want removed: %v (polygons %v)", what, gone, can, star)
		}
		if can {
			c.Label("vertex removed")
			checkRemoved(c, r, what, before, after, gone)
		} else {
			c.Label("vertex kept")
			if len(before) != len(after) {
				c.Fatalf("%s: %d polygons, were %d", what, len(after), len(before))
			}
		}
	})

	hx.Run(t, "many", "a mesh of more than 40000 vertices", 40, 400, func(c *hx.Case) {
		r := gen.New(c.T)
		var conts [][]rawVert
		sides := gen.Pick(r, "sides", 5, 3, 4, 6)
		limit := 0xfffe
		n := (limit-1)/sides - gen.Any(r, 0, 0, 1, r.U(0, 12000))
		if r.P(0.1) {
			n = limit/sides + 1
		}
		across := 200 * 12
		for k := 0; k < n; k++ {
			ox, oz := k%200*12, k/200*12
			var vs []rawVert
			switch sides {
			case 3:
				vs = []rawVert{{x: 0, z: 0}, {x: 0, z: 9}, {x: 9, z: 0}}
			case 4:
				vs = []rawVert{{x: 0, z: 0}, {x: 0, z: 9}, {x: 9, z: 9}, {x: 9, z: 0}}
				if r.P(0.5) {
					vs[2] = rawVert{x: 3, z: 3} // not convex
				}
			case 5:
				vs = []rawVert{{x: 0, z: 0}, {x: 0, z: 9}, {x: 4, z: 11}, {x: 9, z: 9}, {x: 9, z: 0}}
				if r.P(0.5) {
					vs[2] = rawVert{x: 4, z: 5}
				}
			case 6:
				vs = []rawVert{{x: 0, z: 0}, {x: 0, z: 9}, {x: 4, z: 9}, {x: 4, z: 4}, {x: 9, z: 4}, {x: 9, z: 0}}
			}
			s := r.U(0, sides-1)
			var us []rawVert
			for i := range vs {
				v := vs[(i+s)%sides]
				us = append(us, rawVert{x: ox + v.x, z: oz + v.z})
			}
			conts = append(conts, us)
		}
		cset := setOf(conts, across-3, n/200*12+9, gen.Any(r, int32(0), 2))
		nvp := gen.Pick(r, "nvp", 6, 3, 4)
		what := fmt.Sprintf("%d contours of %d vertices, nvp %d", n, sides, nvp)
		if n*sides >= limit {
			if m, ok := recast.BuildPolyMesh(recast.NewBuildContext(false), cset, int32(nvp)); ok || m != nil {
				c.Fatalf("%s: BuildPolyMesh succeeds", what)
			}
			c.Label("too many vertices")
			return
		}
		m := polyMesh(c, what, cset, nvp)
		polys := checkMesh(c, what, cset, m, nvp, false)
		checkCover(c, r, what, cset, m, polys)
		if m.NVerts > 40000 {
			c.Nontrivial(n, sides, nvp, r.U(0, 1<<30))
		}
		c.Sample("%s: %d polygons", what, len(polys))
	})
}
