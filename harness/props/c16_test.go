package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/harness/gen"
	"verif/harness/hx"
)

// chosen is a filter of the user: it passes a set of polygons.
type chosen struct {
	*detour.StandardQueryFilter
	ok map[detour.PolyRef]bool
}

func (f chosen) PassFilter(ref detour.PolyRef, t *detour.MeshTile, p *detour.Poly) bool {
	return f.ok[ref]
}

func flags16(r *gen.R) uint16 {
	switch r.U(0, 3) {
	case 0:
		return uint16(1) << r.U(0, 15)
	case 1:
		return uint16(gen.Any(r, 0, 0xffff, 1, 0x8000, 3))
	case 2:
		return uint16(r.U(0, 0xffff) & r.U(0, 0xffff))
	}
	return uint16(r.U(0, 0xffff))
}

func TestC16(t *testing.T) {
	hx.Run(t, "model", "at least one mask and one cost set, at least one polygon passed and one rejected", 450000, 9000000, func(c *hx.Case) {
		r := gen.New(c.T)
		type model struct {
			inc, exc uint16
			cost     [64]float32
		}
		var fs [2]*detour.StandardQueryFilter
		var ms [2]model
		for i := range fs {
			fs[i] = detour.NewStandardQueryFilter()
			ms[i].inc = 0xffff
			for k := range ms[i].cost {
				ms[i].cost[k] = 1
			}
		}
		compare := func() {
			for i, f := range fs {
				if f.IncludeFlags() != ms[i].inc || f.ExcludeFlags() != ms[i].exc {
					c.Fatalf("filter flags %x %x, want %x %x", f.IncludeFlags(), f.ExcludeFlags(), ms[i].inc, ms[i].exc)
				}
				for k, x := range ms[i].cost {
					if f.AreaCost(int32(k)) != x {
						c.Fatalf("cost of area %d is %v, want %v", k, f.AreaCost(int32(k)), x)
					}
				}
			}
		}
		compare()
		n := r.Int("ops", 1, 12)
		var masks, costs, pass, rej int
		for k := 0; k < n; k++ {
			i := r.U(0, 1)
			f, m := fs[i], &ms[i]
			switch r.Int("op", 0, 4) {
			case 0:
				m.inc = flags16(r)
				f.SetIncludeFlags(m.inc)
				masks++
			case 1:
				m.exc = flags16(r)
				f.SetExcludeFlags(m.exc)
				masks++
			case 2:
				a := r.U(0, 63)
				m.cost[a] = gen.Any(r, r.F(0, 50), 0, 1, 1e-3, 1e6)
				f.SetAreaCost(int32(a), m.cost[a])
				costs++
			case 3: // passing
				p := &detour.Poly{Flags: flags16(r), VertCount: uint8(r.U(2, 6)), AreaAndType: uint8(r.U(0, 255))}
				want := false
				for b := 0; b < 16; b++ {
					if p.Flags>>b&1 == 1 && m.inc>>b&1 == 1 {
						want = true
					}
				}
				for b := 0; b < 16; b++ {
					if p.Flags>>b&1 == 1 && m.exc>>b&1 == 1 {
						want = false
					}
				}
				if f.PassFilter(detour.PolyRef(r.U(1, 1000)), nil, p) != want {
					c.Fatalf("flags %x against include %x exclude %x: passes %v", p.Flags, m.inc, m.exc, !want)
				}
				if want {
					pass++
				} else {
					rej++
				}
			case 4: // cost
				var x detour.Poly
				others := []*detour.Poly{{}, {}}
				area := uint8(r.U(0, 63))
				x.SetType(uint8(r.U(0, 3)))
				x.SetArea(area)
				others[0].SetArea(uint8(r.U(0, 63)))
				others[1].SetArea(uint8(r.U(0, 63)))
				s := gen.Any(r, float32(1), 100, 1e-3)
				pa := d3.Vec3{r.F(-s, s), r.F(-s, s), r.F(-s, s)}
				pb := d3.Vec3{r.F(-s, s), r.F(-s, s), r.F(-s, s)}
				if r.P(0.1) {
					pb = cp(pa)
				}
				want := to64(pa).dist(to64(pb)) * float64(m.cost[area])
				for k := 0; k < 3; k++ {
					o0, o1 := others[0], others[1]
					if k == 1 {
						o0, o1 = nil, nil
					}
					a, b := pa, pb
					if k == 2 {
						a, b = pb, pa
					}
					got := float64(f.Cost(a, b, 1, nil, o0, 2, nil, &x, 3, nil, o1))
					if !nearly(got, want, 1e-5*want) {
						c.Fatalf("cost from %v to %v in area %d at %v: %v, want %v", a, b, area, m.cost[area], got, want)
					}
				}
			}
			compare()
		}
		if masks > 0 && costs > 0 && pass > 0 && rej > 0 {
			c.Nontrivial(ms, n)
		}
		c.Sample("%d operations: %d masks %d costs %d passed %d rejected", n, masks, costs, pass, rej)
	})

	hx.Run(t, "accessors", "a sequence setting both area and type", 300000, 6000000, func(c *hx.Case) {
		r := gen.New(c.T)
		p := detour.Poly{AreaAndType: uint8(r.U(0, 255)), Flags: flags16(r), FirstLink: uint32(r.U(0, 99)), VertCount: 5}
		for i := range p.Verts {
			p.Verts[i], p.Neis[i] = uint16(r.U(0, 65535)), uint16(r.U(0, 65535))
		}
		want := p
		area, typ := p.Area(), p.Type()
		if area > 63 || typ > 3 {
			c.Fatalf("area %d, type %d", area, typ)
		}
		both := 0
		n := r.Int("ops", 1, 8)
		for k := 0; k < n; k++ {
			if r.Bool("area") {
				area = uint8(r.U(0, 63))
				p.SetArea(area)
				both |= 1
			} else {
				typ = uint8(r.U(0, 1))
				p.SetType(typ)
				both |= 2
			}
			if p.Area() != area || p.Type() != typ {
				c.Fatalf("area %d type %d, want %d %d", p.Area(), p.Type(), area, typ)
			}
		}
		want.AreaAndType = p.AreaAndType
		if p != want {
			c.Fatalf("setting area and type changed something else: %+v, %+v", p, want)
		}
		if both == 3 {
			c.Nontrivial(n, area, typ, p)
		}
		c.Sample("%d operations", n)
	})

	hx.Run(t, "queries", "flags or areas of polygons changed after the mesh was built, or a filter of the user, with passing and rejected polygons", 50000, 1000000, func(c *hx.Case) {
		r := gen.New(c.T)
		w := gen.NewWorld(r, pathOpts)
		s := worldScene(c, w, nil)
		for k := r.U(0, 12); k > 0; k-- {
			t, p := polyOf(c, s.m, s.all[r.U(0, len(s.all)-1)])
			_ = t
			if r.P(0.7) {
				p.Flags = flags16(r)
			}
			p.SetArea(uint8(r.U(0, 63)))
		}
		std, fname := randFilter(r, true, false)
		var f detour.QueryFilter = std
		ok := map[detour.PolyRef]bool{}
		user := r.P(0.5)
		for _, ref := range s.all {
			if user {
				ok[ref] = r.P(0.8)
			} else {
				_, p := polyOf(c, s.m, ref)
				ok[ref] = p.Flags&std.IncludeFlags() != 0 && p.Flags&std.ExcludeFlags() == 0
			}
		}
		if user {
			f, fname = chosen{std, ok}, "of the user"
		}
		npass := 0
		for _, ref := range s.all {
			if ok[ref] {
				npass++
			}
			if (newQuery(c, s.m, 1).IsValidPolyRef(ref, f)) != ok[ref] {
				c.Fatalf("polygon %x is valid %v under filter %s", ref, !ok[ref], fname)
			}
		}
		if npass > 0 && npass < len(s.all) {
			c.Nontrivial(fname, s.name, npass)
		}
		q := newQuery(c, s.m, 2048)
		for k := 0; k < 4; k++ {
			a, b := s.pick(r), s.pick(r)
			pa, pb := s.point(c, r, a, 0), s.point(c, r, b, 0)
			what := fmt.Sprintf("%x -> %x on %s, filter %s", a, b, s.name, fname)
			buf := make([]detour.PolyRef, 400)
			n, st := q.FindPath(a, b, pa, pb, f, buf)
			if detour.StatusFailed(st) || n < 1 {
				c.Fatalf("%s: %d, %x", what, n, uint32(st))
			}
			s.checkCorridor(c, what, buf[:n], a, f)
			for _, x := range buf[1:n] {
				if x != a && !ok[x] {
					c.Fatalf("%s: path through %x, which the filter rejects", what, x)
				}
			}
			if s.reach(c, a, f)[b] != (buf[n-1] == b) {
				c.Fatalf("%s: end reached %v, path %x", what, buf[n-1] == b, buf[:n])
			}
			// what costs are asked for
			rf := &recFilter{QueryFilter: f, c: c, s: s}
			buf2 := make([]detour.PolyRef, 400)
			if r.Bool("sliced") {
				slicedRun(c, q, slicedInit(c, q, slicedArgs{a: a, b: b, pa: pa, pb: pb, f: rf}), nil, 0)
				q.FinalizeSlicedFindPath(buf2, len(buf2))
			} else if n2, _ := q.FindPath(a, b, pa, pb, rf, buf2); !sameRefs(buf2[:n2], buf[:n]) {
				c.Fatalf("%s: path %x, with the filter observed %x", what, buf[:n], buf2[:n2])
			}
			for _, x := range rf.calls {
				linked := func(from, to detour.PolyRef) bool {
					for _, e := range s.edges(c, from) {
						if e.to == to {
							return true
						}
					}
					return false
				}
				if x.cur == 0 || (x.prev == 0 && x.cur != a) || x.prev != 0 && !linked(x.prev, x.cur) || x.next != 0 && !linked(x.cur, x.next) {
					c.Fatalf("%s: the cost of %x is asked for, coming from %x and going to %x", what, x.cur, x.prev, x.next)
				}
			}
			hit := &detour.RaycastHit{Path: buf, MaxPath: len(buf)}
			if st := q.Raycast(a, pa, pb, f, 0, hit, 0); detour.StatusFailed(st) {
				c.Fatalf("%s: Raycast %x", what, uint32(st))
			}
			for _, x := range buf[1:maxInt(1, hit.PathCount)] {
				if !ok[x] {
					c.Fatalf("%s: ray through %x, which the filter rejects", what, x)
				}
			}
			st, ref, _ := q.FindNearestPoly(pb, d3.Vec3{3, 3, 3}, f)
			if detour.StatusFailed(st) || ref != 0 && !ok[ref] {
				c.Fatalf("%s: nearest polygon %x, passes %v", what, ref, ok[ref])
			}
			if ref == 0 && ok[b] {
				c.Fatalf("%s: no polygon near %v, which lies in %x", what, pb, b)
			}
			if !math.IsInf(float64(f.Cost(pa, pb, 0, nil, nil, a, nil, tilePoly(c, s, a), 0, nil, nil)), 0) {
				want := to64(pa).dist(to64(pb)) * float64(std.AreaCost(int32(tilePoly(c, s, a).Area())))
				if got := float64(f.Cost(pa, pb, 0, nil, nil, a, nil, tilePoly(c, s, a), 0, nil, nil)); !nearly(got, want, 1e-5*want) {
					c.Fatalf("%s: cost %v, want %v", what, got, want)
				}
			}
		}
		c.Sample("%d of %d polygons pass; %s, filter %s", npass, len(s.all), s.name, fname)
	})
}

func tilePoly(c *hx.Case, s *scene, ref detour.PolyRef) *detour.Poly {
	_, p := polyOf(c, s.m, ref)
	return p
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
