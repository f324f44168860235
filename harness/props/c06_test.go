package props

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/harness/gen"
	"verif/harness/hx"
)

var sideDelta = [8][2]int32{{1, 0}, {1, 1}, {0, 1}, {-1, 1}, {-1, 0}, {-1, -1}, {0, -1}, {1, -1}}

func anyGround(*detour.Poly) bool { return true }

// landing checks one end of a connection in one tile; got is the linked polygon
// or 0. It returns where the end lands.
func landing(c *hx.Case, what string, m *detour.NavMesh, t *detour.MeshTile, pos v64, rad, climb float64, got detour.PolyRef) *nearCand {
	cs := nearCands(m, t, pos, v64{rad, climb, rad}, anyGround)
	if got != 0 {
		g := checkNearest(c, what, cs, pos, got)
		if d := g.pt.dist2D(pos); d > rad+1e-3 {
			c.Fatalf("%s: linked to %x, which is %v away, the radius is %v", what, got, d, rad)
		}
		return g
	}
	best := math.Inf(1)
	for _, x := range cs {
		if x.strict {
			best = math.Min(best, x.d.hi)
		}
	}
	if math.IsInf(best, 1) {
		return nil
	}
	for _, x := range cs {
		if x.d.lo <= best+measureTol(best, scaleOf(pos)) && x.pt.dist2D(pos) > rad-1e-3 {
			return nil
		}
	}
	c.Fatalf("%s: not linked, though the nearest polygon is within the radius %v (%d polygons)", what, rad, len(cs))
	return nil
}

// at tells whether v may be the point a candidate is closest at (near a corner
// the closest point is ill-conditioned, its distance is not).
func (g *nearCand) at(v v64) bool {
	if v[1] < g.h.lo-0.02 || v[1] > g.h.hi+0.02 {
		return false
	}
	return v.dist2D(g.pt) < 1e-3 || v.dist2D(g.pt) < 1e-2 && nearly(v.dist2D(g.pos), g.pt.dist2D(g.pos), 1e-4)
}

type conInfo struct {
	ref        detour.PolyRef
	tile       *detour.MeshTile
	con        *detour.OffMeshConnection
	start      detour.PolyRef
	ends       []detour.PolyRef
	bidir      bool
	multi      bool // several landing tiles
	va, vb     v64
	startFound bool
}

// loops tells whether both ends are on one polygon, which makes the direction
// of travel ambiguous.
func (k *conInfo) loops() bool {
	for _, e := range k.ends {
		if e == k.start {
			return true
		}
	}
	return false
}

// checkCons checks the links of all off-mesh connections.
func checkCons(c *hx.Case, w *gen.World, m *detour.NavMesh, multi map[uint32]bool) []conInfo {
	var res []conInfo
	bidir := map[uint32]bool{}
	for _, t := range w.Tiles {
		for _, k := range t.Cons {
			bidir[k.UserID] = k.Bidir
		}
	}
	back := map[detour.PolyRef][]string{}
	for i := range m.Tiles {
		t := &m.Tiles[i]
		if t.Header == nil {
			continue
		}
		hd := t.Header
		climb := float64(hd.WalkableClimb)
		for k := range t.OffMeshCons {
			con := &t.OffMeshCons[k]
			p := &t.Polys[con.Poly]
			ref := refOf(m, t, int(con.Poly))
			what := fmt.Sprintf("tile %d,%d,%d connection %d", hd.X, hd.Y, hd.Layer, k)
			ls := links(c, t, p)
			a, b := to64(con.Pos[:3]), to64(con.Pos[3:])
			va, vb := vertsOf(t, p)[0], vertsOf(t, p)[1]
			ci := conInfo{ref: ref, tile: t, con: con, bidir: bidir[con.UserID], va: va, vb: vb}
			for _, l := range ls {
				if l.Edge == 0 {
					if l.Side != 0xff || ci.start != 0 {
						c.Fatalf("%s: start links %+v", what, ls)
					}
					ci.start = l.Ref
					lt, _ := polyOf(c, m, l.Ref)
					if lt != t {
						c.Fatalf("%s: starts in another tile", what)
					}
					back[l.Ref] = append(back[l.Ref], fmt.Sprintf("%x 255 255", ref))
				}
			}
			g := landing(c, what+" start", m, t, a, float64(con.Rad), climb, ci.start)
			if g != nil && !g.at(va) {
				c.Fatalf("%s: start vertex at %v, lands at %v", what, va, g.pt)
			}
			if ci.start == 0 {
				if len(ls) > 0 {
					c.Fatalf("%s: unlinked at the start, links %+v", what, ls)
				}
				res = append(res, ci)
				continue
			}
			byTile := map[*detour.MeshTile]detour.PolyRef{}
			for _, l := range ls {
				if l.Edge == 0 {
					continue
				}
				lt, lp := polyOf(c, m, l.Ref)
				if l.Edge != 1 || l.Side != con.Side || byTile[lt] != 0 || lp.Type() == offMesh {
					c.Fatalf("%s (side %d): unexpected link %+v of %+v", what, con.Side, l, ls)
				}
				byTile[lt] = l.Ref
				ci.ends = append(ci.ends, l.Ref)
			}
			tx, ty := hd.X, hd.Y
			back2 := uint8(0xff)
			if con.Side != 0xff {
				tx, ty = tx+sideDelta[con.Side][0], ty+sideDelta[con.Side][1]
				back2 = (con.Side + 4) & 7
			}
			okVert := len(ci.ends) == 0
			lands := ""
			for j := range m.Tiles {
				lt := &m.Tiles[j]
				if lt.Header == nil || lt.Header.X != tx || lt.Header.Y != ty {
					continue
				}
				g := landing(c, fmt.Sprintf("%s end in tile %d,%d,%d", what, tx, ty, lt.Header.Layer), m, lt, b, float64(con.Rad), climb, byTile[lt])
				if g != nil {
					lands += fmt.Sprintf(" %+v", *g)
				}
				if g != nil && g.at(vb) {
					okVert = true
				}
				if r := byTile[lt]; r != 0 {
					if ci.bidir {
						back[r] = append(back[r], fmt.Sprintf("%x 255 %d", ref, back2))
					}
					delete(byTile, lt)
				}
			}
			if len(byTile) > 0 {
				c.Fatalf("%s (side %d): lands in a tile it does not lead to: links %+v", what, con.Side, ls)
			}
			// a connection has one end vertex: with several landing tiles it
			// stays where it landed last
			if len(ci.ends) > 1 {
				multi[con.UserID] = true
			}
			if !okVert && !multi[con.UserID] {
				c.Fatalf("%s: end vertex %v is not on any polygon it is linked to (end %v, lands at%s)", what, vb, b, lands)
			}
			ci.multi = len(ci.ends) > 1
			res = append(res, ci)
		}
	}
	for _, ref := range allPolys(m, false) {
		t, p := polyOf(c, m, ref)
		var got []string
		for _, l := range links(c, t, p) {
			if l.Edge == 0xff {
				got = append(got, fmt.Sprintf("%x %d %d", l.Ref, l.Edge, l.Side))
			} else if _, lp := polyOf(c, m, l.Ref); lp.Type() == offMesh {
				c.Fatalf("polygon %x is linked to connection %x with edge %d", ref, l.Ref, l.Edge)
			}
		}
		want := back[ref]
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.Fatalf("polygon %x: links to connections %v, expected %v (%s)", ref, got, want, w.Describe())
		}
	}
	return res
}

// travel checks the straight path across a connection.
func travel(c *hx.Case, m *detour.NavMesh, from, con, to detour.PolyRef, entry, exit v64) bool {
	if from == to {
		return false
	}
	_, q := detour.NewNavMeshQuery(m, 64)
	center := func(ref detour.PolyRef) v64 {
		t, p := polyOf(c, m, ref)
		var s v64
		vs := vertsOf(t, p)
		for _, v := range vs {
			s = s.add(v.mul(1 / float64(len(vs))))
		}
		return s
	}
	s, e := center(from), center(to)
	if s.dist2D(entry) < 0.05 || e.dist2D(exit) < 0.05 || entry.dist2D(exit) < 0.05 {
		return false
	}
	path := []detour.PolyRef{from, con, to}
	sp := make([]d3.Vec3, 16)
	for i := range sp {
		sp[i] = d3.NewVec3()
	}
	fl, refs := make([]uint8, 16), make([]detour.PolyRef, 16)
	n, st := q.FindStraightPath(s.vec(), e.vec(), path, sp, fl, refs, 0)
	if st != detour.Success {
		c.Fatalf("FindStraightPath across connection %x: %x", con, uint32(st))
	}
	for i := 0; i < n; i++ {
		if fl[i]&4 == 0 {
			continue
		}
		if refs[i] != con || i+1 >= n {
			c.Fatalf("straight path across connection %x: corner %d is marked as a connection, reference %x of %d corners", con, i, refs[i], n)
		}
		if x, y := to64(sp[i]), to64(sp[i+1]); x.dist(entry) > 1e-3*(1+scaleOf(entry)*0.01) || y.dist(exit) > 1e-3*(1+scaleOf(exit)*0.01) {
			c.Fatalf("straight path across connection %x from %x to %x: enters at %v and leaves at %v, its end points are %v and %v", con, from, to, x, y, entry, exit)
		}
		return true
	}
	c.Fatalf("straight path across connection %x: no corner is marked as a connection (%d corners, flags %v)", con, n, fl[:n])
	return false
}

func TestC06(t *testing.T) {
	hx.Run(t, "history", "a world with at least one off-mesh connection linked at both ends", 100000, 2500000, func(c *hx.Case) {
		r := gen.New(c.T)
		w := gen.NewWorld(r, gen.Opts{MaxNx: 3, MaxNy: 2, Cons: true, NegTiles: true})
		if r.Bool("climbs") {
			w.MixClimbs(r)
		}
		w.MoreCons(r)
		m := mustBuild(c, w, r.Perm(len(w.Tiles)))
		if linksFull(m) {
			c.Label("link pool exhausted")
			return
		}
		multi := map[uint32]bool{}
		cons := checkCons(c, w, m, multi)
		both, travelled := 0, 0
		cross := false
		for _, k := range cons {
			if len(k.ends) > 0 {
				both++
			}
			cross = cross || (k.con.Side != 0xff && len(k.ends) > 0)
			for _, e := range k.ends {
				if k.loops() {
					break
				}
				if travel(c, m, k.start, k.ref, e, k.va, k.vb) {
					travelled++
				}
				if k.bidir && travel(c, m, e, k.ref, k.start, k.vb, k.va) {
					travelled++
				}
			}
			c.LabelIf(k.start == 0, "unlinked start")
			c.LabelIf(k.start != 0 && len(k.ends) == 0, "unlinked end")
			c.LabelIf(k.multi, "lands in several layers")
		}
		if both > 0 {
			c.Nontrivial(w.Describe(), both)
		}
		c.LabelIf(cross, "connection between tiles")
		c.LabelIf(travelled > 0, "straight path across a connection")
		ops := 0
		if !w.Single && len(cons) > 0 {
			ops = r.Int("ops", 0, 12)
		}
		c.Sample("%s: %d stored connections, %d linked at both ends, %d travelled, %d operations", w.Describe(), len(cons), both, travelled, ops)
		for i := 0; i < ops; i++ {
			shuffleOne(c, w, m, r.U(0, len(w.Tiles)-1))
			if linksFull(m) {
				return
			}
			checkCons(c, w, m, multi)
		}
	})

	hx.Run(t, "alone", "a tile whose connections need more links than its polygons have edges", 20000, 400000, func(c *hx.Case) {
		r := gen.New(c.T)
		w := gen.NewWorld(r, gen.Opts{NoLayers: true, MaxCells: r.Int("cells", 1, 3)})
		w.ManyCons(r, 40)
		m := mustBuild(c, w, []int{0})
		// nothing but its own polygons and connections is linked to the tile
		if linksFull(m) {
			c.Fatalf("%s: no link is left in a tile which has no neighbour", w.Describe())
		}
		cons := checkCons(c, w, m, map[uint32]bool{})
		need, edges := 0, 0
		for _, k := range cons {
			if need += 2; k.start != 0 && len(k.ends) > 0 {
				need += 2
			}
		}
		for _, p := range w.Tiles[0].Polys {
			edges += len(p.V)
		}
		c.Sample("%s: %d connections, %d links", w.Describe(), len(cons), need)
		if need > edges {
			c.Nontrivial(w.Describe(), need)
		}
	})
}
