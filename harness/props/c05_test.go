package props

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/arl/go-detour/detour"

	"verif/harness/gen"
	"verif/harness/hx"
)

// portalEdge is an edge on a tile border, in voxels of the whole grid.
type portalEdge struct {
	poly, edge int
	side       int     // 0 x+, 2 z+, 4 x-, 6 z-
	pos        int     // coordinate across
	a, b       int     // range along, a < b
	ya, yb     float64 // heights at a and b
	flip       bool    // the edge runs from b to a
}

func portalEdges(w *gen.World, t *gen.Tile) []portalEdge {
	var res []portalEdge
	for i, p := range t.Polys {
		for k, n := range p.Nei {
			if n > gen.Portal {
				continue
			}
			side := map[int]int{0: 4, 1: 2, 2: 0, 3: 6}[gen.Portal-n]
			va, vb := t.Verts[p.V[k]], t.Verts[p.V[(k+1)%len(p.V)]]
			ox, oz := int(t.X)*w.W, int(t.Y)*w.H
			e := portalEdge{poly: i, edge: k, side: side}
			ya, yb := float64(va[1])*float64(w.Ch), float64(vb[1])*float64(w.Ch)
			if side == 0 || side == 4 {
				e.pos, e.a, e.b = ox+va[0], oz+va[2], oz+vb[2]
			} else {
				e.pos, e.a, e.b = oz+va[2], ox+va[0], ox+vb[0]
			}
			e.ya, e.yb = ya, yb
			if e.a > e.b {
				e.a, e.b, e.ya, e.yb, e.flip = e.b, e.a, e.yb, e.ya, true
			}
			res = append(res, e)
		}
	}
	return res
}

// touch tells whether two portal edges must (1), may (0) or must not (-1) be
// linked, and the overlapping range.
func touch(w *gen.World, x, y portalEdge) (verdict, lo, hi int) {
	if x.pos != y.pos {
		return -1, 0, 0
	}
	lo, hi = maxI(x.a, y.a), minI(x.b, y.b)
	if lo >= hi {
		return -1, 0, 0
	}
	cs := float64(w.Cs)
	at := func(e portalEdge, u float64) float64 {
		return e.ya + (e.yb-e.ya)*(u-float64(e.a)*cs)/(float64(e.b-e.a)*cs)
	}
	// the overlap is shrunk by a centimetre at both ends
	u0, u1 := float64(lo)*cs+0.01, float64(hi)*cs-0.01
	d0, d1 := at(y, u0)-at(x, u0), at(y, u1)-at(x, u1)
	thr := 2 * float64(w.Climb)
	best := math.Min(math.Abs(d0), math.Abs(d1))
	switch {
	case d0*d1 < 0 && math.Abs(d0) > 1e-3 && math.Abs(d1) > 1e-3:
		return 1, lo, hi
	case best < thr-2e-3:
		return 1, lo, hi
	case best > thr+2e-3 && d0*d1 > 0:
		return -1, lo, hi
	}
	return 0, lo, hi
}

func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}

type wantLink struct {
	ref        detour.PolyRef
	edge, side int
	lo, hi     float64 // expected limits in 0..255
	may        bool
	n          int // candidates of this edge in the same tile
}

// checkLinks compares the links of the ground polygons of a mesh, which has no
// off-mesh connections, with the geometry. It returns the number of tile
// border links. Tiles whose links did not all fit at some time are remembered
// in lossy: what was dropped then is not made up for later.
func checkLinks(c *hx.Case, w *gen.World, m *detour.NavMesh, lossy map[*gen.Tile]bool) int {
	type present struct {
		t  *gen.Tile
		mt *detour.MeshTile
		es []portalEdge
	}
	var ps []present
	for _, t := range w.Tiles {
		mt := m.TileAt(t.X, t.Y, t.Layer)
		if w.Single {
			mt = &m.Tiles[0]
		}
		if mt != nil {
			ps = append(ps, present{t, mt, portalEdges(w, t)})
		} else {
			delete(lossy, t)
		}
	}
	ext := 0
	for _, x := range ps {
		want := make([][]wantLink, len(x.t.Polys))
		total := 0
		for i, p := range x.t.Polys {
			for k, n := range p.Nei {
				if n >= 0 {
					want[i] = append(want[i], wantLink{ref: refOf(m, x.mt, n), edge: k, side: 0xff, n: 1})
					total++
				}
			}
		}
		for _, e := range x.es {
			for _, y := range ps {
				dx, dz := int(y.t.X-x.t.X), int(y.t.Y-x.t.Y)
				d := map[int][2]int{0: {1, 0}, 2: {0, 1}, 4: {-1, 0}, 6: {0, -1}}[e.side]
				if d != [2]int{dx, dz} && (dx != 0 || dz != 0 || x.t == y.t) {
					continue
				}
				var ls []wantLink
				for _, f := range y.es {
					if f.side != (e.side+4)%8 {
						continue
					}
					v, lo, hi := touch(w, e, f)
					if v < 0 {
						continue
					}
					l := wantLink{ref: refOf(m, y.mt, f.poly), edge: e.edge, side: e.side, may: v == 0}
					den := float64(e.b - e.a)
					l.lo, l.hi = 255*float64(lo-e.a)/den, 255*float64(hi-e.a)/den
					if e.flip {
						l.lo, l.hi = 255-l.hi, 255-l.lo
					}
					ls = append(ls, l)
				}
				for k := range ls {
					ls[k].n = len(ls)
				}
				total += minI(4, len(ls))
				want[e.poly] = append(want[e.poly], ls...)
			}
		}
		if total > len(x.mt.Links) {
			lossy[x.t] = true // more links than the tile has room for
			c.Label("link capacity exceeded")
		}
		for i := range x.t.Polys {
			got := links(c, x.mt, &x.mt.Polys[i])
			used := make([]bool, len(want[i]))
			for _, l := range got {
				ok := false
				for k, wl := range want[i] {
					if used[k] || wl.ref != l.Ref || wl.edge != int(l.Edge) || wl.side != int(l.Side) {
						continue
					}
					used[k], ok = true, true
					if wl.side != 0xff {
						ext++
						if math.Abs(wl.lo-float64(l.BMin)) > 1.6 || math.Abs(wl.hi-float64(l.BMax)) > 1.6 {
							c.Fatalf("tile %d,%d,%d polygon %d edge %d: link covers %d..%d of 255, the edges overlap in %.1f..%.1f (%s)",
								x.t.X, x.t.Y, x.t.Layer, i, l.Edge, l.BMin, l.BMax, wl.lo, wl.hi, w.Describe())
						}
					}
					break
				}
				if !ok {
					c.Fatalf("tile %d,%d,%d polygon %d: link %+v does not match any adjacent polygon (%s)", x.t.X, x.t.Y, x.t.Layer, i, l, w.Describe())
				}
			}
			for k, wl := range want[i] {
				if !used[k] && !wl.may && wl.n <= 4 && !lossy[x.t] {
					c.Fatalf("tile %d,%d,%d polygon %d edge %d: no link to the adjacent polygon %x (side %d); links %+v (%s)",
						x.t.X, x.t.Y, x.t.Layer, i, wl.edge, wl.ref, wl.side, got, w.Describe())
				}
			}
		}
	}
	return ext
}

// edgeLinks lists the links of a mesh by tile location, for comparing meshes.
func edgeLinks(c *hx.Case, m *detour.NavMesh) []string {
	var res []string
	name := func(ref detour.PolyRef) string {
		t, _ := polyOf(c, m, ref)
		var s, it, ip uint32
		m.DecodePolyID(ref, &s, &it, &ip)
		return fmt.Sprintf("%d,%d,%d:%d", t.Header.X, t.Header.Y, t.Header.Layer, ip)
	}
	for i := range m.Tiles {
		t := &m.Tiles[i]
		if t.Header == nil {
			continue
		}
		for k := range t.Polys {
			for _, l := range links(c, t, &t.Polys[k]) {
				res = append(res, fmt.Sprintf("%s -> %s edge %d side %d %d..%d", name(refOf(m, t, k)), name(l.Ref), l.Edge, l.Side, l.BMin, l.BMax))
			}
		}
	}
	sort.Strings(res)
	return res
}

func TestC05(t *testing.T) {
	hx.Run(t, "history", "a world with links across a tile border, tiles added and removed in random order", 40000, 1200000, func(c *hx.Case) {
		r := gen.New(c.T)
		w := gen.NewWorld(r, gen.Opts{MaxNx: 3, MaxNy: 3, NegTiles: true})
		m := mustBuild(c, w, r.Perm(len(w.Tiles)))
		lossy := map[*gen.Tile]bool{}
		ext := checkLinks(c, w, m, lossy)
		if ext > 0 {
			c.Nontrivial(w.Describe(), ext)
		}
		c.LabelIf(w.Partial && ext > 0, "partial border overlaps")
		c.LabelIf(w.Split, "layers side by side")
		c.LabelIf(w.Single, "single tile")
		ops := 0
		if !w.Single {
			ops = r.Int("ops", 0, 25)
		}
		c.Sample("%s, %d border links, %d further operations", w.Describe(), ext, ops)
		cur := 0
		for i := 0; i < ops; i++ {
			if r.P(0.5) {
				cur = r.U(0, len(w.Tiles)-1)
			}
			shuffleOne(c, w, m, cur)
			checkLinks(c, w, m, lossy)
		}
		if ops > 0 {
			// the same set of tiles in a fresh mesh
			var order []int
			for i, t := range w.Tiles {
				if m.TileAt(t.X, t.Y, t.Layer) != nil {
					order = append(order, i)
				}
			}
			p := r.Perm(len(order))
			for i := range p {
				p[i] = order[p[i]]
			}
			m2 := &detour.NavMesh{}
			if st := m2.Init(w.NavParams()); detour.StatusFailed(st) {
				c.Fatalf("Init: %x", uint32(st))
			}
			for _, i := range p {
				shuffleOne(c, w, m2, i)
			}
			a, b := edgeLinks(c, m), edgeLinks(c, m2)
			if fmt.Sprint(a) != fmt.Sprint(b) && len(lossy) == 0 && !linksFull(m) && !linksFull(m2) {
				for i := 0; i < len(a) || i < len(b); i++ {
					if i >= len(a) || i >= len(b) || a[i] != b[i] {
						c.Fatalf("links depend on the history: from link %d on\n%v\n%v", i, a[i:minI(len(a), i+3)], b[i:minI(len(b), i+3)])
					}
				}
			}
		}
	})
	staleLinks(t)
}

func staleLinks(t *testing.T) {
	hx.Run(t, "stale", "a tile with links from others, off-mesh connections included, was removed", 16000, 400000, func(c *hx.Case) {
		r := gen.New(c.T)
		w := gen.NewWorld(r, gen.Opts{MaxNx: 3, MaxNy: 3, Cons: true, NegTiles: true})
		w.MoreCons(r)
		m := mustBuild(c, w, r.Perm(len(w.Tiles)))
		if w.Single {
			c.Label("single tile")
			return
		}
		hit := 0
		for i, n := 0, r.Int("ops", 1, 12); i < n; i++ {
			k := r.U(0, len(w.Tiles)-1)
			into := map[*detour.MeshTile]int{}
			check := func() {
				for j := range m.Tiles {
					t := &m.Tiles[j]
					if t.Header == nil {
						continue
					}
					for p := range t.Polys {
						for _, l := range links(c, t, &t.Polys[p]) {
							if !m.IsValidPolyRef(l.Ref) {
								c.Fatalf("operation %d: polygon %d of tile (%d,%d,%d) has a link to %x, which does not exist", i, p, t.Header.X, t.Header.Y, t.Header.Layer, l.Ref)
							}
							if t2, _ := polyOf(c, m, l.Ref); t2 != t {
								into[t2]++
							}
						}
					}
				}
			}
			check()
			wt := w.Tiles[k]
			if t := m.TileAt(wt.X, wt.Y, wt.Layer); t != nil {
				hit += into[t]
			}
			shuffleOne(c, w, m, k)
			check()
		}
		if hit > 0 {
			c.Nontrivial(w.Describe(), hit)
			c.Sample("%s: %d links into removed tiles", w.Describe(), hit)
		}
	})
}

// linksFull tells whether some tile has used all its links.
func linksFull(m *detour.NavMesh) bool {
	for i := range m.Tiles {
		t := &m.Tiles[i]
		if t.Header != nil && t.LinksFreeList == nullLink && len(t.Links) > 0 {
			return true
		}
	}
	return false
}

// shuffleOne adds tile i when absent and removes it when present.
func shuffleOne(c *hx.Case, w *gen.World, m *detour.NavMesh, i int) {
	t := w.Tiles[i]
	if ref := m.TileRefAt(t.X, t.Y, t.Layer); ref != 0 {
		if _, st := m.RemoveTile(ref); detour.StatusFailed(st) {
			c.Fatalf("RemoveTile: %x", uint32(st))
		}
		return
	}
	d, err := w.Data(t)
	if err != nil {
		c.Fatalf("CreateNavMeshData: %v", err)
	}
	if st, _ := m.AddTile(d, 0); detour.StatusFailed(st) {
		c.Fatalf("AddTile: %x", uint32(st))
	}
}
