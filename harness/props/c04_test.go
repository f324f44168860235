package props

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/arl/go-detour/detour"

	"verif/harness/gen"
	"verif/harness/hx"
)

type loc struct{ x, y, layer int32 }

type liveTile struct {
	ref   detour.TileRef
	polys int
	data  []byte
	uid   uint32
}

// registry is the model of the tiles of a mesh.
type registry struct {
	m        *detour.NavMesh
	at       map[loc]*liveTile
	issued   map[detour.TileRef]bool // references handed out so far
	maxPolys int
	rewound  bool // some tile was restored with an old reference
}

func (g *registry) byRef(ref detour.TileRef) (loc, *liveTile) {
	for l, t := range g.at {
		if t.ref == ref {
			return l, t
		}
	}
	return loc{}, nil
}

// slotOf decodes the slot with the public decoder.
func slotOf(m *detour.NavMesh, ref detour.PolyRef) uint32 {
	var s, t, p uint32
	m.DecodePolyID(ref, &s, &t, &p)
	return t
}

func (g *registry) slotLive(ref detour.TileRef) bool {
	for _, t := range g.at {
		if slotOf(g.m, detour.PolyRef(t.ref)) == slotOf(g.m, detour.PolyRef(ref)) {
			return true
		}
	}
	return false
}

func (g *registry) check(c *hx.Case, locs []loc) {
	m := g.m
	buf := make([]*detour.MeshTile, 40)
	for _, l := range locs {
		want := g.at[l]
		got := m.TileAt(l.x, l.y, l.layer)
		ref := m.TileRefAt(l.x, l.y, l.layer)
		if want == nil {
			if got != nil || ref != 0 {
				c.Fatalf("no tile was added at %v, lookup finds %x", l, ref)
			}
		} else {
			if got == nil || ref != want.ref || m.TileRef(got) != ref {
				c.Fatalf("tile at %v: reference %x, want %x", l, ref, want.ref)
			}
			if got.Header == nil || got.Header.X != l.x || got.Header.Y != l.y || got.Header.Layer != l.layer || got.Header.UserID != want.uid || len(got.Polys) != want.polys {
				c.Fatalf("tile at %v holds something else: %+v", l, got.Header)
			}
			if m.TileByRef(ref) != got {
				c.Fatalf("reference %x of the tile at %v leads to another tile", ref, l)
			}
		}
		// all layers
		var layers []detour.TileRef
		for k, t := range g.at {
			if k.x == l.x && k.y == l.y {
				layers = append(layers, t.ref)
			}
		}
		n := m.TilesAt(l.x, l.y, buf, int32(len(buf)))
		if int(n) != len(layers) {
			c.Fatalf("%d tiles at column %d,%d, want %d", n, l.x, l.y, len(layers))
		}
		seen := map[detour.TileRef]bool{}
		for _, t := range buf[:n] {
			r := m.TileRef(t)
			if _, lt := g.byRef(r); lt == nil || seen[r] || t.Header.X != l.x || t.Header.Y != l.y {
				c.Fatalf("column %d,%d lists the wrong tile %x", l.x, l.y, r)
			}
			seen[r] = true
		}
		for k := int32(0); k < n; k++ {
			if got := m.TilesAt(l.x, l.y, buf, k); got != k {
				c.Fatalf("asked for %d of %d tiles, got %d", k, n, got)
			}
		}
	}
	for ref := range g.issued {
		_, lt := g.byRef(ref)
		t := m.TileByRef(ref)
		if lt == nil && t != nil && t.Header != nil {
			c.Fatalf("stale tile reference %x still leads to a tile", ref)
		}
		ps := []int{0, 1, 5}
		if lt != nil {
			ps = []int{0, lt.polys - 1, lt.polys, lt.polys + 1}
		}
		for _, p := range ps {
			if p >= g.maxPolys {
				continue
			}
			pr := detour.PolyRef(ref) | detour.PolyRef(p)
			want := lt != nil && p < lt.polys
			if m.IsValidPolyRef(pr) != want {
				c.Fatalf("polygon reference %x (tile live %v): valid %v", pr, lt != nil, !want)
			}
			var pt *detour.MeshTile
			var pp *detour.Poly
			st := m.TileAndPolyByRef(pr, &pt, &pp)
			if detour.StatusSucceed(st) != want || detour.StatusFailed(st) == want {
				c.Fatalf("polygon reference %x: status %x, valid %v", pr, uint32(st), want)
			}
			if want && (pt != t || pp != &t.Polys[p]) {
				c.Fatalf("polygon reference %x leads to another polygon", pr)
			}
			if !want && (pt != nil || pp != nil) {
				c.Fatalf("failed lookup of %x returns a polygon", pr)
			}
		}
	}
	live := 0
	for i := range m.Tiles {
		if m.Tiles[i].Header != nil {
			live++
		}
	}
	if live != len(g.at) {
		c.Fatalf("%d tiles in the mesh, want %d", live, len(g.at))
	}
}

func TestC04(t *testing.T) {
	hx.Run(t, "history", "a history in which a tile slot is used again after a removal", 24000, 600000, func(c *hx.Case) {
		r := gen.New(c.T)
		w := gen.NewWorld(r, gen.Opts{MaxCells: 2, NoLayers: true, Cons: true})
		w.Single = false
		proto := w.Tiles[0]
		maxTiles := r.Int("maxtiles", 1, 20)
		np := w.NavParams()
		np.MaxTiles = uint32(maxTiles)
		np.MaxPolys = uint32(len(proto.Polys) + 4 + r.U(0, 50))
		g := &registry{m: &detour.NavMesh{}, at: map[loc]*liveTile{}, issued: map[detour.TileRef]bool{}}
		if st := g.m.Init(np); detour.StatusFailed(st) {
			c.Fatalf("Init: %x", uint32(st))
		}
		g.maxPolys = 1
		for g.maxPolys < int(np.MaxPolys) {
			g.maxPolys *= 2
		}
		var locs []loc
		far := gen.Any(r, 2, 2, 1000, 1<<30)
		for i := 0; i < maxTiles+4; i++ {
			l := loc{int32(r.U(-far, far)), int32(r.U(-far, far)), int32(r.U(0, 3))}
			if i > 0 && r.P(0.4) {
				l = locs[r.U(0, i-1)]
				switch r.U(0, 3) {
				case 0:
					l.layer++
				case 1:
					l.x++
				case 2:
					l.y--
				case 3:
					l.x, l.y = l.y, l.x
				}
			}
			locs = append(locs, l)
		}
		var past []detour.TileRef // in order, for determinism
		reused := false
		removed := map[uint32]int{}
		ops := r.Int("ops", 1, 60)
		c.Sample("%d operations on %d slots, %d locations, %s", ops, maxTiles, len(locs), w.Describe())
		for i := 0; i < ops; i++ {
			before := []byte(nil)
			if r.P(0.3) {
				before = save(c, g.m)
			}
			failed := false
			switch op := r.Int("op", 0, 9); {
			case op <= 4: // add
				l := locs[r.U(0, len(locs)-1)]
				last := detour.TileRef(0)
				if op == 4 && len(past) > 0 {
					last = past[r.U(0, len(past)-1)]
				}
				tc := *proto
				tc.X, tc.Y, tc.Layer, tc.UserID = l.x, l.y, l.layer, uint32(i+1)
				d, err := w.Data(&tc)
				if err != nil {
					c.Fatalf("CreateNavMeshData: %v", err)
				}
				want := g.at[l] == nil && len(g.at) < maxTiles
				if last != 0 {
					want = g.at[l] == nil && !g.slotLive(last)
				}
				st, ref := g.m.AddTile(d, last)
				if detour.StatusSucceed(st) != want || detour.StatusFailed(st) == want {
					c.Fatalf("adding a tile at %v (last reference %x, %d of %d tiles present, occupied %v): status %x", l, last, len(g.at), maxTiles, g.at[l] != nil, uint32(st))
				}
				if !want {
					failed = true
					if ref != 0 {
						c.Fatalf("failed AddTile returns reference %x", ref)
					}
					break
				}
				if ref == 0 {
					c.Fatalf("AddTile returns the null reference")
				}
				if last != 0 && ref != last {
					c.Fatalf("tile restored with reference %x instead of %x", ref, last)
				}
				if last != 0 {
					g.rewound = true
				}
				if _, lt := g.byRef(ref); lt != nil {
					c.Fatalf("two tiles with reference %x", ref)
				}
				if last == 0 && !g.rewound && g.issued[ref] {
					c.Fatalf("reference %x was handed out before", ref)
				}
				if removed[slotOf(g.m, detour.PolyRef(ref))] > 0 {
					reused = true
				}
				g.at[l] = &liveTile{ref: ref, data: d, uid: tc.UserID, polys: len(g.m.TileAt(l.x, l.y, l.layer).Polys)}
				if !g.issued[ref] {
					past = append(past, ref)
				}
				g.issued[ref] = true
			case op <= 7: // remove a tile which is there
				var ls []loc
				for _, l := range locs {
					if g.at[l] != nil {
						ls = append(ls, l)
					}
				}
				if len(ls) == 0 {
					continue
				}
				l := ls[r.U(0, len(ls)-1)]
				lt := g.at[l]
				d, st := g.m.RemoveTile(lt.ref)
				if detour.StatusFailed(st) || !detour.StatusSucceed(st) {
					c.Fatalf("removing tile %x: %x", lt.ref, uint32(st))
				}
				if len(d) != len(lt.data) {
					c.Fatalf("RemoveTile returns %d bytes for a tile of %d", len(d), len(lt.data))
				}
				delete(g.at, l)
				removed[slotOf(g.m, detour.PolyRef(lt.ref))]++
				if r.P(0.2) { // and put the returned data back
					st, ref := g.m.AddTile(d, lt.ref)
					if detour.StatusFailed(st) || ref != lt.ref {
						c.Fatalf("re-adding a removed tile under its reference %x: %x %x", lt.ref, uint32(st), ref)
					}
					g.at[l] = lt
					g.rewound = true
				}
			default: // remove what is not there
				ref := detour.TileRef(0)
				if op == 8 && len(past) > 0 {
					ref = past[r.U(0, len(past)-1)]
				} else if r.P(0.8) {
					ref = detour.TileRef(r.U(0, 1<<32-1))
				}
				if g.slotLive(ref) {
					var s, it, ip, s2, it2, ip2 uint32
					g.m.DecodePolyID(detour.PolyRef(ref), &s, &it, &ip)
					live := false
					for _, t := range g.at {
						g.m.DecodePolyID(detour.PolyRef(t.ref), &s2, &it2, &ip2)
						live = live || s == s2 && it == it2
					}
					if live {
						continue
					}
				}
				d, st := g.m.RemoveTile(ref)
				if !detour.StatusFailed(st) || detour.StatusSucceed(st) || d != nil {
					c.Fatalf("removing the absent tile %x: status %x, %d bytes", ref, uint32(st), len(d))
				}
				failed = true
			}
			if failed && before != nil && !bytes.Equal(before, save(c, g.m)) {
				c.Fatalf("a failed operation changed the mesh")
			}
			g.check(c, locs)
		}
		c.LabelIf(len(g.at) == maxTiles, "full")
		c.LabelIf(g.rewound, "restored")
		if reused {
			c.Nontrivial(fmt.Sprint(past), w.Describe())
			c.Label("slot reused")
		}
	})

	hx.Run(t, "salt", "more removals of one slot than there are salts", 960, 12000, func(c *hx.Case) {
		r := gen.New(c.T)
		w := gen.NewWorld(r, gen.Opts{MaxCells: 1, NoFloors: true})
		w.Single = false
		np := w.NavParams()
		bits := r.Int("tilebits", 0, 3)
		np.MaxTiles, np.MaxPolys = 1<<bits, 1<<(24-bits)
		m := &detour.NavMesh{}
		if st := m.Init(np); detour.StatusFailed(st) {
			c.Fatalf("Init: %x", uint32(st))
		}
		d, err := w.Data(w.Tiles[0])
		if err != nil {
			c.Fatalf("CreateNavMeshData: %v", err)
		}
		var refs []detour.TileRef
		for i := 0; i < 530; i++ {
			st, ref := m.AddTile(d, 0)
			if detour.StatusFailed(st) || ref == 0 {
				c.Fatalf("addition %d: status %x reference %x", i, uint32(st), ref)
			}
			for k := len(refs) - 1; k >= 0 && k > len(refs)-255; k-- {
				if refs[k] == ref {
					c.Fatalf("reference %x handed out again after %d removals", ref, len(refs)-k)
				}
				if k%17 == 0 && m.IsValidPolyRef(detour.PolyRef(refs[k])) {
					c.Fatalf("stale reference %x is valid after %d removals", refs[k], len(refs)-k)
				}
			}
			if !m.IsValidPolyRef(detour.PolyRef(ref)) || m.TileByRef(ref) == nil {
				c.Fatalf("reference %x is not valid", ref)
			}
			refs = append(refs, ref)
			if _, st := m.RemoveTile(ref); detour.StatusFailed(st) {
				c.Fatalf("removal %d: %x", i, uint32(st))
			}
			if m.IsValidPolyRef(detour.PolyRef(ref)) {
				c.Fatalf("reference %x is valid after the removal", ref)
			}
		}
		c.Nontrivial(bits, w.Describe())
		c.Sample("%d slots, 530 additions and removals", 1<<bits)
	})

	hx.Run(t, "capacity", "tiles around the polygon capacity of the mesh, locations from positions", 9600, 120000, func(c *hx.Case) {
		r := gen.New(c.T)
		w := gen.NewWorld(r, gen.Opts{MaxNx: 2, MaxNy: 2, NegTiles: true})
		if w.Single {
			w.Single = false
		}
		np := w.NavParams()
		bits := r.Int("polybits", 0, 5)
		np.MaxPolys = uint32(1 << bits)
		m := &detour.NavMesh{}
		if st := m.Init(np); detour.StatusFailed(st) {
			c.Fatalf("Init: %x", uint32(st))
		}
		for _, ti := range w.Tiles {
			d, err := w.Data(ti)
			if err != nil {
				c.Fatalf("CreateNavMeshData: %v", err)
			}
			st, _ := m.AddTile(d, 0)
			if detour.StatusSucceed(st) != (len(ti.Polys) <= 1<<bits) {
				c.Fatalf("tile with %d polygons in a mesh for %d: status %x", len(ti.Polys), 1<<bits, uint32(st))
			}
			if detour.StatusSucceed(st) {
				c.Nontrivial(w.Describe(), bits)
				tile := m.TileAt(ti.X, ti.Y, ti.Layer)
				for i := range tile.Polys {
					var pt *detour.MeshTile
					var pp *detour.Poly
					if st := m.TileAndPolyByRef(refOf(m, tile, i), &pt, &pp); detour.StatusFailed(st) || pp != &tile.Polys[i] {
						c.Fatalf("polygon %d of %d is not reached by its reference", i, len(tile.Polys))
					}
				}
				ctr := w.Center(ti, r.U(0, len(ti.Polys)-1))
				if x, y := m.CalcTileLoc(vec(ctr)); x != ti.X || y != ti.Y {
					c.Fatalf("position %v lies in tile %d,%d, CalcTileLoc says %d,%d", ctr, ti.X, ti.Y, x, y)
				}
			}
		}
		c.Sample("capacity %d, %s", 1<<bits, w.Describe())
	})
}
