package props

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/harness/gen"
	"verif/harness/hx"
)

// expect checks a status: failed, with the details given and nothing else, if
// details < 0 any failure.
func expectFail(c *hx.Case, what string, st detour.Status, details int) {
	if !detour.StatusFailed(st) || detour.StatusSucceed(st) || detour.StatusInProgress(st) {
		c.Fatalf("%s: status %x, want a failure", what, uint32(st))
	}
	if details >= 0 && uint32(st)&detour.StatusDetailMask != uint32(details) {
		c.Fatalf("%s: details %x, want %x", what, uint32(st)&detour.StatusDetailMask, details)
	}
	if s := st.Error(); s == "" || s == "success" || s == "in progress" {
		c.Fatalf("%s: failed status %x described as %q", what, uint32(st), s)
	}
}

func badPos(r *gen.R, p d3.Vec3) (d3.Vec3, string) {
	switch r.U(0, 4) {
	case 0:
		return nil, "nil position"
	case 1:
		return d3.Vec3{}, "empty position"
	case 2:
		return cp(p)[:2], "short position"
	}
	q := cp(p)
	q[r.U(0, 2)] = gen.Any(r, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)))
	return q, fmt.Sprintf("position %v", q)
}

// wild is a position with a component no mesh can have.
func wild(r *gen.R, p d3.Vec3) d3.Vec3 {
	q := cp(p)
	for k := r.U(1, 2); k > 0; k-- {
		q[r.U(0, 2)] = gen.Any(r, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, -math.MaxFloat32)
	}
	return q
}

func TestC15(t *testing.T) {
	hx.Run(t, "arguments", "an operation called with at least one invalid argument, on a mesh with a removed tile", 250000, 6000000, func(c *hx.Case) {
		r := gen.New(c.T)
		w := gen.NewWorld(r, gen.Opts{Cons: true, NegTiles: true})
		if r.P(0.5) {
			w.MoreCons(r)
		}
		m := mustBuild(c, w, nil)
		// Remove tiles; put some back with new references.
		var stale []detour.PolyRef
		for _, i := range r.Perm(len(w.Tiles)) {
			if r.P(0.5) {
				continue
			}
			ti := w.Tiles[i]
			tile := m.TileAt(ti.X, ti.Y, ti.Layer)
			for k := range tile.Polys {
				stale = append(stale, refOf(m, tile, k))
			}
			d, st := m.RemoveTile(m.TileRef(tile))
			if detour.StatusFailed(st) {
				c.Fatalf("RemoveTile: %x", uint32(st))
			}
			if len(w.Tiles) == 1 || r.P(0.6) {
				if st, _ := m.AddTile(d, 0); detour.StatusFailed(st) {
					c.Fatalf("AddTile: %x", uint32(st))
				}
			}
		}
		s := &scene{m: m, w: w, name: w.Describe()}
		s.init(c)
		if len(s.refs) == 0 {
			c.Label("no tile left")
			return
		}
		nodes := int32(gen.Any(r, 1, 4, 512))
		q := newQuery(c, m, nodes)
		f, _ := randFilter(r, false, false)
		a, b := s.pick(r), s.pick(r)
		pa, pb := s.point(c, r, a, 0), s.point(c, r, b, 0)
		var salt, it, ip uint32
		m.DecodePolyID(a, &salt, &it, &ip)
		badRef := func() (detour.PolyRef, string) {
			for {
				ref, name := detour.PolyRef(0), "null reference"
				switch r.U(0, 6) {
				case 0:
				case 1:
					ref, name = detour.PolyRef(r.U(0, 1<<32-1)), "random reference"
				case 2, 3:
					if len(stale) == 0 {
						continue
					}
					ref, name = stale[r.U(0, len(stale)-1)], "stale reference"
				case 4: // beyond the polygons of a tile
					t, _ := polyOf(c, m, a)
					ref, name = refOf(m, t, len(t.Polys)+r.U(0, 20)*r.U(0, 20)), "polygon out of range"
				case 5:
					ref, name = a^detour.PolyRef(1)<<r.U(0, 31), "one bit wrong"
				case 6:
					ref, name = detour.PolyRef(uint32(int32(-1)>>r.U(0, 31))), "ones"
				}
				// whether the reference names a polygon, by enumeration
				live := false
				for _, x := range s.all {
					var s1, t1, p1, s2, t2, p2 uint32 // the top bit may be unused
					m.DecodePolyID(x, &s1, &t1, &p1)
					m.DecodePolyID(ref, &s2, &t2, &p2)
					live = live || s1 == s2 && t1 == t2 && p1 == p2
				}
				if !live {
					return ref, fmt.Sprintf("%s %x", name, ref)
				}
			}
		}
		before, snap := save(c, m), snapMesh(c, m)
		n := r.Int("calls", 1, 8)
		var done []string
		for k := 0; k < n; k++ {
			op := r.Int("op", 0, 14)
			// the arguments, one or more of them spoilt
			xa, xb, ya, yb := a, b, pa, pb
			var xf detour.QueryFilter = f
			why := ""
			spoil := func(kinds string) {
				for why == "" {
					for _, k := range kinds {
						if !r.P(0.3) {
							continue
						}
						var x string
						switch k {
						case 'a':
							xa, x = badRef()
							x = "start " + x
						case 'b':
							xb, x = badRef()
							x = "end " + x
						case 'A':
							ya, x = badPos(r, pa)
							x = "start " + x
						case 'B':
							yb, x = badPos(r, pb)
							x = "end " + x
						case 'f':
							xf, x = nil, "no filter"
						}
						why += ", " + x
					}
				}
			}
			buf := make([]detour.PolyRef, 64)
			what := ""
			name := func(n string) { what = fmt.Sprintf("%s (%s)", n, why); done = append(done, what) }
			switch op {
			case 0:
				if r.P(0.2) {
					why, buf = "no path buffer", gen.Any(r, nil, []detour.PolyRef{}, buf[:0])
				} else {
					spoil("abABf")
				}
				name("FindPath")
				n, st := q.FindPath(xa, xb, ya, yb, xf, buf)
				expectFail(c, what, st, detour.InvalidParam)
				if n != 0 {
					c.Fatalf("%s: %d polygons", what, n)
				}
			case 1:
				var opts uint32 = uint32(r.U(0, 1)) * detour.FindPathAnyAngle
				spoil("abABf")
				name("InitSlicedFindPath")
				st := q.InitSlicedFindPath(xa, xb, ya, yb, xf, opts)
				expectFail(c, what, st, detour.InvalidParam)
				if r.P(0.7) {
					x := 0
					expectFail(c, what+" then Update", q.UpdateSlicedFindPath(r.U(0, 10), &x), -1)
				}
				var n int
				if r.P(0.5) {
					n, st = q.FinalizeSlicedFindPath(buf, len(buf))
				} else {
					n, st = q.FinalizeSlicedFindPathPartial([]detour.PolyRef{a}, 1, buf, len(buf))
				}
				expectFail(c, what+" then Finalize", st, -1)
				if n != 0 {
					c.Fatalf("%s then Finalize: %d polygons", what, n)
				}
			case 2: // finalize with bad sizes, or without a search
				size, have := len(buf), r.P(0.6)
				if have {
					st := q.InitSlicedFindPath(a, b, pa, pb, f, 0)
					if detour.StatusFailed(st) {
						c.Fatalf("InitSlicedFindPath: %x", uint32(st))
					}
					q.UpdateSlicedFindPath(r.U(0, 5), nil)
				}
				if have || r.P(0.3) {
					size = gen.Any(r, 0, -1, math.MinInt32, 65, 1<<30)
				}
				ex, exn, wantd := []detour.PolyRef{a, b}, 2, detour.InvalidParam
				why = fmt.Sprintf("path size %d of 64, search begun %v", size, have)
				part := r.P(0.5)
				if part && r.P(0.5) {
					exn = gen.Any(r, -1, 3, 0, math.MaxInt32, math.MinInt32)
					why += fmt.Sprintf(", existing size %d of 2", exn)
					if exn == 0 {
						wantd = -1
					}
				}
				if !have {
					wantd = -1
				}
				var n int
				var st detour.Status
				if part {
					name("FinalizeSlicedFindPathPartial")
					n, st = q.FinalizeSlicedFindPathPartial(ex, exn, buf, size)
				} else {
					name("FinalizeSlicedFindPath")
					n, st = q.FinalizeSlicedFindPath(buf, size)
				}
				expectFail(c, what, st, wantd)
				if n != 0 {
					c.Fatalf("%s: %d polygons", what, n)
				}
				q = newQuery(c, m, nodes)
			case 3:
				hit := &detour.RaycastHit{Path: buf, MaxPath: len(buf)}
				prev := detour.PolyRef(0)
				switch r.U(0, 5) {
				case 0:
					hit, why = nil, "no hit"
				case 1:
					hit.MaxPath = gen.Any(r, 65, 1<<30)
					why = fmt.Sprintf("room for %d of %d", len(buf), hit.MaxPath)
				case 2:
					for prev == 0 {
						prev, why = badRef()
					}
					why = "previous " + why
				default:
					spoil("aABf")
				}
				name("Raycast")
				st := q.Raycast(xa, ya, yb, xf, r.U(0, 1)*detour.RaycastUseCosts, hit, prev)
				expectFail(c, what, st, detour.InvalidParam)
				if hit != nil && hit.PathCount != 0 {
					c.Fatalf("%s: %d polygons", what, hit.PathCount)
				}
			case 4:
				sp := make([]d3.Vec3, 64)
				for i := range sp {
					sp[i] = d3.NewVec3()
				}
				fl := make([]uint8, 64)
				corr := []detour.PolyRef{a, b}
				n, _ := newQuery(c, m, 512).FindPath(a, b, pa, pb, f, buf)
				if n > 0 {
					corr = append([]detour.PolyRef{}, buf[:n]...)
				}
				switch r.U(0, 4) {
				case 0:
					corr, why = corr[:0], "empty corridor"
				case 1:
					sp, why = sp[:0], "no room"
				case 2:
					corr[0], why = badRef()
					why = "first: " + why
				case 3:
					corr[len(corr)-1], why = badRef()
					why = "last: " + why
				case 4:
					if len(corr) < 3 {
						continue
					}
					i := r.U(1, len(corr)-2)
					corr[i], why = badRef()
					why = fmt.Sprintf("%d: %s", i, why)
					name("FindStraightPath")
					n, st := q.FindStraightPath(pa, pb, corr, sp, fl, buf, int32(r.U(0, 2)))
					if !detour.StatusSucceed(st) || !detour.StatusDetail(st, detour.PartialResult) {
						c.Fatalf("%s: status %x, want a partial result", what, uint32(st))
					}
					if n < 1 || n > len(sp) {
						c.Fatalf("%s: %d points", what, n)
					}
					continue
				}
				name("FindStraightPath")
				n, st := q.FindStraightPath(pa, pb, corr, sp, fl, buf, int32(r.U(0, 2)))
				expectFail(c, what, st, detour.InvalidParam)
				if n != 0 {
					c.Fatalf("%s: %d points", what, n)
				}
			case 5:
				spoil("a")
				name("ClosestPointOnPoly")
				over := false
				expectFail(c, what, q.ClosestPointOnPoly(xa, pa, d3.NewVec3(), &over), detour.InvalidParam)
				expectFail(c, what, q.ClosestPointOnPolyBoundary(xa, pa, d3.NewVec3()), detour.InvalidParam)
			case 6:
				ext := d3.Vec3{2, 2, 2}
				switch r.U(0, 2) {
				case 0:
					xf, why = nil, "no filter"
				case 1:
					ya, why = badPos(r, pa)
				default:
					ext, why = badPos(r, ext)
					why = "extents: " + why
				}
				name("FindNearestPoly")
				st, ref, pt := q.FindNearestPoly(ya, ext, xf)
				expectFail(c, what, st, detour.InvalidParam)
				if ref != 0 || pt != nil {
					c.Fatalf("%s: finds %x at %v", what, ref, pt)
				}
			case 7:
				spoil("a")
				name("references")
				if m.IsValidPolyRef(xa) || q.IsValidPolyRef(xa, f) {
					c.Fatalf("%s is said to be valid", what)
				}
				var tile *detour.MeshTile
				var poly *detour.Poly
				expectFail(c, what, m.TileAndPolyByRef(xa, &tile, &poly), -1)
				if tile != nil || poly != nil {
					c.Fatalf("%s: leads somewhere", what)
				}
				for _, x := range s.all {
					if !m.IsValidPolyRef(x) || q.IsValidPolyRef(x, f) != s.pass(c, x, f) {
						c.Fatalf("reference %x: valid %v, under the filter %v", x, m.IsValidPolyRef(x), q.IsValidPolyRef(x, f))
					}
				}
			case 8:
				// a tile reference: what does not name a live tile
				spoil("a")
				live := false
				for i := range m.Tiles {
					live = live || m.Tiles[i].Header != nil && uint32(m.TileRef(&m.Tiles[i])) == uint32(xa)&^(1<<polyBits(m)-1)
				}
				if live {
					continue
				}
				name("RemoveTile")
				d, st := m.RemoveTile(detour.TileRef(xa))
				expectFail(c, what, st, detour.InvalidParam)
				if d != nil {
					c.Fatalf("%s: %d bytes", what, len(d))
				}
				if t := m.TileByRef(detour.TileRef(xa)); t != nil && t.Header != nil {
					c.Fatalf("%s: TileByRef leads to a tile", what)
				}
			case 9:
				x := int32(gen.Any(r, 0, -1, math.MinInt32, math.MinInt32+1, 1<<16, 1<<20, math.MaxInt32))
				why = fmt.Sprintf("%d nodes", x)
				name("NewNavMeshQuery")
				st, qq := detour.NewNavMeshQuery(m, x)
				expectFail(c, what, st, detour.InvalidParam)
				if qq != nil {
					c.Fatalf("%s: returns a query", what)
				}
			case 10:
				p := *w.NavParams()
				switch r.U(0, 2) {
				case 0:
					p.MaxTiles = uint32(gen.Any(r, 1<<24+1, 1<<31, math.MaxUint32, 1<<31+1))
				case 1:
					p.MaxPolys = uint32(gen.Any(r, 1<<24+1, 1<<31, math.MaxUint32, 1<<31+1))
				case 2:
					tb := r.U(1, 24)
					p.MaxTiles = uint32(1<<tb) - uint32(r.U(0, 1<<tb/2-1))
					p.MaxPolys = uint32(1<<(24-tb)) + uint32(r.U(1, 5))
				}
				why = fmt.Sprintf("%d tiles of %d polygons", p.MaxTiles, p.MaxPolys)
				name("Init")
				m2 := &detour.NavMesh{}
				expectFail(c, what, m2.Init(&p), detour.InvalidParam)
			case 11:
				l := loc{int32(r.U(-1<<31, 1<<31-1)), int32(gen.Any(r, r.U(-3, 3), r.U(-1<<31, 1<<31-1))), int32(r.U(-2, 2))}
				if m.TileAt(l.x, l.y, 0) != nil {
					continue
				}
				why = fmt.Sprint(l)
				name("location")
				out := make([]*detour.MeshTile, 4)
				if m.TileAt(l.x, l.y, l.layer) != nil || m.TileRefAt(l.x, l.y, l.layer) != 0 || m.TilesAt(l.x, l.y, out, 4) != 0 {
					c.Fatalf("%s: a tile is found", what)
				}
				if m.TilesAt(w.Tiles[0].X, w.Tiles[0].Y, nil, 0) != 0 || m.TileRef(nil) != 0 {
					c.Fatalf("a tile without room for it")
				}
			case 12: // a search outlived by its tiles
				o := gen.Any(r, uint32(0), detour.FindPathAnyAngle)
				m2 := mustBuild(c, w, nil)
				s2 := &scene{m: m2, w: w}
				s2.init(c)
				q2 := newQuery(c, m2, 512)
				a, b := s2.pick(r), s2.pick(r)
				st := q2.InitSlicedFindPath(a, b, s2.point(c, r, a, 0), s2.point(c, r, b, 0), f, o)
				if detour.StatusFailed(st) {
					c.Fatalf("InitSlicedFindPath: %x", uint32(st))
				}
				st = q2.UpdateSlicedFindPath(r.U(0, 6), nil)
				gone := map[uint32]bool{}
				for i := range m2.Tiles {
					if m2.Tiles[i].Header != nil && r.P(0.5) {
						if _, st := m2.RemoveTile(m2.TileRef(&m2.Tiles[i])); detour.StatusFailed(st) {
							c.Fatalf("RemoveTile: %x", uint32(st))
						}
						gone[uint32(i)] = true
					}
				}
				why = fmt.Sprintf("%d tiles removed during the search", len(gone))
				name("sliced search")
				endGone := !m2.IsValidPolyRef(a) || !m2.IsValidPolyRef(b)
				if endGone != (gone[slotOf(m2, a)] || gone[slotOf(m2, b)]) {
					c.Fatalf("%s: an end is valid %v", what, !endGone)
				}
				if r.P(0.7) {
					was := detour.StatusInProgress(st)
					for k := 0; k < 3 && detour.StatusInProgress(st); k++ {
						st = q2.UpdateSlicedFindPath(gen.Any(r, 1, 10000), nil)
					}
					if was && endGone {
						expectFail(c, what, st, -1)
					}
				}
				n := 0
				failed := detour.StatusFailed(st)
				if r.P(0.5) {
					n, st = q2.FinalizeSlicedFindPath(buf, 64)
				} else {
					n, st = q2.FinalizeSlicedFindPathPartial([]detour.PolyRef{a, b}, 2, buf, 64)
				}
				if n < 0 || n > 64 || failed && !detour.StatusFailed(st) {
					c.Fatalf("%s: finalized to %d polygons, status %x", what, n, uint32(st))
				}
				if r.P(0.5) { // the query can be used again
					s3 := &scene{m: m2, w: w}
					s3.init(c)
					if len(s3.refs) > 0 {
						x := s3.pick(r)
						p := s3.point(c, r, x, 0)
						if n, st := q2.FindPath(x, x, p, p, f, buf); n != 1 || !detour.StatusSucceed(st) {
							c.Fatalf("%s: then FindPath: %d, %x", what, n, uint32(st))
						}
					}
				}
			case 14: // positions that are no positions: an answer or a failure
				ya, yb = gen.Any(r, pa, wild(r, pa)), wild(r, pb)
				if r.P(0.3) {
					ya, yb = yb, ya
				}
				why = fmt.Sprintf("positions %v %v", ya, yb)
				name("queries")
				n, st := q.FindPath(a, b, ya, yb, f, buf)
				if n < 0 || n > len(buf) || (n == 0) != detour.StatusFailed(st) {
					c.Fatalf("%s: FindPath %d, %x", what, n, uint32(st))
				}
				if n > 0 {
					s.checkCorridor(c, what, buf[:n], a, f)
				}
				corr := append([]detour.PolyRef{}, buf[:n]...)
				hit := &detour.RaycastHit{Path: buf, MaxPath: len(buf)}
				st = q.Raycast(a, ya, yb, f, r.U(0, 1)*detour.RaycastUseCosts, hit, 0)
				if hit.PathCount < 0 || hit.PathCount > len(buf) {
					c.Fatalf("%s: Raycast %d, %x", what, hit.PathCount, uint32(st))
				}
				sp := make([]d3.Vec3, 64)
				for i := range sp {
					sp[i] = d3.NewVec3()
				}
				if len(corr) > 0 {
					if n, st := q.FindStraightPath(ya, yb, corr, sp, make([]uint8, 64), buf, int32(r.U(0, 2))); n < 0 || n > 64 {
						c.Fatalf("%s: FindStraightPath %d, %x", what, n, uint32(st))
					}
				}
				q.ClosestPointOnPoly(a, yb, d3.NewVec3(), nil)
				q.ClosestPointOnPolyBoundary(a, yb, d3.NewVec3())
				q.FindNearestPoly(ya, d3.Vec3{1, 1, 1}, f)
				st = q.InitSlicedFindPath(a, b, ya, yb, f, uint32(r.U(0, 1))*detour.FindPathAnyAngle)
				for k := 0; k < 2000 && detour.StatusInProgress(st); k++ {
					st = q.UpdateSlicedFindPath(100, nil)
				}
				if detour.StatusInProgress(st) {
					c.Fatalf("%s: the sliced search does not end", what)
				}
				q.FinalizeSlicedFindPath(buf, len(buf))
			case 13: // statuses
				st := detour.Status(uint32(r.U(0, 1<<32-1)))
				why = fmt.Sprintf("%x", uint32(st))
				name("status")
				d := uint32(1) << r.U(0, 6)
				if detour.StatusFailed(st) != (uint32(st)>>31&1 == 1) || detour.StatusSucceed(st) != (uint32(st)>>30&1 == 1) ||
					detour.StatusInProgress(st) != (uint32(st)>>29&1 == 1) || detour.StatusDetail(st, d) != (uint32(st)&d != 0) {
					c.Fatalf("%s is misread", what)
				}
				for bit, text := range map[detour.Status]string{detour.WrongMagic: "wrong magic number", detour.WrongVersion: "wrong version number",
					detour.OutOfMemory: "out of memory", detour.InvalidParam: "invalid parameter", detour.OutOfNodes: "out of nodes", detour.PartialResult: "partial result"} {
					if got := (detour.Failure | bit).Error(); got != text {
						c.Fatalf("failure with detail %x: %q", uint32(bit), got)
					}
				}
				if s := detour.Status(detour.InProgress).Error(); s != "in progress" {
					c.Fatalf("in progress: %q", s)
				}
				if s := detour.Status(detour.Success).Error(); s != "success" {
					c.Fatalf("success: %q", s)
				}
				if detour.StatusFailed(st) {
					expectFail(c, what, detour.Failure|st&detour.StatusDetailMask, -1)
				}
			}
		}
		if !bytes.Equal(before, save(c, m)) {
			c.Fatalf("%v changed the mesh", done)
		}
		if d := diffSnap(snap, snapMesh(c, m)); d != "" {
			c.Fatalf("%v changed the mesh: %s", done, d)
		}
		if len(stale) > 0 && len(done) > 0 {
			c.Nontrivial(fmt.Sprint(done), s.name)
		}
		c.LabelIf(len(stale) > 0, "removed tiles")
		c.Sample("%v on %s", done, s.name)
	})
}

// polyBits: how many bits of a reference number the polygon, by the decoder.
func polyBits(m *detour.NavMesh) int {
	for i := 0; i < 31; i++ {
		var s, t, p uint32
		m.DecodePolyID(detour.PolyRef(1)<<i, &s, &t, &p)
		if p == 0 {
			return i
		}
	}
	return 31
}
