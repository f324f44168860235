package gen

import (
	"fmt"
	"math"

	"github.com/arl/go-detour/detour"
)

// Neighbour codes of a generated polygon edge.
const (
	Wall = -1
	// portal towards a side of the tile: Portal-dir with dir 0 x-, 1 z+, 2 x+, 3 z-
	Portal = -2
)

// Poly is a generated polygon (vertex indices, neighbour codes).
type Poly struct {
	V     []int
	Nei   []int
	Area  uint8
	Flags uint16
	Floor int
}

// OffCon is an off-mesh connection as given to CreateNavMeshData.
type OffCon struct {
	A, B   [3]float32
	Rad    float32
	Flags  uint16
	Area   uint8
	Bidir  bool
	UserID uint32
}

// Tile is a generated navigation mesh tile, in voxel coordinates.
type Tile struct {
	Climb        float32 // 0: that of the world
	X, Y, Layer  int32
	Verts        [][3]int
	Polys        []Poly
	Cons         []OffCon
	DetailMeshes []int32
	DetailVerts  []float32
	DetailTris   []uint8
	BV           bool
	BMin, BMax   [3]float32
	UserID       uint32
	Cut, CutDir  int // a portal inside the tile, at x = Cut towards CutDir (0 x-, 2 x+); Cut 0: none
}

// World is a set of tiles on a grid.
type World struct {
	Cs, Ch, Climb, Radius, Height float32
	Orig                          [3]float32
	W, H                          int // tile size in voxels
	Nx, Ny                        int
	X0, Y0                        int
	Nvp                           int
	Single                        bool // loaded with InitForSingleTile
	Tiles                         []*Tile
	MaxTiles, MaxPolys            uint32
	Partial                       bool // neighbouring tiles have different borders
	Floors                        int
	NoDetail                      bool
	Split                         bool // tiles are cut in two layers, side by side
}

// Opts selects what a world contains.
type Opts struct {
	MaxNx, MaxNy int  // tile grid (default 1)
	MaxCells     int  // lattice cells per tile side (default 4)
	Cons         bool // off-mesh connections
	NoLayers     bool
	NoFloors     bool
	Flat         bool
	Dense        bool // no holes
	AllBV        bool // all tiles have a BV tree
	OneArea      bool // area 1, flags 1 everywhere
	NegTiles     bool // tile coordinates may be negative
	MaxSpread    int  // extra capacity
	MaxRows      int  // lattice rows per tile (default MaxCells)
	Strip        bool // a row of tiles full of small polygons, up to some hundred of them in a row
	Long         bool // now and then a mesh with long corridors (see newScene)
}

type edgeKey struct{ a, b int }

func cross(a, b, c [3]int) int {
	return (b[0]-a[0])*(c[2]-a[2]) - (b[2]-a[2])*(c[0]-a[0])
}

// strictly convex with the winding the library uses (negative shoelace in x,z)
func convexOK(verts [][3]int, p []int) bool {
	n := len(p)
	for i := 0; i < n; i++ {
		if cross(verts[p[i]], verts[p[(i+1)%n]], verts[p[(i+2)%n]]) >= 0 {
			return false
		}
	}
	return true
}

// merge tries to join p and q along an edge; nil when not strictly convex or too big.
func merge(verts [][3]int, p, q []int, nvp int) []int {
	if len(p)+len(q)-2 > nvp {
		return nil
	}
	for i := range p {
		a, b := p[i], p[(i+1)%len(p)]
		for j := range q {
			if q[j] == b && q[(j+1)%len(q)] == a {
				var res []int
				for k := 0; k < len(p); k++ {
					res = append(res, p[(i+1+k)%len(p)])
				}
				// res goes from b around p to a; then q from after a to before b
				for k := 2; k < len(q); k++ {
					res = append(res, q[(j+k)%len(q)])
				}
				if len(res) != len(p)+len(q)-2 || !convexOK(verts, res) {
					return nil
				}
				return res
			}
		}
	}
	return nil
}

// NewWorld draws a world.
func NewWorld(r *R, o Opts) *World {
	def := func(v *int, d int) {
		if *v == 0 {
			*v = d
		}
	}
	def(&o.MaxNx, 1)
	def(&o.MaxNy, 1)
	def(&o.MaxCells, 4)
	def(&o.MaxRows, o.MaxCells)
	w := &World{
		Cs:     Pick(r, "cs", float32(0.5), 0.3, 0.25, 1, 2),
		Ch:     Pick(r, "ch", float32(0.25), 0.2, 0.5, 0.1),
		Nx:     r.Int("nx", 1, o.MaxNx),
		Ny:     r.Int("ny", 1, o.MaxNy),
		Nvp:    r.Int("nvp", 3, 6),
		Radius: 0.5,
		Height: 2,
		Floors: 1,
	}
	w.Climb = Pick(r, "climb", float32(0.5), 0.9, 0.2, 1.5)
	if r.Bool("orig") {
		w.Orig = [3]float32{float32(r.U(-40, 40)) * 0.5, float32(r.U(-8, 8)) * 0.25, float32(r.U(-40, 40)) * 0.5}
		if r.P(0.3) {
			w.Orig[0] += 0.13
			w.Orig[1] -= 0.07
			w.Orig[2] += 0.29
		}
	}
	if o.Strip {
		w.Nx, w.Ny = r.U(6, 9), 1
	}
	if o.NegTiles && r.Bool("negtiles") {
		w.X0, w.Y0 = r.U(-5, 2), r.U(-5, 2)
	}
	w.Single = w.Nx*w.Ny == 1 && r.Bool("single")
	if w.Single {
		w.X0, w.Y0 = 0, 0 // the tile of a single-tile mesh is the one at its origin
	}
	w.Partial = w.Nx*w.Ny > 1 && r.Bool("partial") && !o.Strip
	if !o.NoFloors && r.Bool("floors") {
		w.Floors = 2
	}
	layered := w.Floors == 2 && !w.Single && !o.NoLayers && r.Bool("layers")
	if layered && r.P(0.3) {
		w.Floors = r.U(3, 8)
		if r.P(0.15) { // a tower
			w.Floors = r.U(20, 45)
			w.Nx, w.Ny, o.MaxCells = minInt(w.Nx, 2), 1, 2
		}
	}
	w.Split = !w.Single && !o.NoLayers && r.P(0.15)
	div := Any(r, 12, 24, 36)
	w.W = div * Any(r, 1, 2)
	w.H = div * Any(r, 1, 2)
	n0, m0 := r.Int("cells", 1, o.MaxCells), r.Int("rows", 1, o.MaxRows)
	hmode := r.Int("heights", 0, 3)
	if o.Flat {
		hmode = 0
	}
	keep := 1.0
	if !o.Dense {
		keep = Pick(r, "keep", 1.0, 0.85, 0.6)
	}
	mergeProb := Pick(r, "merge", 0.8, 0.0, 0.4, 1.0)
	if o.Strip {
		n0, m0, mergeProb = 24, r.U(1, 2), Any(r, 0, 0, 0.2)
	}
	w.NoDetail = r.Bool("nodetail")
	gap := int(6/w.Ch) + 4
	maxY := 0
	for ty := 0; ty < w.Ny; ty++ {
		for tx := 0; tx < w.Nx; tx++ {
			n, m := n0, m0
			if w.Partial {
				n, m = r.U(1, minInt(4, o.MaxCells)), r.U(1, minInt(4, o.MaxRows))
			}
			for w.W%n != 0 {
				n--
			}
			for w.H%m != 0 {
				m--
			}
			var cur *Tile
			for fl := 0; fl < w.Floors; fl++ {
				if fl > 0 && r.P(0.3) {
					continue
				}
				if cur == nil || layered {
					cur = &Tile{X: int32(w.X0 + tx), Y: int32(w.Y0 + ty), Layer: int32(fl), UserID: uint32(r.U(0, math.MaxUint32))}
					w.Tiles = append(w.Tiles, cur)
				}
				base := fl * gap
				sx, sz := w.W/n, w.H/m
				jx, jz := (sx-1)/4, (sz-1)/4
				cut := 0
				if w.Split && n > 1 {
					cut, jx = r.U(1, n-1)*sx, 0
					if cur.Cut != 0 {
						cut = cur.Cut
					}
					cur.Cut = cut
				}
				idx := make([][]int, m+1)
				for j := 0; j <= m; j++ {
					idx[j] = make([]int, n+1)
					for i := 0; i <= n; i++ {
						x, z := i*sx, j*sz
						bx, bz := i == 0 || i == n, j == 0 || j == m
						if !bx && (!bz || w.Partial) {
							x += r.U(-jx, jx)
						}
						if !bz && (!bx || w.Partial) {
							z += r.U(-jz, jz)
						}
						gx, gz := x+(tx*w.W), z+(ty*w.H)
						y := base
						switch hmode {
						case 1:
							y += (gx*3 + gz*2) / (4 * maxInt(1, w.W/12))
						case 2:
							y += gz / 5
						case 3:
							y += r.U(0, 5)
						}
						if y > maxY {
							maxY = y
						}
						idx[j][i] = len(cur.Verts)
						cur.Verts = append(cur.Verts, [3]int{x, y, z})
					}
				}
				var ps [][]int
				for j := 0; j < m; j++ {
					for i := 0; i < n; i++ {
						if !r.P(keep) && !(i == 0 && j == 0 && len(cur.Polys) == 0) {
							continue
						}
						// corners: a(x,z) b(x+,z) c(x+,z+) d(x,z+); winding a,d,c,b
						a, b, c, d := idx[j][i], idx[j][i+1], idx[j+1][i+1], idx[j+1][i]
						if r.P(0.5) {
							ps = append(ps, []int{a, d, c}, []int{a, c, b})
						} else {
							ps = append(ps, []int{a, d, b}, []int{d, c, b})
						}
					}
				}
				// random greedy merging
				for tries := 0; tries < 3*len(ps); tries++ {
					if !r.P(mergeProb) || len(ps) < 2 {
						continue
					}
					x := r.U(0, len(ps)-1)
					for y := range ps {
						if y == x {
							continue
						}
						if cut != 0 && leftOf(cur.Verts, ps[x], cut) != leftOf(cur.Verts, ps[y], cut) {
							continue
						}
						if mp := merge(cur.Verts, ps[x], ps[y], w.Nvp); mp != nil {
							ps[x] = mp
							ps = append(ps[:y], ps[y+1:]...)
							break
						}
					}
				}
				for _, p := range ps {
					for i := range p {
						_ = i
					}
					k := r.U(0, len(p)-1)
					p = append(append([]int{}, p[k:]...), p[:k]...)
					po := Poly{V: p, Area: 1, Flags: 1, Floor: fl}
					if !o.OneArea {
						po.Area = uint8(Any(r, 0, 1, 2, 3, 62, 63, r.U(4, 61)))
						po.Flags = uint16(Any(r, 1, 2, 3, 0x8001, 0xffff, 0))
						if r.P(0.5) {
							po.Flags = 1
						}
					}
					cur.Polys = append(cur.Polys, po)
				}
			}
		}
	}
	maxY = w.split(r, maxY, o.Flat)
	for _, t := range w.Tiles {
		w.finishTile(r, t, maxY, o)
	}
	w.MaxTiles = uint32(len(w.Tiles) + r.Int("extra", 0, maxInt(3, o.MaxSpread)))
	if w.Single {
		w.MaxTiles = 1
	}
	w.MaxPolys = 1
	for _, t := range w.Tiles {
		if uint32(len(t.Polys)+8) > w.MaxPolys {
			w.MaxPolys = uint32(len(t.Polys) + 8)
		}
	}
	w.MaxPolys += uint32(r.Int("extrapolys", 0, 40))
	if o.Cons {
		w.addCons(r)
	}
	return w
}

// leftOf tells whether a polygon lies left of x = cut.
func leftOf(verts [][3]int, p []int, cut int) bool {
	for _, v := range p {
		if verts[v][0] > cut {
			return false
		}
	}
	return true
}

// split makes two layers of the tiles that are to be cut, and returns the new
// greatest height.
func (w *World) split(r *R, maxY int, flat bool) int {
	var add []*Tile
	top := maxY
	for _, t := range w.Tiles {
		if t.Cut == 0 {
			continue
		}
		var lo, hi []Poly
		for _, p := range t.Polys {
			if leftOf(t.Verts, p.V, t.Cut) {
				lo = append(lo, p)
			} else {
				hi = append(hi, p)
			}
		}
		if len(lo) == 0 || len(hi) == 0 {
			t.Cut = 0
			continue
		}
		u := &Tile{X: t.X, Y: t.Y, Layer: t.Layer + 64, UserID: t.UserID + 1, Polys: hi, Cut: t.Cut, CutDir: 0}
		up := 0
		if !flat && r.P(0.5) {
			up = r.U(0, int(3*w.Climb/w.Ch)+1)
		}
		for _, v := range t.Verts {
			v[1] += up
			if v[1] > top {
				top = v[1]
			}
			u.Verts = append(u.Verts, v)
		}
		t.Polys, t.CutDir = lo, 2
		add = append(add, u)
	}
	w.Tiles = append(w.Tiles, add...)
	return top
}

// finishTile drops unused vertices, computes adjacency, bounds and detail.
func (w *World) finishTile(r *R, t *Tile, maxY int, o Opts) {
	used := map[int]int{}
	var verts [][3]int
	for i := range t.Polys {
		for k, v := range t.Polys[i].V {
			nv, ok := used[v]
			if !ok {
				nv = len(verts)
				used[v] = nv
				verts = append(verts, t.Verts[v])
			}
			t.Polys[i].V[k] = nv
		}
	}
	t.Verts = verts
	edges := map[edgeKey]int{}
	for i, p := range t.Polys {
		for k := range p.V {
			edges[edgeKey{p.V[k], p.V[(k+1)%len(p.V)]}] = i
		}
	}
	for i := range t.Polys {
		p := &t.Polys[i]
		p.Nei = make([]int, len(p.V))
		for k := range p.V {
			a, b := p.V[k], p.V[(k+1)%len(p.V)]
			p.Nei[k] = Wall
			if q, ok := edges[edgeKey{b, a}]; ok {
				p.Nei[k] = q
				continue
			}
			va, vb := t.Verts[a], t.Verts[b]
			switch {
			case va[0] == 0 && vb[0] == 0:
				p.Nei[k] = Portal - 0
			case va[2] == w.H && vb[2] == w.H:
				p.Nei[k] = Portal - 1
			case va[0] == w.W && vb[0] == w.W:
				p.Nei[k] = Portal - 2
			case va[2] == 0 && vb[2] == 0:
				p.Nei[k] = Portal - 3
			case t.Cut != 0 && va[0] == t.Cut && vb[0] == t.Cut:
				p.Nei[k] = Portal - t.CutDir
			}
			if w.Single && p.Nei[k] <= Portal {
				if r.P(0.8) {
					p.Nei[k] = Wall
				}
			}
		}
	}
	t.BMin = [3]float32{
		w.Orig[0] + float32(t.X)*float32(w.W)*w.Cs,
		w.Orig[1],
		w.Orig[2] + float32(t.Y)*float32(w.H)*w.Cs,
	}
	t.BMax = [3]float32{
		w.Orig[0] + float32(t.X+1)*float32(w.W)*w.Cs,
		w.Orig[1] + float32(maxY+r.U(0, 3))*w.Ch,
		w.Orig[2] + float32(t.Y+1)*float32(w.H)*w.Cs,
	}
	t.BV = o.AllBV || r.P(0.6)
	if !w.NoDetail {
		w.addDetail(r, t)
	}
}

// World coordinates of a tile vertex, as documented.
func (w *World) Pos(t *Tile, v [3]int) [3]float32 {
	return [3]float32{t.BMin[0] + float32(v[0])*w.Cs, t.BMin[1] + float32(v[1])*w.Ch, t.BMin[2] + float32(v[2])*w.Cs}
}

func (w *World) addDetail(r *R, t *Tile) {
	t.DetailMeshes = []int32{}
	t.DetailVerts = []float32{}
	t.DetailTris = []uint8{}
	for _, p := range t.Polys {
		vb, tb := len(t.DetailVerts)/3, len(t.DetailTris)/4
		var c [3]float32
		for _, v := range p.V {
			q := w.Pos(t, t.Verts[v])
			t.DetailVerts = append(t.DetailVerts, q[:]...)
			for k := range c {
				c[k] += q[k] / float32(len(p.V))
			}
		}
		nv := len(p.V)
		nd := nv
		if r.P(0.6) {
			nd++
			c[1] += float32(r.U(-2, 2)) * w.Ch
			if c[1] < t.BMin[1] {
				c[1] = t.BMin[1]
			}
			if c[1] > t.BMax[1] {
				c[1] = t.BMax[1]
			}
			t.DetailVerts = append(t.DetailVerts, c[:]...)
			outer := func(i int) uint8 { return uint8(i % nv) }
			if r.P(0.04) { // many vertices: rings around the center
				rings := r.U(1, 120/nv)
				for k := rings; k >= 1; k-- {
					f := float32(k) / float32(rings+1)
					base := nd
					for _, v := range p.V {
						q := w.Pos(t, t.Verts[v])
						for a := range q {
							q[a] = c[a] + (q[a]-c[a])*f
						}
						t.DetailVerts = append(t.DetailVerts, q[:]...)
						nd++
					}
					for i := 0; i < nv; i++ {
						a, b := outer(i), outer(i+1)
						d, e := uint8(base+i), uint8(base+(i+1)%nv)
						t.DetailTris = append(t.DetailTris, a, b, d, 1, b, e, d, 0)
					}
					outer = func(i int) uint8 { return uint8(base + i%nv) }
				}
			}
			for i := 0; i < nv; i++ {
				t.DetailTris = append(t.DetailTris, outer(i), outer(i+1), uint8(nv), 1)
			}
		} else {
			for i := 1; i+1 < nv; i++ {
				t.DetailTris = append(t.DetailTris, 0, uint8(i), uint8(i+1), uint8(r.U(0, 0x15)))
			}
		}
		t.DetailMeshes = append(t.DetailMeshes, int32(vb), int32(nd), int32(tb), int32(len(t.DetailTris)/4-tb))
	}
}

// Center is the centroid of polygon p of tile t in world coordinates.
func (w *World) Center(t *Tile, p int) [3]float32 {
	var c [3]float32
	for _, v := range t.Polys[p].V {
		q := w.Pos(t, t.Verts[v])
		for k := range c {
			c[k] += q[k] / float32(len(t.Polys[p].V))
		}
	}
	return c
}

// RandPoint is a point inside (or, with spread, around) a random polygon.
func (w *World) RandPoint(r *R, spread float32) [3]float32 {
	t := w.Tiles[r.U(0, len(w.Tiles)-1)]
	return w.PointIn(r, t, r.U(0, len(t.Polys)-1), spread)
}

// PointIn is a point in polygon p (a random convex combination) moved by up to spread.
func (w *World) PointIn(r *R, t *Tile, p int, spread float32) [3]float32 {
	var c [3]float32
	var sum float32
	ws := make([]float32, len(t.Polys[p].V))
	for i := range ws {
		ws[i] = r.F(0.02, 1)
		sum += ws[i]
	}
	for i, v := range t.Polys[p].V {
		q := w.Pos(t, t.Verts[v])
		for k := range c {
			c[k] += q[k] * ws[i] / sum
		}
	}
	if spread > 0 {
		for k := range c {
			c[k] += r.F(-spread, spread)
		}
	}
	return c
}

func (w *World) addCons(r *R) {
	n := r.Int("cons", 0, 4)
	for i := 0; i < n; i++ {
		t := w.Tiles[r.U(0, len(w.Tiles)-1)]
		if len(t.Cons) >= 4 {
			continue
		}
		c := OffCon{
			A: w.PointIn(r, t, r.U(0, len(t.Polys)-1), 0), B: w.RandPoint(r, 0),
			Rad: Any(r, float32(0.3), 0.6, 1), Flags: uint16(Any(r, 1, 1, 8)), Area: uint8(Any(r, 5, 1, 63)),
			Bidir: r.P(0.5), UserID: uint32(r.U(0, math.MaxUint32)),
		}
		if r.P(0.2) {
			d := r.F(-2, 2)
			c.A[0] += d
		}
		if r.P(0.2) {
			c.B = w.RandPoint(r, 1)
		}
		t.Cons = append(t.Cons, c)
	}
}

// MixClimbs gives the tiles climb heights of their own.
func (w *World) MixClimbs(r *R) {
	for _, t := range w.Tiles {
		t.Climb = Any(r, 0, float32(0.2), 0.7, 2)
	}
}

func (w *World) climb(t *Tile) float32 {
	if t.Climb > 0 {
		return t.Climb
	}
	return w.Climb
}

// MoreCons adds connections of every kind: with ends near polygon borders, at
// the edge of the radius or the climb height, or out of reach.
func (w *World) MoreCons(r *R) { w.addAnyCons(r, r.Int("morecons", 0, 5), 6) }

// ManyCons adds up to n connections of the same kinds.
func (w *World) ManyCons(r *R, n int) {
	w.MaxPolys += uint32(n)
	w.addAnyCons(r, r.Int("manycons", 1, n), n)
}

func (w *World) addAnyCons(r *R, n, max int) {
	for ; n > 0; n-- {
		t := w.Tiles[r.U(0, len(w.Tiles)-1)]
		if len(t.Cons) >= max {
			continue
		}
		rad := Any(r, float32(0.1), 0.3, 0.6, 1, 2)
		climb := w.climb(t)
		end := func(t *Tile) [3]float32 {
			i := r.U(0, len(t.Polys)-1)
			p := w.PointIn(r, t, i, 0)
			if r.P(0.5) { // beyond an edge
				k := r.U(0, len(t.Polys[i].V)-1)
				a, b := w.Pos(t, t.Verts[t.Polys[i].V[k]]), w.Pos(t, t.Verts[t.Polys[i].V[(k+1)%len(t.Polys[i].V)]])
				u := r.F(0, 1)
				for x := range p {
					p[x] = a[x] + u*(b[x]-a[x])
				}
				dx, dz := b[0]-a[0], b[2]-a[2]
				l := float32(math.Hypot(float64(dx), float64(dz)))
				f := rad * r.F(-0.5, 1.6) / l
				p[0] -= dz * f
				p[2] += dx * f
			}
			if r.P(0.5) {
				p[1] += climb * r.F(-1.7, 1.7)
			}
			return p
		}
		c := OffCon{A: end(t), Rad: rad, Flags: uint16(Any(r, 1, 8)), Area: uint8(Any(r, 5, 1, 63)), Bidir: r.P(0.5), UserID: uint32(r.U(0, math.MaxUint32))}
		// mostly towards the tile itself or a tile next to it
		u := w.Tiles[r.U(0, len(w.Tiles)-1)]
		for k := 0; k < 4 && (u.X-t.X > 1 || t.X-u.X > 1 || u.Y-t.Y > 1 || t.Y-u.Y > 1); k++ {
			u = w.Tiles[r.U(0, len(w.Tiles)-1)]
		}
		c.B = end(u)
		t.Cons = append(t.Cons, c)
	}
}

// Params are the creation parameters of a tile.
func (w *World) Params(t *Tile) *detour.NavMeshCreateParams {
	p := &detour.NavMeshCreateParams{
		VertCount: int32(len(t.Verts)), PolyCount: int32(len(t.Polys)), Nvp: int32(w.Nvp),
		UserID: t.UserID, TileX: t.X, TileY: t.Y, TileLayer: t.Layer, BMin: t.BMin, BMax: t.BMax,
		WalkableHeight: w.Height, WalkableRadius: w.Radius, WalkableClimb: w.climb(t),
		Cs: w.Cs, Ch: w.Ch, BuildBvTree: t.BV,
	}
	for _, v := range t.Verts {
		p.Verts = append(p.Verts, uint16(v[0]), uint16(v[1]), uint16(v[2]))
	}
	for _, po := range t.Polys {
		row := make([]uint16, 2*w.Nvp)
		for i := range row {
			row[i] = 0xffff
		}
		for k, v := range po.V {
			row[k] = uint16(v)
			switch nei := po.Nei[k]; {
			case nei >= 0:
				row[w.Nvp+k] = uint16(nei)
			case nei == Wall:
				row[w.Nvp+k] = 0x800f
			default:
				row[w.Nvp+k] = 0x8000 | uint16(Portal-nei)
			}
		}
		p.Polys = append(p.Polys, row...)
		p.PolyAreas = append(p.PolyAreas, po.Area)
		p.PolyFlags = append(p.PolyFlags, po.Flags)
	}
	if t.DetailMeshes != nil {
		p.DetailMeshes = append([]int32{}, t.DetailMeshes...)
		p.DetailVerts = append([]float32{}, t.DetailVerts...)
		p.DetailTris = append([]uint8{}, t.DetailTris...)
		p.DetailVertsCount = int32(len(t.DetailVerts) / 3)
		p.DetailTriCount = int32(len(t.DetailTris) / 4)
	}
	p.OffMeshConCount = int32(len(t.Cons))
	for _, c := range t.Cons {
		p.OffMeshConVerts = append(p.OffMeshConVerts, c.A[0], c.A[1], c.A[2], c.B[0], c.B[1], c.B[2])
		p.OffMeshConRad = append(p.OffMeshConRad, c.Rad)
		p.OffMeshConFlags = append(p.OffMeshConFlags, c.Flags)
		p.OffMeshConAreas = append(p.OffMeshConAreas, c.Area)
		d := uint8(0)
		if c.Bidir {
			d = 1
		}
		p.OffMeshConDir = append(p.OffMeshConDir, d)
		p.OffMeshConUserID = append(p.OffMeshConUserID, c.UserID)
	}
	return p
}

// NavParams are the mesh parameters.
func (w *World) NavParams() *detour.NavMeshParams {
	return &detour.NavMeshParams{Orig: w.Orig, TileWidth: float32(w.W) * w.Cs, TileHeight: float32(w.H) * w.Cs,
		MaxTiles: w.MaxTiles, MaxPolys: w.MaxPolys}
}

// Data builds the tile data.
func (w *World) Data(t *Tile) ([]byte, error) { return detour.CreateNavMeshData(w.Params(t)) }

// Build makes the navigation mesh, adding the tiles in the given order (nil: in order).
func (w *World) Build(order []int) (*detour.NavMesh, error) {
	m := &detour.NavMesh{}
	if w.Single {
		d, err := w.Data(w.Tiles[0])
		if err != nil {
			return nil, err
		}
		if st := m.InitForSingleTile(d, 0); detour.StatusFailed(st) {
			return nil, fmt.Errorf("InitForSingleTile: 0x%x", uint32(st))
		}
		return m, nil
	}
	if st := m.Init(w.NavParams()); detour.StatusFailed(st) {
		return nil, fmt.Errorf("Init: 0x%x", uint32(st))
	}
	if order == nil {
		for i := range w.Tiles {
			order = append(order, i)
		}
	}
	for _, i := range order {
		d, err := w.Data(w.Tiles[i])
		if err != nil {
			return nil, err
		}
		if st, ref := m.AddTile(d, 0); detour.StatusFailed(st) || ref == 0 {
			return nil, fmt.Errorf("AddTile %d: 0x%x", i, uint32(st))
		}
	}
	return m, nil
}

// Describe is a short description for samples and failure messages.
func (w *World) Describe() string {
	np, nc := 0, 0
	for _, t := range w.Tiles {
		np += len(t.Polys)
		nc += len(t.Cons)
	}
	return fmt.Sprintf("world %dx%d tiles=%d polys=%d cons=%d nvp=%d cs=%g ch=%g climb=%g floors=%d partial=%v split=%v single=%v nodetail=%v orig=%v tile=%dx%d vx",
		w.Nx, w.Ny, len(w.Tiles), np, nc, w.Nvp, w.Cs, w.Ch, w.Climb, w.Floors, w.Partial, w.Split, w.Single, w.NoDetail, w.Orig, w.W, w.H)
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
