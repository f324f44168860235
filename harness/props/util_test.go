package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/harness/gen"
	"verif/harness/hx"
)

const (
	nullLink = 0xffffffff
	extLink  = 0x8000
	offMesh  = 1
)

type linkInfo struct {
	Ref                    detour.PolyRef
	Edge, Side, BMin, BMax uint8
}

// links returns the links of a polygon, checking the list is well formed.
func links(c *hx.Case, tile *detour.MeshTile, p *detour.Poly) []linkInfo {
	var res []linkInfo
	n := 0
	for i := p.FirstLink; i != nullLink; i = tile.Links[i].Next {
		if int(i) >= len(tile.Links) {
			c.Fatalf("link index %d out of range (%d links)", i, len(tile.Links))
		}
		if n++; n > len(tile.Links) {
			c.Fatalf("cycle in the link list of a polygon")
		}
		l := tile.Links[i]
		res = append(res, linkInfo{l.Ref, l.Edge, l.Side, l.BMin, l.BMax})
	}
	return res
}

func sortedLinks(ls []linkInfo) []linkInfo {
	ls = append([]linkInfo{}, ls...)
	sort.Slice(ls, func(i, j int) bool {
		a, b := ls[i], ls[j]
		if a.Ref != b.Ref {
			return a.Ref < b.Ref
		}
		if a.Edge != b.Edge {
			return a.Edge < b.Edge
		}
		if a.Side != b.Side {
			return a.Side < b.Side
		}
		return a.BMin < b.BMin
	})
	return ls
}

type polySnap struct {
	Verts       []uint16
	Neis        []uint16
	Flags       uint16
	AreaAndType uint8
	Links       []linkInfo
}

type tileSnap struct {
	Ref         detour.TileRef
	Header      detour.MeshHeader
	Verts       []float32
	Polys       []polySnap
	Details     []detour.PolyDetail
	DetailVerts []float32
	DetailTris  []uint8
	Bv          []detour.BvNode
	Cons        []detour.OffMeshConnection
	DataSize    int32
}

// snapTile copies everything observable of a tile (link lists as sets).
func snapTile(c *hx.Case, m *detour.NavMesh, t *detour.MeshTile) *tileSnap {
	s := &tileSnap{Ref: m.TileRef(t), Header: *t.Header, DataSize: t.DataSize,
		Verts: append([]float32{}, t.Verts...), Details: append([]detour.PolyDetail{}, t.DetailMeshes...),
		DetailVerts: append([]float32{}, t.DetailVerts...), DetailTris: append([]uint8{}, t.DetailTris...),
		Bv: append([]detour.BvNode{}, t.BvTree...), Cons: append([]detour.OffMeshConnection{}, t.OffMeshCons...)}
	for i := range t.Polys {
		p := &t.Polys[i]
		s.Polys = append(s.Polys, polySnap{
			Verts: append([]uint16{}, p.Verts[:p.VertCount]...), Neis: append([]uint16{}, p.Neis[:p.VertCount]...),
			Flags: p.Flags, AreaAndType: p.AreaAndType, Links: sortedLinks(links(c, t, p))})
	}
	return s
}

// snapMesh: tile index -> snapshot.
func snapMesh(c *hx.Case, m *detour.NavMesh) map[int]*tileSnap {
	res := map[int]*tileSnap{}
	for i := range m.Tiles {
		if m.Tiles[i].Header != nil {
			res[i] = snapTile(c, m, &m.Tiles[i])
		}
	}
	return res
}

func diffSnap(a, b map[int]*tileSnap) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d tiles vs %d", len(a), len(b))
	}
	for i, x := range a {
		y := b[i]
		if y == nil {
			return fmt.Sprintf("tile %d missing", i)
		}
		if d := diffTile(x, y); d != "" {
			return fmt.Sprintf("tile %d: %s", i, d)
		}
	}
	return ""
}

func diffTile(x, y *tileSnap) string {
	xv, yv := reflect.ValueOf(*x), reflect.ValueOf(*y)
	for f := 0; f < xv.NumField(); f++ {
		name := xv.Type().Field(f).Name
		if reflect.DeepEqual(xv.Field(f).Interface(), yv.Field(f).Interface()) {
			continue
		}
		if name == "Polys" && len(x.Polys) == len(y.Polys) {
			for i := range x.Polys {
				if !reflect.DeepEqual(x.Polys[i], y.Polys[i]) {
					return fmt.Sprintf("poly %d: %+v vs %+v", i, x.Polys[i], y.Polys[i])
				}
			}
		}
		return fmt.Sprintf("%s: %v vs %v", name, short(xv.Field(f).Interface()), short(yv.Field(f).Interface()))
	}
	return ""
}

func short(v any) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func save(c *hx.Case, m *detour.NavMesh) []byte {
	var b bytes.Buffer
	if err := m.ToWriter(&b); err != nil {
		c.Fatalf("ToWriter: %v", err)
	}
	return b.Bytes()
}

// chunkReader returns data in pieces as io.Reader allows.
type chunkReader struct {
	data []byte
	next func() int // next chunk size
	eofs bool       // returns io.EOF together with the last bytes
	err  error      // what follows the data (io.EOF)
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.data) == 0 {
		return 0, r.err
	}
	n := r.next()
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.eofs {
		return n, r.err
	}
	return n, nil
}

func chunked(r *gen.R, data []byte) io.Reader {
	cr := &chunkReader{data: append([]byte{}, data...), err: io.EOF, eofs: r.P(0.3)}
	switch r.Int("chunking", 0, 3) {
	case 0:
		cr.next = func() int { return len(data) + 1 }
	case 1:
		cr.next = func() int { return 1 }
	case 2:
		cr.next = func() int { return r.U(1, 50) }
	default:
		cr.next = func() int { return r.U(1, 2000) }
	}
	return cr
}

// failWriter accepts limit bytes and then fails.
type failWriter struct {
	limit int
	n     int
}

var errDisk = errors.New("no space left")

func (w *failWriter) Write(p []byte) (int, error) {
	if w.n+len(p) > w.limit {
		k := w.limit - w.n
		w.n = w.limit
		return k, errDisk
	}
	w.n += len(p)
	return len(p), nil
}

// fixtures are the mesh files shipped with the repository.
func fixtures() []string {
	var res []string
	filepath.Walk(hx.Repo("testdata"), func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() && strings.HasSuffix(p, ".bin") {
			res = append(res, p)
		}
		return nil
	})
	sort.Strings(res)
	return res
}

var fixtureData = map[string][]byte{}

func fixture(path string) []byte {
	if b, ok := fixtureData[path]; ok {
		return b
	}
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	fixtureData[path] = b
	return b
}

// mustBuild builds a world or fails the case.
func mustBuild(c *hx.Case, w *gen.World, order []int) *detour.NavMesh {
	m, err := w.Build(order)
	if err != nil {
		c.Fatalf("valid input rejected: %v (%s)", err, w.Describe())
	}
	return m
}

// v64 is a float64 vector.
type v64 [3]float64

func to64(v []float32) v64 { return v64{float64(v[0]), float64(v[1]), float64(v[2])} }

func (a v64) sub(b v64) v64 { return v64{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func (a v64) add(b v64) v64 { return v64{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func (a v64) mul(s float64) v64 {
	return v64{a[0] * s, a[1] * s, a[2] * s}
}
func (a v64) len() float64           { return math.Sqrt(a[0]*a[0] + a[1]*a[1] + a[2]*a[2]) }
func (a v64) dist(b v64) float64     { return a.sub(b).len() }
func (a v64) dist2D(b v64) float64   { return math.Hypot(a[0]-b[0], a[2]-b[2]) }
func (a v64) vec() d3.Vec3           { return d3.Vec3{float32(a[0]), float32(a[1]), float32(a[2])} }
func lerp64(a, b v64, t float64) v64 { return a.add(b.sub(a).mul(t)) }

// cross2D is twice the signed area of a,b,c in the (x,z) plane.
func cross2D(a, b, c v64) float64 {
	return (b[0]-a[0])*(c[2]-a[2]) - (b[2]-a[2])*(c[0]-a[0])
}

// vertsOf returns the vertices of a polygon.
func vertsOf(t *detour.MeshTile, p *detour.Poly) []v64 {
	res := make([]v64, p.VertCount)
	for i := range res {
		k := int(p.Verts[i]) * 3
		res[i] = to64(t.Verts[k : k+3])
	}
	return res
}

// polyOf resolves a reference with a local decoder based on the public API.
func polyOf(c *hx.Case, m *detour.NavMesh, ref detour.PolyRef) (*detour.MeshTile, *detour.Poly) {
	var t *detour.MeshTile
	var p *detour.Poly
	if st := m.TileAndPolyByRef(ref, &t, &p); detour.StatusFailed(st) {
		c.Fatalf("reference %x does not resolve", ref)
	}
	return t, p
}

// refOf is the reference of polygon i of a tile.
func refOf(m *detour.NavMesh, t *detour.MeshTile, i int) detour.PolyRef {
	return detour.PolyRef(m.TileRef(t)) | detour.PolyRef(i)
}

// allPolys lists every polygon reference of a mesh.
func allPolys(m *detour.NavMesh, withOffMesh bool) []detour.PolyRef {
	var res []detour.PolyRef
	for i := range m.Tiles {
		t := &m.Tiles[i]
		if t.Header == nil {
			continue
		}
		for k := range t.Polys {
			if !withOffMesh && t.Polys[k].Type() == offMesh {
				continue
			}
			res = append(res, refOf(m, t, k))
		}
	}
	return res
}

// closestSeg2D: parameter and distance of p to segment ab in the (x,z) plane.
func closestSeg2D(p, a, b v64) (t, d float64) {
	dx, dz := b[0]-a[0], b[2]-a[2]
	l := dx*dx + dz*dz
	if l > 0 {
		t = ((p[0]-a[0])*dx + (p[2]-a[2])*dz) / l
	}
	t = math.Max(0, math.Min(1, t))
	return t, math.Hypot(a[0]+t*dx-p[0], a[2]+t*dz-p[2])
}

// inside2D: signed distance-like depth of p in the convex polygon (positive
// inside): the smallest distance to an edge line, oriented.
func inside2D(p v64, vs []v64) float64 {
	d := math.Inf(1)
	for i := range vs {
		a, b := vs[i], vs[(i+1)%len(vs)]
		l := a.dist2D(b)
		if l == 0 {
			continue
		}
		d = math.Min(d, -cross2D(a, b, p)/l)
	}
	return d
}

// dist2DPoly: distance in (x,z) of p to a convex polygon (0 inside).
func dist2DPoly(p v64, vs []v64) float64 {
	if inside2D(p, vs) >= 0 {
		return 0
	}
	d := math.Inf(1)
	for i := range vs {
		_, x := closestSeg2D(p, vs[i], vs[(i+1)%len(vs)])
		d = math.Min(d, x)
	}
	return d
}

func vec(v [3]float32) d3.Vec3 { return d3.Vec3{v[0], v[1], v[2]} }

func scratch() string {
	if d := os.Getenv("HX_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

// flagged is the status of a success with details.
func flagged(partial, nodes, buffer bool) detour.Status {
	st := detour.Status(detour.Success)
	if partial {
		st |= detour.PartialResult
	}
	if nodes {
		st |= detour.OutOfNodes
	}
	if buffer {
		st |= detour.BufferTooSmall
	}
	return st
}
