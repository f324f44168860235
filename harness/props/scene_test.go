package props

import (
	"bytes"
	"fmt"
	"math"
	"path/filepath"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/harness/gen"
	"verif/harness/hx"
)

// scene is a mesh to query: a generated world or a shipped mesh.
type scene struct {
	m      *detour.NavMesh
	w      *gen.World // nil for a shipped mesh
	name   string
	refs   []detour.PolyRef // ground polygons
	all    []detour.PolyRef
	graph  map[detour.PolyRef][]gEdge
	single bool
}

// gEdge is a step between polygons.
type gEdge struct {
	to    detour.PolyRef
	state uint8
	mids  []v64 // where the border may be crossed (middle)
	link  linkInfo
}

var fixtureScenes = map[string]*scene{}

// fixtureScene loads a shipped mesh (once).
func fixtureScene(c *hx.Case, path string) *scene {
	if s := fixtureScenes[path]; s != nil {
		return s
	}
	m, err := detour.Decode(bytes.NewReader(fixture(path)))
	if err != nil {
		c.Fatalf("%s: %v", path, err)
	}
	s := &scene{m: m, name: filepath.Base(path)}
	s.init(c)
	fixtureScenes[path] = s
	return s
}

func worldScene(c *hx.Case, w *gen.World, order []int) *scene {
	s := &scene{m: mustBuild(c, w, order), w: w, name: w.Describe()}
	s.init(c)
	return s
}

// longOdds is how many scenes there are for one with long corridors.
const longOdds = 99

// newScene draws a scene: mostly generated, sometimes shipped.
func newScene(c *hx.Case, r *gen.R, o gen.Opts) *scene {
	if r.Int("shipped", 0, 19) == 19 {
		fs := fixtures()
		return fixtureScene(c, gen.Pick(r, "file", fs...))
	}
	if o.Long && o.MaxNx > 1 && r.Int("long", 0, longOdds) == longOdds {
		// several hundred polygons, most of them in a row
		o.Strip, o.NoFloors, o.Dense, o.OneArea = true, true, true, o.OneArea || r.P(0.8)
		c.Label("long mesh")
	}
	w := gen.NewWorld(r, o)
	if o.Cons && r.P(0.5) {
		w.MoreCons(r)
	}
	return worldScene(c, w, r.Perm(len(w.Tiles)))
}

func (s *scene) init(c *hx.Case) {
	s.refs = allPolys(s.m, false)
	s.all = allPolys(s.m, true)
	n := 0
	for i := range s.m.Tiles {
		if s.m.Tiles[i].Header != nil {
			n++
		}
	}
	s.single = n == 1
}

// edges returns the steps from a polygon.
func (s *scene) edges(c *hx.Case, ref detour.PolyRef) []gEdge {
	if s.graph == nil {
		s.graph = map[detour.PolyRef][]gEdge{}
	}
	if e, ok := s.graph[ref]; ok {
		return e
	}
	t, p := polyOf(c, s.m, ref)
	var es []gEdge
	for _, l := range links(c, t, p) {
		e := gEdge{to: l.Ref, link: l}
		if l.Side != 0xff {
			e.state = l.Side >> 1
		}
		a, b := s.portals(c, ref, l)
		for i := range a {
			e.mids = append(e.mids, lerp64(a[i], b[i], 0.5))
		}
		es = append(es, e)
	}
	s.graph[ref] = es
	return es
}

// portals returns the border segments through which the link may lead.
func (s *scene) portals(c *hx.Case, ref detour.PolyRef, l linkInfo) (as, bs []v64) {
	t, p := polyOf(c, s.m, ref)
	vs := vertsOf(t, p)
	t2, p2 := polyOf(c, s.m, l.Ref)
	switch {
	case p.Type() == offMesh:
		v := vs[l.Edge]
		return []v64{v}, []v64{v}
	case p2.Type() == offMesh:
		vs2 := vertsOf(t2, p2)
		for _, l2 := range links(c, t2, p2) {
			if l2.Ref == ref {
				as, bs = append(as, vs2[l2.Edge]), append(bs, vs2[l2.Edge])
			}
		}
		return as, bs
	}
	a, b := vs[l.Edge], vs[(int(l.Edge)+1)%len(vs)]
	if l.Side != 0xff && (l.BMin != 0 || l.BMax != 255) {
		a, b = lerp64(a, b, float64(l.BMin)/255), lerp64(a, b, float64(l.BMax)/255)
	}
	return []v64{a}, []v64{b}
}

// reach is the set of polygons reachable under a filter.
func (s *scene) reach(c *hx.Case, start detour.PolyRef, f detour.QueryFilter) map[detour.PolyRef]bool {
	seen := map[detour.PolyRef]bool{start: true}
	todo := []detour.PolyRef{start}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, e := range s.edges(c, x) {
			if !seen[e.to] && s.pass(c, e.to, f) {
				seen[e.to] = true
				todo = append(todo, e.to)
			}
		}
	}
	return seen
}

func (s *scene) pass(c *hx.Case, ref detour.PolyRef, f detour.QueryFilter) bool {
	t, p := polyOf(c, s.m, ref)
	return f.PassFilter(ref, t, p)
}

// point is a random point in a polygon, possibly moved.
func (s *scene) point(c *hx.Case, r *gen.R, ref detour.PolyRef, spread float32) d3.Vec3 {
	t, p := polyOf(c, s.m, ref)
	vs := vertsOf(t, p)
	var q v64
	sum := 0.0
	ws := make([]float64, len(vs))
	for i := range ws {
		ws[i] = float64(r.F(0.02, 1))
		sum += ws[i]
	}
	for i, v := range vs {
		q = q.add(v.mul(ws[i] / sum))
	}
	res := q.vec()
	if spread > 0 {
		for i := range res {
			res[i] += r.F(-spread, spread)
		}
	}
	return res
}

func (s *scene) pick(r *gen.R) detour.PolyRef { return s.refs[r.U(0, len(s.refs)-1)] }

// randFilter draws a filter; costs >= 1 when atLeast1.
func randFilter(r *gen.R, atLeast1, uniform bool) (*detour.StandardQueryFilter, string) {
	f := detour.NewStandardQueryFilter()
	switch r.Int("filter", 0, 3) {
	case 1:
		f.SetIncludeFlags(uint16(gen.Any(r, 1, 2, 3, 0x8000, 9)))
	case 2:
		f.SetExcludeFlags(uint16(gen.Any(r, 2, 4, 8, 0x8000)))
	case 3:
		f.SetIncludeFlags(uint16(r.U(0, 0xffff)))
		f.SetExcludeFlags(uint16(r.U(0, 0xffff) & r.U(0, 0xffff) & r.U(0, 0xffff)))
	}
	if !uniform && r.Bool("costs") {
		for i := int32(0); i < 64; i++ {
			x := float32(gen.Any(r, 1, 1, 2, 5, 20)) + gen.Any(r, float32(0), 0, 0.5)
			if !atLeast1 && r.P(0.3) {
				x = r.F(0.05, 1)
			}
			f.SetAreaCost(i, x)
		}
	} else if r.P(0.2) {
		x := gen.Any(r, float32(1), 2, 3.5)
		for i := int32(0); i < 64; i++ {
			f.SetAreaCost(i, x)
		}
	}
	cost := ""
	for _, i := range []int32{0, 1, 2, 3, 5, 62, 63} {
		cost += fmt.Sprintf(" %d:%g", i, f.AreaCost(i))
	}
	return f, fmt.Sprintf("include %x exclude %x costs%s", f.IncludeFlags(), f.ExcludeFlags(), cost)
}

func newQuery(c *hx.Case, m *detour.NavMesh, nodes int32) *detour.NavMeshQuery {
	st, q := detour.NewNavMeshQuery(m, nodes)
	if detour.StatusFailed(st) || q == nil {
		c.Fatalf("NewNavMeshQuery(%d): %x", nodes, uint32(st))
	}
	return q
}

// checkCorridor checks that a path steps along links through polygons the filter
// passes.
func (s *scene) checkCorridor(c *hx.Case, what string, path []detour.PolyRef, start detour.PolyRef, f detour.QueryFilter) {
	if len(path) == 0 || path[0] != start {
		c.Fatalf("%s: path %x does not begin at the start %x", what, path, start)
	}
	for i := 1; i < len(path); i++ {
		ok := false
		for _, e := range s.edges(c, path[i-1]) {
			ok = ok || e.to == path[i]
		}
		if !ok {
			c.Fatalf("%s: path %x steps from %x to %x, which is not adjacent", what, path, path[i-1], path[i])
		}
		if !s.pass(c, path[i], f) {
			c.Fatalf("%s: path %x contains %x, which the filter rejects", what, path, path[i])
		}
	}
}

// states counts the search nodes a search can need.
func (s *scene) states(c *hx.Case) int {
	seen := map[[2]uint32]bool{}
	for _, ref := range s.all {
		for _, e := range s.edges(c, ref) {
			seen[[2]uint32{uint32(e.to), uint32(e.state)}] = true
		}
	}
	return len(seen) + 1
}

func nearly(a, b, tol float64) bool { return math.Abs(a-b) <= tol }
