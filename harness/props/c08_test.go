package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/arl/go-detour/detour"

	"verif/harness/gen"
	"verif/harness/hx"
)

type stateKey struct {
	ref   detour.PolyRef
	state uint8
}

// search is what a finished search left in the node pool, as a graph.
type search struct {
	s     *scene
	f     *detour.StandardQueryFilter
	end   detour.PolyRef
	pos   map[stateKey]v64
	g     map[stateKey]float64
	multi bool // some polygon has several states
}

// readSearch collects the discovered states and computes their exact distances.
func readSearch(c *hx.Case, s *scene, q *detour.NavMeshQuery, f *detour.StandardQueryFilter, a, b detour.PolyRef, pa, pb v64) *search {
	h := &search{s: s, f: f, end: b, pos: map[stateKey]v64{}, g: map[stateKey]float64{}}
	pool := q.NodePool()
	start := stateKey{a, 0}
	count := map[detour.PolyRef]int{}
	for _, ref := range s.all {
		for st := uint8(0); st < 4; st++ {
			if n := pool.FindNode(ref, st); n != nil {
				h.pos[stateKey{ref, st}] = to64(n.Pos)
				count[ref]++
				h.multi = h.multi || count[ref] > 1
			}
		}
	}
	if p, ok := h.pos[start]; !ok || p.dist(pa) > 1e-6*(1+scaleOf(pa)) {
		c.Fatalf("start node at %v, start position %v", p, pa)
	}
	// positions are middles of shared borders
	okPos := map[stateKey]bool{start: true}
	for k := range h.pos {
		for _, e := range s.edges(c, k.ref) {
			to := stateKey{e.to, e.state}
			p, ok := h.pos[to]
			if !ok || okPos[to] {
				continue
			}
			for _, m := range e.mids {
				if m.dist(p) < 1e-4*(1+scaleOf(p)*0.02) {
					okPos[to] = true
				}
			}
		}
	}
	for k, p := range h.pos {
		if !okPos[k] {
			c.Fatalf("the search passes polygon %x at %v, which is not the middle of a border", k.ref, p)
		}
	}
	// Dijkstra
	h.g[start] = 0
	done := map[stateKey]bool{}
	for {
		best, bd := stateKey{}, math.Inf(1)
		for k, d := range h.g {
			if !done[k] && d < bd {
				best, bd = k, d
			}
		}
		if math.IsInf(bd, 1) {
			break
		}
		done[best] = true
		if best.ref == b {
			continue
		}
		for _, e := range s.edges(c, best.ref) {
			to := stateKey{e.to, e.state}
			p, ok := h.pos[to]
			if !ok || !s.pass(c, e.to, f) {
				continue
			}
			d := bd + h.area(c, best.ref)*h.pos[best].dist(p)
			if old, ok := h.g[to]; !ok || d < old {
				h.g[to] = d
			}
		}
	}
	return h
}

func (h *search) area(c *hx.Case, ref detour.PolyRef) float64 {
	_, p := polyOf(c, h.s.m, ref)
	return float64(h.f.AreaCost(int32(p.Area())))
}

// endCost is the least cost of reaching the end position.
func (h *search) endCost(c *hx.Case, pb v64) float64 {
	best := math.Inf(1)
	for k, g := range h.g {
		if k.ref == h.end {
			best = math.Min(best, g+h.area(c, h.end)*h.pos[k].dist(pb))
		}
	}
	return best
}

// pathCost is the least cost of a corridor over the states it may go through.
func (h *search) pathCost(c *hx.Case, path []detour.PolyRef, pb v64) float64 {
	cur := map[stateKey]float64{{path[0], 0}: 0}
	for i := 1; i < len(path); i++ {
		next := map[stateKey]float64{}
		for k, g := range cur {
			for _, e := range h.s.edges(c, k.ref) {
				to := stateKey{e.to, e.state}
				p, ok := h.pos[to]
				if e.to != path[i] || !ok {
					continue
				}
				d := g + h.area(c, k.ref)*h.pos[k].dist(p)
				if old, ok := next[to]; !ok || d < old {
					next[to] = d
				}
			}
		}
		cur = next
	}
	best := math.Inf(1)
	for k, g := range cur {
		best = math.Min(best, g+h.area(c, k.ref)*h.pos[k].dist(pb))
	}
	return best
}

func TestC08(t *testing.T) {
	hx.Run(t, "leastcost", "an exact comparison with Dijkstra on a path of at least 3 polygons", 60000, 2000000, func(c *hx.Case) {
		r := gen.New(c.T)
		o := pathOpts
		if r.Bool("onetile") {
			o.MaxNx, o.MaxNy, o.MaxCells = 1, 1, 8
		}
		s := newScene(c, r, o)
		if linksFull(s.m) {
			c.Label("links used up") // one way of a link may be missing
			return
		}
		uniform := r.P(0.4)
		f, fname := randFilter(r, true, uniform)
		q := newQuery(c, s.m, 8192)
		for k := 0; k < 3; k++ {
			a, b := drawEnds(c, r, s, f)
			if a == b {
				continue
			}
			spread := gen.Any(r, float32(0), 0, 2)
			pa, pb := s.point(c, r, a, spread), s.point(c, r, b, spread)
			path := make([]detour.PolyRef, 4096)
			n, st := q.FindPath(a, b, pa, pb, f, path)
			if detour.StatusFailed(st) || !detour.StatusSucceed(st) || n < 1 {
				c.Fatalf("FindPath: %x", uint32(st))
			}
			path = path[:n]
			ea, eb := to64(pa), to64(pb)
			h := readSearch(c, s, q, f, a, b, ea, eb)
			what := fmt.Sprintf("FindPath %x -> %x on %s, filter %s", a, b, s.name, fname)
			if path[n-1] != b {
				// partial: nearest entry point
				c.Label("end out of reach")
				best, got := math.Inf(1), math.Inf(1)
				var bestRef detour.PolyRef
				for k, p := range h.pos {
					if d := p.dist(eb); d < best {
						best, bestRef = d, k.ref
					}
					if k.ref == path[n-1] {
						got = math.Min(got, p.dist(eb))
					}
				}
				if got > best+1e-4*(1+best+scaleOf(eb)*0.01) {
					c.Fatalf("%s: partial path ends at %x, entered %v from the end; %x is entered %v from it", what, path[n-1], got, bestRef, best)
				}
				for ref := range s.reach(c, a, f) {
					if !h.seen(ref) {
						c.Fatalf("%s: gave up without looking at %x", what, ref)
					}
				}
				continue
			}
			same := true
			for i := int32(0); i < 64; i++ {
				same = same && f.AreaCost(i) == f.AreaCost(0)
			}
			if !same && h.multi {
				c.Label("several entry points and costs: not compared")
				continue
			}
			best, got := h.endCost(c, eb), h.pathCost(c, path, eb)
			tol := 1e-4*(1+best) + 1e-6*scaleOf(eb)*float64(n)
			if got > best+tol {
				c.Fatalf("%s: the path costs %v, another one costs %v (path %x)", what, got, best, path)
			}
			// nothing cheaper was left unexplored
			for k, g := range h.g {
				if k.ref == b || g+0.999*h.pos[k].dist(eb) >= best-tol {
					continue
				}
				for _, e := range s.edges(c, k.ref) {
					// (the way back is never explored)
					if !h.seen(e.to) && s.pass(c, e.to, f) {
						c.Fatalf("%s: stopped at cost %v without looking beyond %x (cost so far %v), to %x", what, best, k.ref, g, e.to)
					}
				}
			}
			if n >= 3 {
				c.Nontrivial(s.name, a, b, fname)
			}
			c.LabelIf(!same, "different area costs")
			c.LabelIf(s.w == nil, "shipped mesh")
			c.Sample("%s: %d polygons, cost %.4f, %d states seen", what, n, best, len(h.pos))
		}
	})
}

// seen tells whether the search came across a polygon.
func (h *search) seen(ref detour.PolyRef) bool {
	for st := uint8(0); st < 4; st++ {
		if _, ok := h.pos[stateKey{ref, st}]; ok {
			return true
		}
	}
	return false
}
