package props

import (
	"testing"

	"github.com/arl/go-detour/detour"

	"verif/harness/gen"
	"verif/harness/hx"
)

var pathOpts = gen.Opts{MaxNx: 3, MaxNy: 3, MaxCells: 5, Cons: true, NegTiles: true, Long: true}

// farEnds picks the two ends of a strip now and then, or else leaves a and b.
func (s *scene) farEnds(r *gen.R, a, b detour.PolyRef) (detour.PolyRef, detour.PolyRef) {
	if s.w == nil || len(s.refs) <= 200 || !r.P(0.5) {
		return a, b
	}
	a, b = s.refs[r.U(0, 4)], s.refs[len(s.refs)-1-r.U(0, 4)]
	if r.Bool("back") {
		return b, a
	}
	return a, b
}

// drawEnds draws start and end polygons, preferring pairs the filter passes.
func drawEnds(c *hx.Case, r *gen.R, s *scene, f detour.QueryFilter) (a, b detour.PolyRef) {
	a = s.pick(r)
	b = s.pick(r)
	for k := 0; k < 3 && !s.pass(c, b, f); k++ {
		b = s.pick(r)
	}
	a, b = s.farEnds(r, a, b)
	if r.P(0.03) {
		a = s.all[r.U(0, len(s.all)-1)]
	}
	if r.P(0.03) {
		b = s.all[r.U(0, len(s.all)-1)]
	}
	return a, b
}

func TestC07(t *testing.T) {
	hx.Run(t, "findpath", "start and end are different polygons and the full path has at least 3 polygons", 50000, 1500000, func(c *hx.Case) {
		r := gen.New(c.T)
		s := newScene(c, r, pathOpts)
		f, fname := randFilter(r, false, false)
		q := newQuery(c, s.m, 4096)
		for k := 0; k < 4; k++ {
			a, b := drawEnds(c, r, s, f)
			pa, pb := s.point(c, r, a, 0), s.point(c, r, b, 0)
			if r.P(0.1) {
				pa, pb = s.point(c, r, a, 3), s.point(c, r, b, 3)
			}
			full := make([]detour.PolyRef, 4096)
			n, st := q.FindPath(a, b, pa, pb, f, full)
			if detour.StatusFailed(st) || !detour.StatusSucceed(st) {
				c.Fatalf("FindPath %x to %x: status %x", a, b, uint32(st))
			}
			if n < 1 || n > len(full) {
				c.Fatalf("FindPath %x to %x: %d polygons", a, b, n)
			}
			path := full[:n]
			what := "FindPath on " + s.name + ", filter " + fname
			s.checkCorridor(c, what, path, a, f)
			reach := s.reach(c, a, f)
			if detour.StatusDetail(st, detour.OutOfNodes|detour.BufferTooSmall) {
				c.Fatalf("%s: status %x with plenty of nodes and room", what, uint32(st))
			}
			complete := path[n-1] == b
			if complete != reach[b] {
				c.Fatalf("%s: from %x to %x: the end can be reached: %v, path %x", what, a, b, reach[b], path)
			}
			if st != flagged(!complete, false, false) {
				c.Fatalf("%s: from %x to %x: path %x, status %x", what, a, b, path, uint32(st))
			}
			for i := 0; i+1 < n; i++ {
				if path[i] == b {
					c.Fatalf("%s: path %x goes on after the end %x", what, path, b)
				}
			}
			if n >= 3 && a != b {
				c.Nontrivial(s.name, a, b, fname)
			}
			c.LabelIf(!complete, "end out of reach")
			c.LabelIf(n > 100, "path of more than 100 polygons")
			c.LabelIf(n > 256, "path of more than 256 polygons")
			c.LabelIf(s.w == nil, "shipped mesh")
			for _, x := range path {
				if _, p := polyOf(c, s.m, x); p.Type() == offMesh {
					c.Label("path over an off-mesh connection")
					break
				}
			}
			c.Sample("%s, filter %s: %x -> %x: %d polygons, status %x", s.name, fname, a, b, n, uint32(st))

			// small buffers
			size := r.U(1, n+1)
			buf := make([]detour.PolyRef, size)
			n2, st2 := q.FindPath(a, b, pa, pb, f, buf)
			want := minI(size, n)
			if n2 != want || !sameRefs(buf[:n2], path[:want]) {
				c.Fatalf("%s: buffer of %d: path %x of %d, the full path is %x", what, size, buf, n2, path)
			}
			if st2 != flagged(!complete, false, size < n) {
				c.Fatalf("%s: buffer of %d for %d polygons: status %x (full: %x)", what, size, n, uint32(st2), uint32(st))
			}
			// small node pools
			nodes := int32(r.U(1, 40))
			q3 := newQuery(c, s.m, nodes)
			path = append([]detour.PolyRef{}, path...)
			for x := range full {
				full[x] = 0
			}
			n3, st3 := q3.FindPath(a, b, pa, pb, f, full)
			if detour.StatusFailed(st3) || n3 < 1 || n3 > int(nodes)+1 {
				c.Fatalf("%s: %d nodes: %d polygons, status %x", what, nodes, n3, uint32(st3))
			}
			p3 := full[:n3]
			s.checkCorridor(c, what+" (few nodes)", p3, a, f)
			if st3&^detour.OutOfNodes != flagged(p3[n3-1] != b, false, false) {
				c.Fatalf("%s: %d nodes: path %x to %x, status %x", what, nodes, p3, b, uint32(st3))
			}
			if !detour.StatusDetail(st3, detour.OutOfNodes) {
				if !sameRefs(p3, path) {
					c.Fatalf("%s: %d nodes, not flagged: path %x, otherwise %x", what, nodes, p3, path)
				}
			} else {
				c.Label("out of nodes")
				if len(s.all) < 300 && int(nodes) >= s.states(c) {
					c.Fatalf("%s: out of nodes with %d nodes, the mesh has %d search states", what, nodes, s.states(c))
				}
			}
		}
	})
}

func sameRefs(a, b []detour.PolyRef) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
