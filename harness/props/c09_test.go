package props

import (
	"fmt"
	"testing"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/harness/gen"
	"verif/harness/hx"
)

type slicedArgs struct {
	a, b    detour.PolyRef
	pa, pb  d3.Vec3
	f       detour.QueryFilter
	options uint32
}

// slicedInit starts a search and returns its status.
func slicedInit(c *hx.Case, q *detour.NavMeshQuery, x slicedArgs) detour.Status {
	st := q.InitSlicedFindPath(x.a, x.b, x.pa, x.pb, x.f, x.options)
	if detour.StatusFailed(st) || detour.StatusInProgress(st) != (x.a != x.b) {
		c.Fatalf("InitSlicedFindPath %x to %x: %x", x.a, x.b, uint32(st))
	}
	return st
}

// slicedRun updates until the search ends, with slices given by next (0: all at
// once); at most limit iterations if limit > 0.
func slicedRun(c *hx.Case, q *detour.NavMeshQuery, st detour.Status, next func() int, limit int) (detour.Status, int) {
	total := 0
	for k := 0; detour.StatusInProgress(st); k++ {
		if k > 200000 {
			c.Fatalf("the sliced search does not end")
		}
		n := 1 << 30
		if next != nil {
			n = next()
		}
		if limit > 0 && total+n > limit {
			n = limit - total
		}
		done := -1
		st = q.UpdateSlicedFindPath(n, &done)
		if done < 0 || done > n || detour.StatusInProgress(st) && done != n {
			c.Fatalf("UpdateSlicedFindPath(%d): %d iterations done, status %x", n, done, uint32(st))
		}
		total += done
		if limit > 0 && total >= limit {
			break
		}
	}
	return st, total
}

func TestC09(t *testing.T) {
	hx.Run(t, "sliced", "a search of at least 3 iterations between different polygons, divided into at least two updates", 90000, 3000000, func(c *hx.Case) {
		r := gen.New(c.T)
		o := pathOpts
		any := r.Bool("anyangle")
		if any {
			// rays follow the surface in two dimensions only
			o.NoFloors, o.Cons, o.NoLayers = true, false, true
		}
		if r.Bool("onetile") {
			o.MaxNx, o.MaxNy, o.MaxCells = 1, 1, 8
		}
		var s *scene
		if any {
			w := gen.NewWorld(r, o)
			s = worldScene(c, w, nil)
		} else {
			s = newScene(c, r, o)
		}
		uniform := r.P(0.4)
		f, fname := randFilter(r, false, uniform)
		a, b := drawEnds(c, r, s, f)
		x := slicedArgs{a: a, b: b, pa: s.point(c, r, a, 0), pb: s.point(c, r, b, 0), f: f}
		if any {
			x.options = detour.FindPathAnyAngle
		}
		nodes := int32(2048)
		if r.P(0.15) {
			nodes = int32(r.U(1, 40))
			c.Label("few nodes")
		}
		what := fmt.Sprintf("sliced search %x -> %x (any angle %v, %d nodes) on %s, filter %s", a, b, any, nodes, s.name, fname)
		q := newQuery(c, s.m, nodes)
		run := func(q *detour.NavMeshQuery, next func() int, limit, size int) ([]detour.PolyRef, detour.Status, int) {
			st, iters := slicedRun(c, q, slicedInit(c, q, x), next, limit)
			if !detour.StatusInProgress(st) {
				done := -1
				if st2 := q.UpdateSlicedFindPath(r.U(0, 5), &done); st2 != st {
					c.Fatalf("%s: status %x after completion, %x before", what, uint32(st2), uint32(st))
				}
			}
			if detour.StatusFailed(st) {
				c.Fatalf("%s: status %x", what, uint32(st))
			}
			buf := make([]detour.PolyRef, size)
			n, st := q.FinalizeSlicedFindPath(buf, size)
			if detour.StatusFailed(st) || n < 1 || n > size {
				c.Fatalf("%s: finalized to %d polygons of %d, status %x", what, n, size, uint32(st))
			}
			return buf[:n], st, iters
		}
		const size = 3000
		path, st, iters := run(q, nil, 0, size)
		s.checkCorridor(c, what, path, a, f)
		last := path[len(path)-1]
		out := detour.StatusDetail(st, detour.OutOfNodes)
		if st != flagged(last != b, out, false) {
			c.Fatalf("%s: path %x, status %x", what, path, uint32(st))
		}
		if reach := s.reach(c, a, f); !out && reach[b] != (last == b) {
			c.Fatalf("%s: the end can be reached: %v, path %x", what, reach[b], path)
		}
		if out && nodes > 2000 && len(s.all) < 2000 {
			c.Fatalf("%s: out of nodes", what)
		}
		c.LabelIf(any, "any angle")
		c.LabelIf(last != b, "end out of reach")

		// other slicings, on the same and on another query object
		q2 := newQuery(c, s.m, nodes)
		for k := 0; k < 3; k++ {
			m := gen.Any(r, 1, 2, 5, 30)
			p2, st2, it2 := run(gen.Any(r, q, q2), func() int { return r.U(0, m) }, 0, size)
			if !sameRefs(path, p2) || st2 != st || it2 != iters {
				c.Fatalf("%s: all at once %x, status %x, %d iterations; in slices of up to %d: %x, status %x, %d iterations",
					what, path, uint32(st), iters, m, p2, uint32(st2), it2)
			}
		}
		if a != b && iters >= 3 {
			c.Nontrivial(s.name, a, b, fname, any)
		}
		c.Sample("%s: %d polygons after %d iterations, status %x", what, len(path), iters, uint32(st))

		// small result buffers
		small := r.U(1, len(path)+1)
		p3, st3, _ := run(q, nil, 0, small)
		if !any {
			want := minI(small, len(path))
			if !sameRefs(p3, path[:want]) || st3 != flagged(last != b, out, small < len(path)) {
				c.Fatalf("%s: buffer of %d: %x, status %x; the path is %x", what, small, p3, uint32(st3), path)
			}
		} else if len(p3) > len(path) || !sameRefs(p3, path[:len(p3)]) || st3 != flagged(last != b, out, true) && (st3 != st || len(p3) < len(path)) {
			c.Fatalf("%s: buffer of %d: %x, status %x; the path is %x", what, small, p3, uint32(st3), path)
		}

		// the one-shot search on a single tile
		if s.single && !any && !out && uniform {
			q3 := newQuery(c, s.m, 4096)
			buf := make([]detour.PolyRef, size)
			n, _ := q3.FindPath(a, b, x.pa, x.pb, f, buf)
			if !sameRefs(buf[:n], path) {
				if a == b || buf[n-1] != last {
					c.Fatalf("%s: path %x, FindPath finds %x", what, path, buf[:n])
				}
				h := readSearch(c, s, q3, f, a, b, to64(x.pa), to64(x.pb))
				eb := to64(x.pb)
				c1, c2 := h.pathCost(c, buf[:n], eb), h.pathCost(c, path, eb)
				if !nearly(c1, c2, 1e-3*(1+c1)) {
					c.Fatalf("%s: path %x costs %v, FindPath finds %x for %v", what, path, c2, buf[:n], c1)
				}
			}
			c.Label("compared with FindPath")
		}

		// finalizing early
		if iters > 1 {
			k := r.U(1, iters-1)
			p4, st4, _ := run(q, func() int { return r.U(1, 4) }, k, size)
			s.checkCorridor(c, what+" (finalized early)", p4, a, f)
			if st4&^detour.OutOfNodes != flagged(p4[len(p4)-1] != b, false, false) {
				c.Fatalf("%s: finalized after %d iterations: %x, status %x", what, k, p4, uint32(st4))
			}
		}

		// finalizing against an existing path
		if a != b {
			k := r.U(1, iters)
			slicedRun(c, q, slicedInit(c, q, x), func() int { return r.U(1, 4) }, k)
			var existing []detour.PolyRef
			switch r.U(0, 2) {
			case 0:
				existing = append(existing, path...)
			case 1:
				buf := make([]detour.PolyRef, size)
				g := s.pick(r)
				n, _ := q2.FindPath(a, g, x.pa, s.point(c, r, g, 0), f, buf)
				existing = append(existing, buf[:n]...)
			default:
				for i := r.U(1, 6); i > 0; i-- {
					existing = append(existing, s.pick(r))
				}
			}
			want := detour.PolyRef(0)
			for _, e := range existing {
				if q.NodePool().FindNode(e, 0) != nil {
					want = e
				}
			}
			buf := make([]detour.PolyRef, size)
			n, st5 := q.FinalizeSlicedFindPathPartial(existing, len(existing), buf, size)
			if detour.StatusFailed(st5) || n < 1 {
				c.Fatalf("%s: partial finalize: %d, status %x", what, n, uint32(st5))
			}
			p5 := buf[:n]
			s.checkCorridor(c, what+" (finalized against an existing path)", p5, a, f)
			if want != 0 && p5[n-1] != want {
				c.Fatalf("%s: finalized after %d iterations against %x: %x, the furthest visited polygon is %x", what, k, existing, p5, want)
			}
			if st5&^(detour.OutOfNodes|detour.PartialResult) != detour.Success || want == 0 && !detour.StatusDetail(st5, detour.PartialResult) {
				c.Fatalf("%s: nothing of %x was visited, status %x", what, existing, uint32(st5))
			}
			c.LabelIf(want == 0, "existing path not visited")
		}
	})
}
