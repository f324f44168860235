package props

import (
	"bytes"
	"fmt"
	"sync"
	"testing"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"

	"verif/harness/gen"
	"verif/harness/hx"
)

// qop is a query, with all its arguments fixed, whose answer is printed.
type qop struct {
	name string
	run  func(q *detour.NavMeshQuery) string
	pure bool // may be used while a sliced search is under way
}

func cp(v d3.Vec3) d3.Vec3 { return append(d3.Vec3{}, v...) }

// argGuard runs f and says whether it changed any of the vectors.
func argGuard(f func() string, vs ...d3.Vec3) string {
	var before []d3.Vec3
	for _, v := range vs {
		before = append(before, cp(v))
	}
	res := f()
	for i := range vs {
		for k := range vs[i] {
			if vs[i][k] != before[i][k] && (vs[i][k] == vs[i][k] || before[i][k] == before[i][k]) {
				return fmt.Sprintf("ARGUMENT CHANGED %v -> %v; %s", before[i], vs[i], res)
			}
		}
	}
	return res
}

// drawQop draws one query of any kind.
func drawQop(c *hx.Case, r *gen.R, s *scene) qop {
	f, _ := randFilter(r, false, false)
	a, b := drawEnds(c, r, s, f)
	pa, pb := s.point(c, r, a, gen.Any(r, float32(0), 0, 2)), s.point(c, r, b, gen.Any(r, float32(0), 0, 2))
	size := gen.Any(r, 1, 3, 10, 200, 200, 200)
	bad := r.P(0.07)
	if bad {
		switch r.U(0, 2) {
		case 0:
			a = 0
		case 1:
			b = detour.PolyRef(r.U(1, 1<<31))
		case 2:
			a = detour.PolyRef(r.U(1, 1<<31))
		}
	}
	opts := int32(gen.Any(r, 0, 1, 2))
	switch r.U(0, 8) {
	case 0, 1:
		return qop{"FindPath", func(q *detour.NavMeshQuery) string {
			return argGuard(func() string {
				buf := make([]detour.PolyRef, size)
				n, st := q.FindPath(a, b, pa, pb, f, buf)
				return fmt.Sprintf("FindPath %d %x %x", n, uint32(st), buf)
			}, pa, pb)
		}, false}
	case 2:
		corr := make([]detour.PolyRef, 500)
		_, pre := detour.NewNavMeshQuery(s.m, 512)
		n, _ := pre.FindPath(a, b, pa, pb, f, corr)
		corr = corr[:n]
		if bad && n > 0 {
			corr[r.U(0, n-1)] = b
		}
		return qop{"FindStraightPath", func(q *detour.NavMeshQuery) string {
			return argGuard(func() string {
				before := fmt.Sprint(corr)
				sp := make([]d3.Vec3, size)
				for i := range sp {
					sp[i] = d3.NewVec3()
				}
				fl, rf := make([]uint8, size), make([]detour.PolyRef, size)
				n, st := q.FindStraightPath(pa, pb, corr, sp, fl, rf, opts)
				if fmt.Sprint(corr) != before {
					return "ARGUMENT CHANGED: corridor"
				}
				return fmt.Sprintf("FindStraightPath %d %x %v %v %x", n, uint32(st), sp, fl, rf)
			}, pa, pb)
		}, true}
	case 3:
		ro := gen.Any(r, 0, detour.RaycastUseCosts)
		prev := gen.Any(r, 0, s.pick(r))
		return qop{"Raycast", func(q *detour.NavMeshQuery) string {
			return argGuard(func() string {
				hit := detour.RaycastHit{Path: make([]detour.PolyRef, size), MaxPath: size}
				st := q.Raycast(a, pa, pb, f, ro, &hit, prev)
				return fmt.Sprintf("Raycast %x %+v", uint32(st), hit)
			}, pa, pb)
		}, true}
	case 4:
		ext := d3.Vec3{r.F(0, 10), r.F(0, 5), r.F(0, 10)}
		return qop{"FindNearestPoly", func(q *detour.NavMeshQuery) string {
			return argGuard(func() string {
				st, ref, pt := q.FindNearestPoly(pa, ext, f)
				return fmt.Sprintf("FindNearestPoly %x %x %v", uint32(st), ref, pt)
			}, pa, ext)
		}, true}
	case 5:
		return qop{"ClosestPointOnPoly", func(q *detour.NavMeshQuery) string {
			return argGuard(func() string {
				x, y := d3.NewVec3(), d3.NewVec3()
				over := false
				st := q.ClosestPointOnPoly(a, pb, x, &over)
				st2 := q.ClosestPointOnPolyBoundary(a, pb, y)
				return fmt.Sprintf("ClosestPoint %x %v %v %x %v %v", uint32(st), x, over, uint32(st2), y, q.IsValidPolyRef(b, f))
			}, pb)
		}, true}
	}
	// a sliced search
	so := uint32(gen.Any(r, 0, 0, int(detour.FindPathAnyAngle)))
	if s.w == nil || s.w.Floors > 1 || len(s.all) != len(s.refs) {
		so = 0
	}
	slices := make([]int, r.U(1, 6))
	for i := range slices {
		slices[i] = r.U(1, 12)
	}
	finish := gen.Any(r, 0, 0, 1, 2, 3) // complete, complete, early, abandon, partial
	mid := make([]qop, 0)
	for k := r.U(0, 2); k > 0; k-- {
		if x := drawQop(c, r, s); x.pure {
			mid = append(mid, x)
		}
	}
	existing := make([]detour.PolyRef, 100)
	_, pre := detour.NewNavMeshQuery(s.m, 512)
	ne, _ := pre.FindPath(a, b, pa, pb, detour.NewStandardQueryFilter(), existing)
	existing = existing[:ne]
	run := func(q *detour.NavMeshQuery, between bool) string {
		return argGuard(func() string {
			st := q.InitSlicedFindPath(a, b, pa, pb, f, so)
			res := fmt.Sprintf("sliced %x", uint32(st))
			for k := 0; detour.StatusInProgress(st) && k < 5000; k++ {
				if finish != 0 && k >= len(slices) {
					break
				}
				if between && len(mid) > 0 {
					mid[k%len(mid)].run(q)
				}
				done := 0
				st = q.UpdateSlicedFindPath(slices[k%len(slices)], &done)
				res += fmt.Sprintf(" %x/%d", uint32(st), done)
			}
			if finish == 2 || detour.StatusFailed(st) {
				return res
			}
			if between && len(mid) > 0 {
				mid[0].run(q)
			}
			buf := make([]detour.PolyRef, size)
			if finish == 3 && len(existing) > 0 {
				n, st := q.FinalizeSlicedFindPathPartial(existing, len(existing), buf, size)
				return res + fmt.Sprintf(" partial %d %x %x", n, uint32(st), buf)
			}
			n, st := q.FinalizeSlicedFindPath(buf, size)
			return res + fmt.Sprintf(" final %d %x %x", n, uint32(st), buf)
		}, pa, pb)
	}
	return qop{"sliced", func(q *detour.NavMeshQuery) string {
		x := run(q, false)
		if len(mid) > 0 {
			if y := run(q, true); x != y {
				return fmt.Sprintf("DISTURBED: %s; with other queries in between: %s", x, y)
			}
		}
		return x
	}, false}
}

func TestC14(t *testing.T) {
	hx.Run(t, "reuse", "at least 3 kinds of queries answered by one query object", 8000, 300000, func(c *hx.Case) {
		r := gen.New(c.T)
		s := newScene(c, r, pathOpts)
		nodes := int32(gen.Any(r, 4, 16, 64, 512))
		saved, links := save(c, s.m), snapMesh(c, s.m)
		var ops []qop
		kinds := map[string]bool{}
		for k := r.U(3, 14); k > 0; k-- {
			op := drawQop(c, r, s)
			ops = append(ops, op)
			kinds[op.name] = true
		}
		want := make([]string, len(ops))
		for i := range ops {
			want[i] = ops[i].run(newQuery(c, s.m, nodes))
			if len(want[i]) > 9 && (want[i][:9] == "ARGUMENT " || want[i][:9] == "DISTURBED") {
				c.Fatalf("%s on %s: %s", ops[i].name, s.name, want[i])
			}
		}
		q := newQuery(c, s.m, nodes)
		history := ""
		for k := 0; k < len(ops)+4; k++ {
			i := k
			if k >= len(ops) {
				i = r.U(0, len(ops)-1)
			}
			got := ops[i].run(q)
			if got != want[i] {
				c.Fatalf("%s on %s, %d nodes: got %s, a fresh query gives %s; before: %s", ops[i].name, s.name, nodes, got, want[i], history)
			}
			history += " " + ops[i].name
		}
		if q.AttachedNavMesh() != s.m {
			c.Fatalf("AttachedNavMesh is another mesh")
		}
		if !bytes.Equal(saved, save(c, s.m)) {
			c.Fatalf("queries changed the mesh %s: %s", s.name, history)
		}
		if d := diffSnap(links, snapMesh(c, s.m)); d != "" {
			c.Fatalf("queries changed the mesh %s: %s: %s", s.name, d, history)
		}
		if len(kinds) >= 3 {
			c.Nontrivial(s.name, want)
		}
		for k := range kinds {
			c.Label(k)
		}
		c.Sample("%s, %d nodes:%s", s.name, nodes, history)
	})
	hx.Run(t, "concurrent", "at least 2 goroutines running at least 3 kinds of queries", 2000, 60000, func(c *hx.Case) {
		r := gen.New(c.T)
		s := newScene(c, r, pathOpts)
		saved := save(c, s.m)
		g := r.U(2, 4)
		ops := make([][]qop, g)
		want := make([][]string, g)
		nodes := make([]int32, g)
		kinds := map[string]bool{}
		for i := range ops {
			nodes[i] = int32(gen.Any(r, 16, 64, 512))
			for k := r.U(3, 8); k > 0; k-- {
				op := drawQop(c, r, s)
				ops[i] = append(ops[i], op)
				kinds[op.name] = true
				want[i] = append(want[i], op.run(newQuery(c, s.m, nodes[i])))
			}
		}
		bad := make([]string, g)
		var wg sync.WaitGroup
		for i := range ops {
			q := newQuery(c, s.m, nodes[i])
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						bad[i] = fmt.Sprintf("panic: %v", p)
					}
				}()
				for rep := 0; rep < 2; rep++ {
					for k, op := range ops[i] {
						if got := op.run(q); got != want[i][k] {
							bad[i] = fmt.Sprintf("%s: got %s alongside other queries, %s alone", op.name, got, want[i][k])
							return
						}
					}
				}
			}()
		}
		wg.Wait()
		for i := range bad {
			if bad[i] != "" {
				c.Fatalf("%s on %s", bad[i], s.name)
			}
		}
		if !bytes.Equal(saved, save(c, s.m)) {
			c.Fatalf("queries changed the mesh %s", s.name)
		}
		if len(kinds) >= 3 {
			c.Nontrivial(s.name, want)
		}
		c.Sample("%s: %d goroutines", s.name, g)
	})
}
