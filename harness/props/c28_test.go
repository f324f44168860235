package props

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/arl/go-detour/recast"

	"verif/harness/gen"
	"verif/harness/hx"
)

// The chunk size InputGeom asks for.
const trisPerChunk = 256

// triSoup is a triangle mesh of n triangles in one of several distributions.
func triSoup(r *gen.R, n int) (verts [][3]float32, tris [][3]int32) {
	kind := gen.Pick(r, "soup", "uniform", "clusters", "grid", "line", "same", "shared", "huge")
	grid := func(v float32) float32 { return float32(int(v)) }
	var cl [4][2]float32
	for i := range cl {
		cl[i] = [2]float32{r.F(-200, 200), r.F(-200, 200)}
	}
	pt := func(i int) [3]float32 {
		switch kind {
		case "clusters":
			c := cl[r.U(0, 3)]
			return [3]float32{c[0] + r.F(-3, 3), r.F(-5, 5), c[1] + r.F(-3, 3)}
		case "grid":
			return [3]float32{grid(r.F(-10, 10)), grid(r.F(0, 3)), grid(r.F(-10, 10))}
		case "line":
			return [3]float32{r.F(-100, 100), r.F(-1, 1), 7}
		case "same":
			return [3]float32{float32(i % 3), 0, float32(i % 2)}
		case "huge":
			return [3]float32{r.F(-1e6, 1e6), r.F(-1, 1), r.F(-1e-3, 1e-3)}
		}
		return [3]float32{r.F(-50, 50), r.F(-5, 5), r.F(-50, 50)}
	}
	if kind == "shared" || kind == "grid" {
		nv := 3 + n/2
		for i := 0; i < nv; i++ {
			verts = append(verts, pt(i))
		}
		for i := 0; i < n; i++ {
			tris = append(tris, [3]int32{int32(r.U(0, nv-1)), int32(r.U(0, nv-1)), int32(r.U(0, nv-1))})
		}
		return
	}
	size := gen.Any(r, float32(0.01), 1, 10)
	for i := 0; i < n; i++ {
		a := pt(3 * i)
		for j := 0; j < 3; j++ {
			v := a
			if j > 0 {
				v[0] += r.F(-size, size)
				v[2] += r.F(-size, size)
			}
			if kind == "same" {
				v = pt(3*i + j)
			}
			verts = append(verts, v)
		}
		b := int32(3 * i)
		tris = append(tris, [3]int32{b, b + 1, b + 2})
	}
	for i := range r.Perm(n) {
		j := r.U(0, n-1)
		tris[i], tris[j] = tris[j], tris[i]
	}
	return
}

func objText(verts [][3]float32, tris [][3]int32) string {
	var sb strings.Builder
	for _, v := range verts {
		fmt.Fprintf(&sb, "v %v %v %v\n", v[0], v[1], v[2])
	}
	for _, t := range tris {
		fmt.Fprintf(&sb, "f %d %d %d\n", t[0]+1, t[1]+1, t[2]+1)
	}
	return sb.String()
}

type rect struct{ lo, hi [2]float32 }

func (a rect) overlaps(b rect) bool {
	return a.lo[0] <= b.hi[0] && b.lo[0] <= a.hi[0] && a.lo[1] <= b.hi[1] && b.lo[1] <= a.hi[1]
}

func triRect(verts [][3]float32, t [3]int32) rect {
	v := verts[t[0]]
	b := rect{[2]float32{v[0], v[2]}, [2]float32{v[0], v[2]}}
	for _, i := range t[1:] {
		v := verts[i]
		b.lo[0], b.hi[0] = min(b.lo[0], v[0]), max(b.hi[0], v[0])
		b.lo[1], b.hi[1] = min(b.lo[1], v[2]), max(b.hi[1], v[2])
	}
	return b
}

func TestC28(t *testing.T) {
	hx.Run(t, "chunks", "the mesh has more triangles than one chunk holds and a query that overlaps some chunks only",
		3000, 40000, func(c *hx.Case) {
			r := gen.New(c.T)
			var n int
			switch gen.Pick(r, "size", 0, 1, 2, 3) {
			case 0:
				n = r.Int("n", 1, 300)
			case 1:
				n = trisPerChunk*r.U(1, 9) + r.U(-1, 1)
			default:
				n = r.U(257, 4000)
			}
			verts, tris := triSoup(r, n)
			var ig recast.InputGeom
			if err := ig.LoadOBJMesh(strings.NewReader(objText(verts, tris))); err != nil {
				c.Fatalf("loading %d triangles: %v", n, err)
			}
			if int(ig.Mesh().TriCount()) != n {
				c.Fatalf("%d triangles loaded out of %d", ig.Mesh().TriCount(), n)
			}
			cm := ig.ChunkyMesh()
			if int(cm.Ntris) != n {
				c.Fatalf("chunky mesh reports %d triangles out of %d", cm.Ntris, n)
			}
			// every triangle is in exactly one chunk
			type leaf struct {
				id    int32
				tris  []rect
				bound rect
			}
			var leaves []leaf
			isLeaf := map[int32]bool{}
			count := map[[3]int32]int{}
			for _, t := range tris {
				count[t]++
			}
			most := int32(0)
			total := 0
			for i := int32(0); i < cm.Nnodes; i++ {
				nd := &cm.Nodes[i]
				if nd.I < 0 {
					continue
				}
				isLeaf[i] = true
				if nd.N > most {
					most = nd.N
				}
				if nd.N > trisPerChunk {
					c.Fatalf("chunk %d has %d triangles, more than %d", i, nd.N, trisPerChunk)
				}
				l := leaf{id: i}
				for k := nd.I; k < nd.I+nd.N; k++ {
					t := [3]int32{cm.Tris[k*3], cm.Tris[k*3+1], cm.Tris[k*3+2]}
					count[t]--
					if count[t] < 0 {
						c.Fatalf("chunk %d: triangle %v is in too many chunks or not in the mesh", i, t)
					}
					b := triRect(verts, t)
					if len(l.tris) == 0 {
						l.bound = b
					} else {
						for a := 0; a < 2; a++ {
							l.bound.lo[a], l.bound.hi[a] = min(l.bound.lo[a], b.lo[a]), max(l.bound.hi[a], b.hi[a])
						}
					}
					l.tris = append(l.tris, b)
					total++
				}
				leaves = append(leaves, l)
			}
			if total != n {
				c.Fatalf("%d triangles in all chunks, %d in the mesh", total, n)
			}
			if cm.MaxTrisPerChunk != most {
				c.Fatalf("MaxTrisPerChunk is %d, the largest chunk has %d", cm.MaxTrisPerChunk, most)
			}
			// queries
			nontrivial := false
			for q := 0; q < 12; q++ {
				var qr rect
				t := triRect(verts, tris[r.U(0, n-1)])
				kind := gen.Any(r, "tri", "edge", "corner", "random", "all", "point", "off")
				switch kind {
				case "tri":
					qr = t
				case "edge":
					// touches a triangle's bounds from outside
					a := r.U(0, 1)
					qr = rect{[2]float32{t.lo[0] - r.F(0, 2), t.lo[1] - r.F(0, 2)}, [2]float32{t.hi[0] + r.F(0, 2), t.hi[1] + r.F(0, 2)}}
					if r.P(0.5) {
						qr.hi[a] = t.lo[a]
					} else {
						qr.lo[a] = t.hi[a]
					}
				case "corner":
					qr = rect{t.hi, [2]float32{t.hi[0] + r.F(0, 5), t.hi[1] + r.F(0, 5)}}
				case "random":
					w := gen.Any(r, float32(1), 10, 60)
					p := [2]float32{r.F(-100, 100), r.F(-100, 100)}
					qr = rect{p, [2]float32{p[0] + r.F(0, w), p[1] + r.F(0, w)}}
				case "all":
					qr = rect{[2]float32{-3e6, -3e6}, [2]float32{3e6, 3e6}}
				case "point":
					v := verts[tris[r.U(0, n-1)][r.U(0, 2)]]
					qr = rect{[2]float32{v[0], v[2]}, [2]float32{v[0], v[2]}}
				case "off":
					qr = rect{[2]float32{2e6, r.F(-10, 10)}, [2]float32{3e6, 20}}
				}
				must := map[int32]bool{}
				may := map[int32]bool{}
				for _, l := range leaves {
					if l.bound.overlaps(qr) {
						may[l.id] = true
					}
					for _, b := range l.tris {
						if b.overlaps(qr) {
							must[l.id] = true
							break
						}
					}
				}
				ids := make([]int32, len(leaves)+4)
				got := cm.ChunksOverlappingRect(qr.lo, qr.hi, ids)
				if got < 0 || got > len(ids) {
					c.Fatalf("%d chunks returned for %d chunks in the mesh", got, len(leaves))
				}
				seen := map[int32]bool{}
				for _, id := range ids[:got] {
					if !isLeaf[id] || seen[id] {
						c.Fatalf("query %+v returned chunk %d (leaf %v, already returned %v)", qr, id, isLeaf[id], seen[id])
					}
					if !may[id] {
						c.Fatalf("query %+v returned chunk %d, which does not overlap it", qr, id)
					}
					seen[id] = true
				}
				var missing []int
				for id := range must {
					if !seen[id] {
						missing = append(missing, int(id))
					}
				}
				sort.Ints(missing)
				if len(missing) > 0 {
					c.Fatalf("query %+v (%s) misses chunks %v, which have triangles in it", qr, kind, missing)
				}
				if got > 0 && got < len(leaves) {
					nontrivial = true
					// a short buffer: the first ones
					k := r.U(0, got)
					few := make([]int32, k, k+1)
					if m := cm.ChunksOverlappingRect(qr.lo, qr.hi, few); m != k {
						c.Fatalf("%d chunks returned in a buffer of %d (%d overlap)", m, k, got)
					}
					for _, id := range few {
						if !seen[id] {
							c.Fatalf("a short buffer gives chunk %d, a long one does not", id)
						}
					}
				}
				c.LabelIf(got == 0, "query overlapping nothing")
			}
			c.LabelIf(len(leaves) > 8, "more than 8 chunks")
			c.LabelIf(n%trisPerChunk == 0, "full chunks")
			if nontrivial && len(leaves) > 1 {
				c.Nontrivial(n, tris[:min(len(tris), 5)], verts[0])
				c.Sample("%d triangles, %d chunks, %d nodes", n, len(leaves), cm.Nnodes)
			}
		})
}
