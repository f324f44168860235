package props

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/arl/go-detour/recast"

	"verif/harness/gen"
	"verif/harness/hx"
)

// wavyField is a field of hills.
func wavyField(r *gen.R, maxDim, climb int) *recast.Heightfield {
	w, h := int32(r.U(3, maxDim)), int32(r.U(3, maxDim))
	cs, ch := gen.Any(r, float32(0.3), 1, 0.1), gen.Any(r, float32(0.2), 1, 0.5)
	org := [3]float32{r.F(-50, 50), r.F(-50, 50), r.F(-50, 50)}
	end := [3]float32{org[0] + float32(w)*cs, org[1] + 300*ch, org[2] + float32(h)*cs}
	hf := recast.NewHeightfield(w, h, org[:], end[:], cs, ch)
	storeys := gen.Any(r, 1, 1, 1, 2)
	type wave struct{ kx, kz, p, a float64 }
	var waves []wave
	for n := r.U(0, 3); n > 0; n-- {
		k := float64(r.F(0.05, 1.5))
		a := float64(r.F(0, 2*math.Pi))
		amp := math.Min(15, float64(climb)/k*float64(r.F(0.1, 0.7)))
		waves = append(waves, wave{k * math.Cos(a), k * math.Sin(a), float64(r.F(0, 6)), amp})
	}
	bumps := r.P(0.4)
	hx0, hz0 := r.U(0, int(w)), r.U(0, int(h))
	hole := r.P(0.4)
	for l := 0; l < storeys; l++ {
		for z := int32(0); z < h; z++ {
			for x := int32(0); x < w; x++ {
				if hole && absInt(int(x)-hx0) < int(w)/4 && absInt(int(z)-hz0) < int(h)/4 {
					continue
				}
				y := 60.0 + float64(l)*100
				for _, v := range waves {
					y += v.a * math.Sin(v.kx*float64(x)+v.kz*float64(z)+v.p)
				}
				t := int(y)
				if bumps && r.P(0.1) {
					t += r.U(0, climb)
				}
				area := uint8(walkable)
				if l == 0 && hole && x > w/2 {
					area = 5
				}
				recast.VAddSpan(hf, x, z, uint16(t-1), uint16(t), area, 1)
			}
		}
	}
	return hf
}

// heights gives the heights a sample may have, nil if that is not known.
func sampleHeights(chf *recast.CompactHeightfield, bs int, p meshPoly, lo, hi [2]int, x, z float64) (res []int) {
	cell := func(v float64, k int) []int {
		bound := int(chf.Width)
		if k == 1 {
			bound = int(chf.Height)
		}
		a, b := maxInt(0, lo[k]-1), min(bound, hi[k]+1)
		var cs []int
		for _, e := range []float64{0.009, 0.011} {
			i := min(max(int(math.Floor(v+e)), a), b-1)
			if len(cs) == 0 || cs[0] != i {
				cs = append(cs, i)
			}
		}
		return cs
	}
	for _, cx := range cell(x, 0) {
		for _, cz := range cell(z, 1) {
			cell := chf.Cells[cx+bs+(cz+bs)*int(chf.Width)]
			n := 0
			for i := int(cell.Index); i < int(cell.Index)+int(cell.Count); i++ {
				if int(chf.Spans[i].Reg) == p.reg {
					n++
					res = append(res, int(chf.Spans[i].Y))
				}
			}
			if n != 1 || p.reg == 0 {
				return nil
			}
		}
	}
	return res
}

// heightNear tells if there is a span of a height near a point.
func heightNear(chf *recast.CompactHeightfield, bs, radius int, x, z, y float64) bool {
	cx, cz := int(math.Floor(x+0.01))+bs, int(math.Floor(z+0.01))+bs
	for i := maxInt(0, cx-radius-1); i <= min(int(chf.Width)-1, cx+radius+1); i++ {
		for j := maxInt(0, cz-radius-1); j <= min(int(chf.Height)-1, cz+radius+1); j++ {
			cell := chf.Cells[i+j*int(chf.Width)]
			for k := int(cell.Index); k < int(cell.Index)+int(cell.Count); k++ {
				if math.Abs(float64(chf.Spans[k].Y)-y) < 1e-2 {
					return true
				}
			}
		}
	}
	return false
}

// cocircular tells if there are four vertices on a circle, nearly, which has
// none inside. Triangulating them is ambiguous.
func cocircular(vs []v64) bool {
	n := len(vs)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			for k := j + 1; k < n; k++ {
				ax, az := vs[j][0]-vs[i][0], vs[j][2]-vs[i][2]
				bx, bz := vs[k][0]-vs[i][0], vs[k][2]-vs[i][2]
				det := 2 * (ax*bz - az*bx)
				if math.Abs(det) < 1e-6 {
					continue
				}
				a2, b2 := ax*ax+az*az, bx*bx+bz*bz
				ux, uz := (bz*a2-az*b2)/det, (ax*b2-bx*a2)/det
				r := math.Hypot(ux, uz)
				empty, near := true, false
				for l := 0; l < n && empty; l++ {
					if l == i || l == j || l == k {
						continue
					}
					dd := math.Hypot(vs[l][0]-vs[i][0]-ux, vs[l][2]-vs[i][2]-uz)
					empty = dd > r*0.995
					near = near || dd < r*1.005
				}
				if empty && near {
					return true
				}
			}
		}
	}
	return false
}

func checkDetail(c *hx.Case, what string, chf *recast.CompactHeightfield, m *recast.PolyMesh, polys []meshPoly, d *recast.PolyMeshDetail, sampleDist, sampleErr float32) (inner, edgePts int) {
	cs, ch := float64(m.Cs), float64(m.Ch)
	bs := int(m.BorderSize)
	if int(d.NMeshes) != len(polys) || len(d.Meshes) < 4*len(polys) || len(d.Verts) < 3*int(d.NVerts) || len(d.Tris) < 4*int(d.NTris) {
		c.Fatalf("%s: detail mesh of %d sub meshes, %d vertices (%d), %d triangles (%d)", what, d.NMeshes, d.NVerts, len(d.Verts), d.NTris, len(d.Tris))
	}
	dist := float64(sampleDist) / cs // in cells
	// The distance samples must keep from the edges is half the sample distance;
	// the code compares it to the squared distance.
	margin := math.Sqrt(float64(sampleDist)/2) / cs
	type seam struct {
		pts string
		ok  bool
	}
	radius := maxInt(1, int(math.Ceil(float64(m.MaxEdgeError))))
	seams := map[[2]int]seam{} // by vertices
	nextV, nextT := 0, 0
	for i, p := range polys {
		mm := d.Meshes[4*i : 4*i+4]
		vb, nv, tb, nt := int(mm[0]), int(mm[1]), int(mm[2]), int(mm[3])
		n := len(p.vs)
		name := fmt.Sprintf("%s: detail of polygon %d %v (region %d)", what, i, p.vs, p.reg)
		convex := true
		for k := range p.vs {
			convex = convex && turn(p.vs[k], p.vs[(k+1)%n], p.vs[(k+2)%n]) > 0
		}
		if vb != nextV || tb != nextT || nv < n || nv > 127 || nt < 1 && convex || nt > 255 {
			c.Fatalf("%s: %d vertices at %d, %d triangles at %d (expected at %d, %d)", name, nv, vb, nt, tb, nextV, nextT)
		}
		nextV, nextT = vb+nv, tb+nt
		if !convex {
			c.Label("polygon is not convex")
			continue
		}
		// In cells.
		vs := make([]v64, nv)
		for k := range vs {
			v := d.Verts[3*(vb+k):]
			vs[k] = v64{(float64(v[0]) - float64(m.BMin[0])) / cs, (float64(v[1])-float64(m.BMin[1]))/ch - 1, (float64(v[2]) - float64(m.BMin[2])) / cs}
		}
		lo, hi := [2]int{1 << 30, 1 << 30}, [2]int{}
		for k, v := range p.vs {
			if math.Abs(vs[k][0]-float64(v.x)) > 1e-3 || math.Abs(vs[k][1]-float64(v.y)) > 1e-3 || math.Abs(vs[k][2]-float64(v.z)) > 1e-3 {
				c.Fatalf("%s: vertex %d is %v", name, k, vs[k])
			}
			vs[k] = v64{float64(v.x), float64(v.y), float64(v.z)}
			lo = [2]int{min(lo[0], v.x), min(lo[1], v.z)}
			hi = [2]int{max(hi[0], v.x), max(hi[1], v.z)}
		}
		cross := func(a, b, c v64) float64 { return (b[2]-a[2])*(c[0]-a[0]) - (b[0]-a[0])*(c[2]-a[2]) }
		// Edges the vertices are on, and where.
		on := make([]map[int]float64, nv)
		nearest := make([]int, nv)
		for k, v := range vs {
			on[k] = map[int]float64{}
			best := math.Inf(1)
			for e := 0; e < n; e++ {
				a, b := vs[e], vs[(e+1)%n]
				dx, dz := b[0]-a[0], b[2]-a[2]
				t := ((v[0]-a[0])*dx + (v[2]-a[2])*dz) / (dx*dx + dz*dz)
				t = math.Max(0, math.Min(1, t))
				dd := math.Hypot(a[0]+t*dx-v[0], a[2]+t*dz-v[2])
				if dd < best {
					best, nearest[k] = dd, e
				}
				if dd*cs < 0.001 {
					on[k][e] = t
				}
			}
		}
		// Triangles.
		why := ""
		bad := func(format string, args ...any) {
			if why == "" {
				why = fmt.Sprintf(format, args...)
			}
		}
		area := 0.0
		flat := false
		edges := map[[2]int]int{}
		usedV := make([]bool, nv)
		for k := 0; k < nt; k++ {
			t := d.Tris[4*(tb+k) : 4*(tb+k)+4]
			var ix [3]int
			for j := range ix {
				ix[j] = int(t[j])
				if ix[j] >= nv {
					c.Fatalf("%s: triangle %v of %d vertices", name, t, nv)
				}
				usedV[ix[j]] = true
			}
			if ix[0] == ix[1] || ix[1] == ix[2] || ix[0] == ix[2] {
				c.Fatalf("%s: triangle %v", name, t)
			}
			a := cross(vs[ix[0]], vs[ix[1]], vs[ix[2]])
			if a < -2e-3 {
				bad("triangle %v %v %v %v is turned round", t, vs[ix[0]], vs[ix[1]], vs[ix[2]])
			}
			area += a
			flat = flat || a < 1e-3
			var flags uint8
			for j := range ix {
				a, b := ix[j], ix[(j+1)%3]
				if edges[[2]int{a, b}]++; edges[[2]int{a, b}] > 1 {
					bad("two triangles have edge %v-%v", vs[a], vs[b])
				}
				for e := range on[a] {
					if _, ok := on[b][e]; ok {
						flags |= 1 << (2 * j)
					}
				}
			}
			if t[3] != flags {
				c.Fatalf("%s: triangle %v %v %v %v has flags %x, want %x", name, t[:3], vs[ix[0]], vs[ix[1]], vs[ix[2]], t[3], flags)
			}
		}
		if want := float64(twiceArea(p.vs)); math.Abs(area-want) > 1e-3*want+1e-2 {
			bad("triangles cover %v/2, want %v/2", area, want)
		}
		for k := 0; k < nt; k++ {
			t := d.Tris[4*(tb+k):]
			for j := 0; j < 3; j++ {
				a, b := int(t[j]), int(t[(j+1)%3])
				if edges[[2]int{b, a}] > 0 {
					continue
				}
				same := false
				for x := range on[a] {
					_, ok := on[b][x]
					same = same || ok
				}
				if !same {
					bad("edge %v-%v is open", vs[a], vs[b])
				}
			}
		}
		for k := range usedV {
			if !usedV[k] {
				bad("vertex %d %v is not used", k, vs[k])
			}
		}
		if why != "" {
			if len(on[nv-1]) == 0 && cocircular(vs) {
				c.Label("samples on a circle")
				continue
			}
			c.Fatalf("%s: %s", name, why)
		}
		if (sampleDist == 0 || sampleErr >= 1e5) && (nv != n || nt != n-2) {
			c.Fatalf("%s: %d vertices, %d triangles without sampling", name, nv, nt)
		}
		if sampleDist == 0 {
			continue
		}
		// Samples on the edges.
		minExtent := math.Inf(1)
		total := n
		for e := 0; e < n; e++ {
			a, b := p.vs[e], p.vs[(e+1)%n]
			far := 0.0
			for _, v := range p.vs {
				far = math.Max(far, segDist(v, a, b))
			}
			minExtent = math.Min(minExtent, far)
			total += 1 + int(math.Hypot(float64(a.x-b.x), float64(a.z-b.z))/dist*1.001)
		}
		full := total >= 127
		errY := float64(sampleErr)
		for e := 0; e < n; e++ {
			a, b := vs[e], vs[(e+1)%n]
			type pt struct {
				t float64
				k int
			}
			var chain []pt
			for k := n; k < nv; k++ {
				if t, ok := on[k][e]; ok && nearest[k] == e {
					chain = append(chain, pt{t, k})
				}
			}
			edgePts += len(chain)
			sort.Slice(chain, func(i, j int) bool { return chain[i].t < chain[j].t })
			if full {
				continue
			}
			length := math.Hypot(a[0]-b[0], a[2]-b[2])
			why := ""
			known := true
			for _, f := range []float64{0, 1e-4, -1e-4} {
				nn := 1 + int(math.Floor(length/dist+f))
				if nn > 31 {
					nn = 31
				}
				why = ""
				// Sampled heights.
				hs := make([][]int, nn+1)
				known = true
				for k := range hs {
					u := float64(k) / float64(nn)
					hs[k] = sampleHeights(chf, bs, p, lo, hi, a[0]+(b[0]-a[0])*u, a[2]+(b[2]-a[2])*u)
					known = known && len(hs[k]) > 0
				}
				type kept struct {
					k int
					y float64
				}
				line := []kept{{0, 0}}
				for _, q := range chain {
					k := int(math.Round(q.t * float64(nn)))
					if math.Abs(q.t*float64(nn)-float64(k)) > 1e-2 || k <= line[len(line)-1].k || k >= nn {
						why = fmt.Sprintf("vertex %v is not one of %d samples of edge %v-%v", vs[q.k], nn, a, b)
						break
					}
					t := float64(k) / float64(nn)
					ok := hs[k] == nil && (math.Abs(a[1]+(b[1]-a[1])*t-vs[q.k][1]) < 1e-2 ||
						heightNear(chf, bs, radius, a[0]+(b[0]-a[0])*t, a[2]+(b[2]-a[2])*t, vs[q.k][1]))
					for _, y := range hs[k] {
						ok = ok || math.Abs(float64(y)-vs[q.k][1]) < 1e-2
					}
					if !ok {
						why = fmt.Sprintf("vertex %v has height %v, sampled are %v", vs[q.k], vs[q.k][1], hs[k])
						break
					}
					line = append(line, kept{k, vs[q.k][1]})
				}
				if why != "" {
					continue
				}
				line = append(line, kept{nn, 0})
				exact := known
				for _, h := range hs {
					exact = exact && len(h) == 1
				}
				if exact {
					line[0].y, line[len(line)-1].y = float64(hs[0][0]), float64(hs[nn][0])
				check:
					for s := 0; s+1 < len(line); s++ {
						l0, l1 := line[s], line[s+1]
						p0 := v64{float64(l0.k) * length / float64(nn) * cs, l0.y * ch, 0}
						p1 := v64{float64(l1.k) * length / float64(nn) * cs, l1.y * ch, 0}
						for k := l0.k + 1; k < l1.k; k++ {
							q := v64{float64(k) * length / float64(nn) * cs, float64(hs[k][0]) * ch, 0}
							dx, dy := p1[0]-p0[0], p1[1]-p0[1]
							t := ((q[0]-p0[0])*dx + (q[1]-p0[1])*dy) / (dx*dx + dy*dy)
							t = math.Max(0, math.Min(1, t))
							if dd := math.Hypot(p0[0]+t*dx-q[0], p0[1]+t*dy-q[1]); dd > errY*1.001+1e-3 {
								why = fmt.Sprintf("sample %d of %d (height %v) of edge %v-%v is %v from the detail mesh", k, nn, hs[k], a, b, dd)
								break check
							}
						}
					}
				}
				known = exact
				if why == "" {
					break
				}
			}
			if why != "" {
				c.Fatalf("%s: %s", name, why)
			}
			// The other side.
			s := ""
			va, vbb := p.idx[e], p.idx[(e+1)%n]
			rev := va > vbb
			for k := range chain {
				q := chain[k]
				if rev {
					q = chain[len(chain)-1-k]
				}
				s += fmt.Sprintf("(%.2f,%.0f,%.2f)", vs[q.k][0]+1e-4, vs[q.k][1], vs[q.k][2]+1e-4)
			}
			if other, ok := seams[[2]int{vbb, va}]; ok && p.links[e] < len(polys) && polys[p.links[e]].reg == p.reg {
				if other.ok && known && other.pts != s {
					c.Fatalf("%s: samples of edge %v-%v are %s, on the other side %s", name, a, b, s, other.pts)
				}
				c.LabelIf(other.ok && known && s != "", "seam with samples")
			}
			seams[[2]int{va, vbb}] = seam{s, known}
		}
		// Samples inside.
		insideDist := func(x, z float64) float64 {
			best := math.Inf(1)
			for e := 0; e < n; e++ {
				a, b := vs[e], vs[(e+1)%n]
				dx, dz := b[0]-a[0], b[2]-a[2]
				best = math.Min(best, ((x-a[0])*dz-(z-a[2])*dx)/math.Hypot(dx, dz))
			}
			return best
		}
		for k := n; k < nv; k++ {
			if len(on[k]) > 0 {
				continue
			}
			inner++
			v := vs[k]
			gx, gz := math.Round(v[0]/dist)*dist, math.Round(v[2]/dist)*dist
			if math.Abs(gx-v[0]) > 0.101 || math.Abs(gz-v[2]) > 0.101 {
				c.Fatalf("%s: vertex %v is not one of the samples", name, v)
			}
			if insideDist(gx, gz) < math.Min(dist/2, margin)*0.999 || minExtent < 2*dist*0.9999 {
				c.Fatalf("%s: vertex %v is too near to the edges, sample distance %v", name, v, dist)
			}
			hs := sampleHeights(chf, bs, p, lo, hi, gx, gz)
			ok := hs == nil && heightNear(chf, bs, radius, gx, gz, v[1])
			for _, y := range hs {
				ok = ok || math.Abs(float64(y)-v[1]) < 1e-2
			}
			if !ok {
				c.Fatalf("%s: vertex %v of sample (%v,%v) should have height %v", name, v, gx, gz, hs)
			}
		}
		if minExtent <= 2*dist*1.0001 || nv >= 127 {
			c.LabelIf(nv >= 127, "all vertices used")
			continue
		}
		if flat {
			// Distances to triangles without area are not accurate.
			c.Label("triangle without area")
			continue
		}
		for gz := int(float64(lo[1]) / dist); float64(gz)*dist <= float64(hi[1]); gz++ {
			for gx := int(float64(lo[0]) / dist); float64(gx)*dist <= float64(hi[0]); gx++ {
				x, z := float64(gx)*dist, float64(gz)*dist
				if insideDist(x, z) < math.Max(dist/2, margin)*1.001+1e-3 {
					continue
				}
				hs := sampleHeights(chf, bs, p, lo, hi, x, z)
				if hs == nil {
					continue
				}
				// The surface around, as the samples are moved a bit.
				ymin, ymax := math.Inf(1), math.Inf(-1)
				for k := 0; k < nt; k++ {
					t := d.Tris[4*(tb+k):]
					a, b, cc := vs[t[0]], vs[t[1]], vs[t[2]]
					if math.Min(a[0], math.Min(b[0], cc[0])) > x+0.11 || math.Max(a[0], math.Max(b[0], cc[0])) < x-0.11 ||
						math.Min(a[2], math.Min(b[2], cc[2])) > z+0.11 || math.Max(a[2], math.Max(b[2], cc[2])) < z-0.11 {
						continue
					}
					det := cross(a, b, cc)
					if det < 1e-6 {
						continue
					}
					for _, dx := range []float64{-0.11, 0, 0.11} {
						for _, dz := range []float64{-0.11, 0, 0.11} {
							q := v64{x + dx, 0, z + dz}
							u, v, w := cross(q, b, cc)/det, cross(a, q, cc)/det, cross(a, b, q)/det
							if u < -1 || v < -1 || w < -1 {
								continue
							}
							y := a[1]*u + b[1]*v + cc[1]*w
							ymin, ymax = math.Min(ymin, y), math.Max(ymax, y)
						}
					}
				}
				tol := errY/ch*1.001 + 1e-2
				ok := false
				for _, y := range hs {
					ok = ok || float64(y) >= ymin-tol && float64(y) <= ymax+tol
				}
				if !ok {
					c.Fatalf("%s: sample (%v,%v) has height %v, detail mesh %v..%v", name, x, z, hs, ymin, ymax)
				}
			}
		}
	}
	if nextV != int(d.NVerts) || nextT != int(d.NTris) {
		c.Fatalf("%s: detail mesh with %d vertices and %d triangles uses %d and %d", what, d.NVerts, d.NTris, nextV, nextT)
	}
	return inner, edgePts
}

func TestC27(t *testing.T) {
	hx.Run(t, "detail", "a detail mesh with samples", 40000, 400000, func(c *hx.Case) {
		r := gen.New(c.T)
		dim := gen.Pick(r, "dim", 12, 24, 40, 6)
		var chf *recast.CompactHeightfield
		ctx := recast.NewBuildContext(false)
		if r.P(0.4) {
			chf = randCompact(c, r, dim)
		} else {
			climb := r.U(1, 4)
			chf = &recast.CompactHeightfield{}
			if !recast.BuildCompactHeightfield(ctx, 10, int32(climb), wavyField(r, dim, climb), chf) {
				c.Fatalf("BuildCompactHeightfield fails")
			}
		}
		border := 0
		if r.Bool("border") {
			border = r.U(1, 4)
		}
		if border == 0 && r.P(0.4) {
			labelComponents(chf, r)
		} else if !recast.BuildRegionsMonotone(ctx, chf, int32(border), gen.Any(r, int32(0), 2, 8), gen.Any(r, int32(0), 20, 400)) {
			c.Fatalf("BuildRegionsMonotone fails")
		}
		o := simplifyOpts{maxError: float64(gen.Any(r, float32(1.3), 0, 0.5, 1, 2))}
		if r.P(0.5) {
			o.maxEdge, o.walls, o.area = gen.Any(r, 0, 1, 3, 12), r.P(0.7), r.P(0.3)
		}
		cset := &recast.ContourSet{}
		if !recast.BuildContours(ctx, chf, float32(o.maxError), int32(o.maxEdge), cset, o.flags()) {
			c.Fatalf("BuildContours fails")
		}
		nvp := gen.Pick(r, "nvp", 6, 3, 4, 5, 8, 12)
		m := polyMesh(c, "", cset, nvp)
		polys := meshPolys(m)
		sampleDist := gen.Any(r, float32(1), 2, 3, 6, r.F(0.9, 8)) * m.Cs
		if r.P(0.1) {
			sampleDist = 0
		}
		sampleErr := gen.Any(r, float32(1), 0, 0.5, 2, r.F(0, 4)) * m.Ch
		if r.P(0.05) {
			sampleErr = 1e6
		}
		what := fmt.Sprintf("%dx%d border %d cs %v ch %v, %+v, nvp %d, samples %v error %v", chf.Width, chf.Height, border, m.Cs, m.Ch, o, nvp, sampleDist, sampleErr)
		d, ok := recast.BuildPolyMeshDetail(ctx, m, chf, sampleDist, sampleErr)
		if !ok || d == nil {
			c.Fatalf("%s: BuildPolyMeshDetail fails", what)
		}
		inner, edge := checkDetail(c, what, chf, m, polys, d, sampleDist, sampleErr)
		if inner > 0 || edge > 0 {
			c.Nontrivial(chf.SpanCount, what, d.NVerts, d.NTris)
		}
		c.LabelIf(inner > 0, "samples inside")
		c.LabelIf(edge > 0, "samples on edges")
		c.Sample("%s: %d polygons, %d detail vertices, %d triangles, %d samples inside, %d on edges", what, len(polys), d.NVerts, d.NTris, inner, edge)
	})

	hx.Run(t, "rough", "a polygon with more than 100 detail vertices", 300, 6000, func(c *hx.Case) {
		r := gen.New(c.T)
		w, h := r.U(30, 80), r.U(30, 80)
		cs, ch := gen.Any(r, float32(0.3), 1), gen.Any(r, float32(0.2), 0.5)
		hf := recast.NewHeightfield(int32(w), int32(h), []float32{0, 0, 0}, []float32{float32(w) * cs, 100 * ch, float32(h) * cs}, cs, ch)
		cut := r.U(0, min(w, h)/2)
		noise := r.U(1, 4)
		for z := 0; z < h; z++ {
			for x := 0; x < w; x++ {
				// an octagon
				if min(x, w-1-x)+min(z, h-1-z) < cut {
					continue
				}
				y := 20 + r.U(0, noise)
				recast.VAddSpan(hf, int32(x), int32(z), uint16(y-1), uint16(y), walkable, 1)
			}
		}
		ctx := recast.NewBuildContext(false)
		chf := &recast.CompactHeightfield{}
		if !recast.BuildCompactHeightfield(ctx, 10, 5, hf, chf) {
			c.Fatalf("BuildCompactHeightfield fails")
		}
		labelComponents(chf, r)
		cset := &recast.ContourSet{}
		if !recast.BuildContours(ctx, chf, gen.Any(r, float32(1.3), 3, 6), int32(gen.Any(r, 0, 0, 20, 30)), cset, 1) {
			c.Fatalf("BuildContours fails")
		}
		m := polyMesh(c, "", cset, gen.Any(r, 8, 12, 16, 6))
		polys := meshPolys(m)
		sampleDist, sampleErr := gen.Any(r, float32(1), 0.9, 2)*m.Cs, gen.Any(r, float32(0), 0.2, 1)*m.Ch
		what := fmt.Sprintf("octagon %dx%d cut %d noise %d, nvp %d, samples %v error %v", w, h, cut, noise, m.Nvp, sampleDist, sampleErr)
		d, ok := recast.BuildPolyMeshDetail(ctx, m, chf, sampleDist, sampleErr)
		if !ok || d == nil {
			c.Fatalf("%s: BuildPolyMeshDetail fails", what)
		}
		checkDetail(c, what, chf, m, polys, d, sampleDist, sampleErr)
		most := 0
		for i := range polys {
			most = max(most, int(d.Meshes[4*i+1]))
		}
		c.LabelIf(most >= 126, "as many vertices as fit")
		c.Sample("%s: %d polygons, %d vertices in one", what, len(polys), most)
		if most > 100 {
			c.Nontrivial(what, most)
		}
	})
}
