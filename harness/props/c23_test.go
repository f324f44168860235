package props

import (
	"math"
	"testing"

	"github.com/arl/go-detour/recast"

	"verif/harness/gen"
	"verif/harness/hx"
)

// insideConvex tells how far inside (positive) or outside a point is.
func insideConvex(poly [][2]float64, x, z float64) float64 {
	area := 0.0
	for i := range poly {
		a, b := poly[i], poly[(i+1)%len(poly)]
		area += a[0]*b[1] - a[1]*b[0]
	}
	s := 1.0
	if area < 0 {
		s = -1
	}
	in := math.Inf(1)
	for i := range poly {
		a, b := poly[i], poly[(i+1)%len(poly)]
		l := math.Hypot(b[0]-a[0], b[1]-a[1])
		if l == 0 {
			continue
		}
		in = math.Min(in, s*((b[0]-a[0])*(z-a[1])-(b[1]-a[1])*(x-a[0]))/l)
	}
	return in
}

func TestC23(t *testing.T) {
	hx.Run(t, "mark", "a volume with marked spans and unmarked ones", 200000, 1500000, func(c *hx.Case) {
		r := gen.New(c.T)
		hf := randField(r, r.Int("dim", 1, 16))
		chf := &recast.CompactHeightfield{}
		ctx := recast.NewBuildContext(false)
		recast.BuildCompactHeightfield(ctx, 3, 2, hf, chf)
		w, h := int(chf.Width), int(chf.Height)
		cs, ch := float64(chf.Cs), float64(chf.Ch)
		for n := r.Int("volumes", 1, 3); n > 0; n-- {
			// A convex polygon somewhere around.
			size := float64(maxInt(w, h)) * cs
			cx, cz := float64(chf.BMin[0])+float64(r.F(-0.5, 1.5))*size, float64(chf.BMin[2])+float64(r.F(-0.5, 1.5))*size
			rad := size * float64(gen.Any(r, float32(0.2), 0.5, 1, 3, 1000)) * float64(r.F(0.3, 1))
			k := r.U(3, 12)
			ang := float64(r.F(0, 7))
			stretch := float64(gen.Any(r, float32(1), 1, 0.3, 0.05))
			flip := r.P(0.5)
			verts := make([]float32, 0, 3*k)
			poly := make([][2]float64, 0, k)
			for i := 0; i < k; i++ {
				a := ang + 2*math.Pi*(float64(i)+0.3*float64(r.F(0, 1)))/float64(k)
				if flip {
					a = -a
				}
				x, z := float32(cx+rad*math.Cos(a)), float32(cz+rad*stretch*math.Sin(a))
				verts = append(verts, x, r.F(-1000, 1000), z)
				poly = append(poly, [2]float64{float64(x), float64(z)})
			}
			if gen.Any(r, 0, 0, 1) == 1 { // aligned box
				x0, x1, z0, z1 := float32(cx-rad), float32(cx+rad), float32(cz-rad*stretch), float32(cz+rad*stretch)
				verts = []float32{x0, 0, z0, x1, 0, z0, x1, 0, z1, x0, 0, z1}
				poly = [][2]float64{{float64(x0), float64(z0)}, {float64(x1), float64(z0)}, {float64(x1), float64(z1)}, {float64(x0), float64(z1)}}
			}
			lo := r.U(-20, 100)
			hi := lo + r.U(0, 100)
			hmin, hmax := chf.BMin[1]+(float32(lo)+r.F(0.05, 0.95))*chf.Ch, chf.BMin[1]+(float32(hi)+r.F(0.05, 0.95))*chf.Ch
			if lo < 0 {
				lo = -1000000
			}
			switch r.U(0, 5) {
			case 0: // any height
				lo, hmin = -1000000, gen.Any(r, float32(-1e6), -1e9, -1e20, -math.MaxFloat32)
				hi, hmax = 1000000, gen.Any(r, float32(1e6), 1e9, 1e20, math.MaxFloat32)
			}
			area := uint8(r.U(0, 63))
			before := append([]uint8{}, chf.Areas...)
			spans := append([]recast.CompactSpan{}, chf.Spans...)
			arg := append([]float32{}, verts...)
			if r.Bool("longer") { // as the volumes of the geometry are stored
				arg = append(arg, make([]float32, 36-len(arg))...)
			}
			recast.MarkConvexPolyArea(ctx, arg, int32(len(poly)), hmin, hmax, area, chf)
			marked, other := 0, 0
			eps := 1e-5 * (size + math.Abs(cx) + math.Abs(cz) + rad)
			for i, cell := range chf.Cells {
				px := float64(chf.BMin[0]) + (float64(i%w)+0.5)*cs
				pz := float64(chf.BMin[2]) + (float64(i/w)+0.5)*cs
				in := insideConvex(poly, px, pz)
				for j := int(cell.Index); j < int(cell.Index)+int(cell.Count); j++ {
					y := int(chf.Spans[j].Y)
					want := before[j]
					if before[j] != 0 && y >= lo && y <= hi {
						if math.Abs(in) < eps {
							if chf.Areas[j] != before[j] && chf.Areas[j] != area {
								c.Fatalf("area %d of a span becomes %d", before[j], chf.Areas[j])
							}
							continue
						}
						if in > 0 {
							want = area
						}
					}
					if chf.Areas[j] != want {
						c.Fatalf("span of %d,%d (%v,%v inside by %v) at height %d (%v): area %d becomes %d, want %d (volume %v, heights %v..%v, area %d)",
							i%w, i/w, px, pz, in, y, float64(chf.BMin[1])+float64(y)*ch, before[j], chf.Areas[j], want, verts, hmin, hmax, area)
					}
					if want == area && in > 0 {
						marked++
					} else if before[j] != 0 {
						other++
					}
					if chf.Spans[j] != spans[j] {
						c.Fatalf("span %d changes", j)
					}
				}
			}
			if marked > 0 && other > 0 {
				c.Nontrivial(verts, area, before)
			}
			c.Sample("%dx%d, %d points, heights %v..%v: %d spans marked, %d walkable ones not", w, h, len(poly), hmin, hmax, marked, other)
		}
	})

	hx.Run(t, "volumes", "volumes added and deleted", 60000, 600000, func(c *hx.Case) {
		r := gen.New(c.T)
		var ig recast.InputGeom
		type vol struct {
			verts  []float32
			lo, hi float32
			area   uint8
		}
		var model []vol
		n := r.Int("ops", 1, 40)
		if r.P(0.05) {
			n = 700
		}
		del := 0
		for k := 0; k < n; k++ {
			if len(model) > 0 && r.P(0.25) {
				i := r.U(0, len(model)-1)
				ig.DeleteConvexVolume(i)
				last := len(model) - 1
				model[i] = model[last]
				model = model[:last]
				del++
			} else {
				v := vol{lo: r.F(-10, 10), hi: r.F(10, 20), area: uint8(r.U(0, 63))}
				for j := 3 * gen.Any(r, r.U(3, 12), r.U(3, 40)); j > 0; j-- {
					v.verts = append(v.verts, r.F(-100, 100))
				}
				ig.AddConvexVolume(v.verts, v.lo, v.hi, v.area)
				if len(model) < 256 {
					model = append(model, v)
				}
			}
			if int(ig.ConvexVolumesCount()) != len(model) {
				c.Fatalf("%d volumes, want %d", ig.ConvexVolumesCount(), len(model))
			}
		}
		vols := ig.ConvexVolumes()
		found := make([]bool, len(model))
	next:
		for i := range model {
			v := vols[i]
			for j, m := range model { // in any order
				if found[j] || int(v.NVerts)*3 != len(m.verts) || len(v.Verts) < len(m.verts) || v.HMin != m.lo || v.HMax != m.hi || v.Area != int32(m.area) {
					continue
				}
				same := true
				for q, x := range m.verts {
					same = same && v.Verts[q] == x
				}
				if same {
					found[j] = true
					continue next
				}
			}
			c.Fatalf("volume %d: %+v was not added", i, v)
		}
		if del > 0 && len(model) > 0 {
			c.Nontrivial(n, model)
		}
		c.Sample("%d volumes after %d operations (%d deletions)", len(model), n, del)
	})
}
