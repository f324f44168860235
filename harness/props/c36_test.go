package props

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/arl/go-detour/recast"

	"verif/harness/gen"
	"verif/harness/hx"
)

type volume struct {
	verts      []float32
	hmin, hmax float32
	area       uint8
}

func (v volume) String() string {
	return fmt.Sprintf("{%d vertices, %v..%v, area %d, %v}", len(v.verts)/3, v.hmin, v.hmax, v.area, v.verts)
}

const oneTriangle = "v 0 0 0\nv 0 0 1\nv 1 0 0\nf 1 2 3\n"

func TestC36(t *testing.T) {
	hx.Run(t, "history", "at least one volume is deleted which is not the last one, or one is refused", 20000, 600000, func(c *hx.Case) {
		r := gen.New(c.T)
		ig := &recast.InputGeom{}
		load := func() {
			if err := ig.LoadOBJMesh(strings.NewReader(oneTriangle)); err != nil {
				c.Fatalf("LoadOBJMesh: %v", err)
			}
		}
		load()
		max := len(ig.ConvexVolumes())
		var model []volume
		ordered := true // nothing was deleted: the volumes are in the order of their addition
		middle, refused, loads := false, false, 0
		var last []float32
		check := func(op string) {
			n := int(ig.ConvexVolumesCount())
			if n != len(model) || len(ig.ConvexVolumes()) < n {
				c.Fatalf("after %s: %d volumes (slice of %d), want %d", op, n, len(ig.ConvexVolumes()), len(model))
			}
			var got, want []string
			for i, v := range ig.ConvexVolumes()[:n] {
				if int(v.NVerts)*3 != len(v.Verts) || v.Area < 0 || v.Area > 255 {
					c.Fatalf("after %s: volume %d has %d vertices, %d coordinates, area %d", op, i, v.NVerts, len(v.Verts), v.Area)
				}
				got = append(got, volume{v.Verts, v.HMin, v.HMax, uint8(v.Area)}.String())
				want = append(want, model[i].String())
			}
			if !ordered {
				sort.Strings(got)
				sort.Strings(want)
			}
			for i := range got {
				if got[i] != want[i] {
					c.Fatalf("after %s: volumes %v, want %v", op, got, want)
				}
			}
			if ig.OffMeshConnectionCount() != 0 || ig.Mesh() == nil || ig.Mesh().TriCount() != 1 {
				c.Fatalf("after %s: the volumes change the geometry", op)
			}
		}
		steps := r.Int("steps", 1, 40)
		fill := r.P(0.1)
		for i := 0; i < steps; i++ {
			op := ""
			switch k := r.U(0, 9); {
			case k < 5 || len(model) == 0:
				n := 1
				if fill && i == steps/2 {
					n = max - len(model) + r.U(-1, 2)
				}
				op = fmt.Sprintf("adding %d volumes", n)
				for ; n > 0; n-- {
					v := volume{hmin: r.F(-10, 10), hmax: r.F(-10, 10), area: uint8(r.U(0, 255))}
					for j := 3 * r.U(1, 6); j > 0; j-- {
						v.verts = append(v.verts, r.F(-100, 100))
					}
					// the caller may use the slice again
					if len(last) < len(v.verts) || r.P(0.3) {
						last = make([]float32, len(v.verts), len(v.verts)+6)
					}
					arg := last[:len(v.verts)]
					copy(arg, v.verts)
					ig.AddConvexVolume(arg, v.hmin, v.hmax, v.area)
					if len(model) < max {
						model = append(model, v)
					} else {
						refused = true
					}
				}
			case k < 9:
				j := r.U(0, len(model)-1)
				op = fmt.Sprintf("deleting volume %d of %d", j, len(model))
				// the volume at that place
				v := ig.ConvexVolumes()[j]
				gone := volume{append([]float32(nil), v.Verts...), v.HMin, v.HMax, uint8(v.Area)}.String()
				ig.DeleteConvexVolume(j)
				at := -1
				for k := range model {
					if model[k].String() == gone {
						at = k
					}
				}
				if at < 0 {
					c.Fatalf("volume %s was never added", gone)
				}
				if at != len(model)-1 {
					middle, ordered = true, false
				}
				model = append(model[:at:at], model[at+1:]...)
			default:
				if !r.P(0.3) {
					continue
				}
				op = "loading"
				load()
				model, ordered = nil, true
				loads++
			}
			check(op)
		}
		c.LabelIf(refused, "more volumes than fit")
		c.LabelIf(loads > 0, "loaded again")
		if middle || refused {
			c.Nontrivial(steps, len(model), fmt.Sprint(model))
		}
		c.Sample("%d operations, %d volumes at the end", steps, len(model))
	})
}
