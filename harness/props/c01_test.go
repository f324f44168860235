package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/arl/go-detour/detour"

	"verif/harness/gen"
	"verif/harness/hx"
)

// shuffleTiles removes and re-adds random tiles of a mesh, so that its tile
// slots, salts and link lists have a history. It tells how many were removed and
// whether some tile used all of its links meanwhile (more may have been dropped).
func shuffleTiles(c *hx.Case, r *gen.R, w *gen.World, m *detour.NavMesh, ops int) (done int, full bool) {
	full = linksFull(m)
	for i := 0; i < ops; i++ {
		t := w.Tiles[r.U(0, len(w.Tiles)-1)]
		ref := m.TileRefAt(t.X, t.Y, t.Layer)
		if ref != 0 {
			if _, st := m.RemoveTile(ref); detour.StatusFailed(st) {
				c.Fatalf("RemoveTile of a present tile: %x", uint32(st))
			}
			done++
			if r.P(0.2) {
				continue // left out
			}
		}
		d, err := w.Data(t)
		if err != nil {
			c.Fatalf("CreateNavMeshData: %v", err)
		}
		if st, _ := m.AddTile(d, 0); detour.StatusFailed(st) {
			c.Fatalf("AddTile to a free location: %x", uint32(st))
		}
		full = full || linksFull(m)
	}
	return done, full
}

func TestC01(t *testing.T) {
	hx.Run(t, "world", "a generated world whose mesh has at least two tiles, or at least two off-mesh connections, or a tile removal history", 12000, 200000, func(c *hx.Case) {
		r := gen.New(c.T)
		w := gen.NewWorld(r, gen.Opts{MaxNx: 3, MaxNy: 3, Cons: true, NegTiles: true})
		m := mustBuild(c, w, nil)
		history, full := 0, false
		if !w.Single && r.Bool("history") {
			history, full = shuffleTiles(c, r, w, m, r.Int("ops", 1, 8))
		}
		ncons := 0
		for i := range m.Tiles {
			ncons += len(m.Tiles[i].OffMeshCons)
		}
		layered := false
		for _, t := range w.Tiles {
			layered = layered || t.Layer != 0
		}
		if len(w.Tiles) > 1 || ncons > 1 || history > 0 {
			c.Nontrivial(w.Describe(), history)
		}
		c.LabelIf(history > 0, "tile history")
		c.LabelIf(ncons > 1, "several off-mesh connections")
		c.LabelIf(w.Single, "single-tile mesh")
		c.LabelIf(layered, "layered")
		c.LabelIf(full, "links used up")
		c.Sample("%s history=%d", w.Describe(), history)

		b1 := save(c, m)
		if int(m.Size()) != len(b1) {
			c.Fatalf("Size() says %d, ToWriter wrote %d bytes", m.Size(), len(b1))
		}
		if b := save(c, m); !bytes.Equal(b, b1) {
			c.Fatalf("saving the same mesh twice gives different bytes")
		}
		m2, err := detour.Decode(chunked(r, b1))
		if err != nil {
			c.Fatalf("Decode of a saved mesh: %v", err)
		}
		if m2.Params != m.Params || m2.MaxTiles != m.MaxTiles || m2.TileWidth != m.TileWidth || m2.TileHeight != m.TileHeight ||
			m2.Orig[0] != m.Orig[0] || m2.Orig[1] != m.Orig[1] || m2.Orig[2] != m.Orig[2] {
			c.Fatalf("mesh parameters changed: %+v vs %+v", m.Params, m2.Params)
		}
		// With layered tiles a connection can land in several tiles, and the
		// last one added decides where its stored end point is.
		if history == 0 || !(layered && ncons > 0) && !full {
			if d := diffSnap(snapMesh(c, m), snapMesh(c, m2)); d != "" {
				c.Fatalf("loaded mesh differs: %s\n%s", d, w.Describe())
			}
		}
		b2 := save(c, m2)
		if history == 0 && !bytes.Equal(b1, b2) {
			c.Fatalf("re-saving the loaded mesh gives different bytes")
		}
		m3, err := detour.Decode(bytes.NewReader(b2))
		if err != nil {
			c.Fatalf("Decode of a re-saved mesh: %v", err)
		}
		if b3 := save(c, m3); !bytes.Equal(b2, b3) {
			c.Fatalf("save of load is not a fixed point")
		}
		for i := range m.Tiles {
			a, b := &m.Tiles[i], &m2.Tiles[i]
			if a.Header == nil {
				continue
			}
			if m2.TileRefAt(a.Header.X, a.Header.Y, a.Header.Layer) != m.TileRef(a) || m2.TileAt(a.Header.X, a.Header.Y, a.Header.Layer) != b {
				c.Fatalf("tile %d,%d,%d has another reference after loading", a.Header.X, a.Header.Y, a.Header.Layer)
			}
		}
		// the loaded mesh answers queries as the original does
		if history == 0 {
			_, q1 := detour.NewNavMeshQuery(m, 2048)
			_, q2 := detour.NewNavMeshQuery(m2, 2048)
			f := detour.NewStandardQueryFilter()
			refs := allPolys(m, true)
			for k := 0; k < 4; k++ {
				a, b := vec(w.RandPoint(r, 0.5)), vec(w.RandPoint(r, 0.5))
				ra, rb := refs[r.U(0, len(refs)-1)], refs[r.U(0, len(refs)-1)]
				p1, p2 := make([]detour.PolyRef, 64), make([]detour.PolyRef, 64)
				n1, s1 := q1.FindPath(ra, rb, a, b, f, p1)
				n2, s2 := q2.FindPath(ra, rb, a, b, f, p2)
				if n1 != n2 || s1 != s2 || fmt.Sprint(p1[:n1]) != fmt.Sprint(p2[:n2]) {
					c.Fatalf("the loaded mesh finds another path: %x %x vs %x %x", p1[:n1], uint32(s1), p2[:n2], uint32(s2))
				}
				_, r1, x1 := q1.FindNearestPoly(a, []float32{1, 1, 1}, f)
				_, r2, x2 := q2.FindNearestPoly(a, []float32{1, 1, 1}, f)
				if r1 != r2 || fmt.Sprint(x1) != fmt.Sprint(x2) {
					c.Fatalf("the loaded mesh finds another nearest polygon")
				}
			}
		}
	})

	hx.Run(t, "file", "each case writes a mesh file and a mesh to a failing writer", 2000, 20000, func(c *hx.Case) {
		r := gen.New(c.T)
		w := gen.NewWorld(r, gen.Opts{MaxNx: 2, MaxNy: 2, Cons: true})
		m := mustBuild(c, w, nil)
		b := save(c, m)
		c.Nontrivial(w.Describe(), len(b))
		fn := filepath.Join(scratch(), "mesh.bin")
		defer os.Remove(fn)
		if r.P(0.5) {
			os.WriteFile(fn, make([]byte, 2*len(b)), 0o644) // overwritten
		} else {
			os.Remove(fn)
		}
		if err := m.SaveToFile(fn); err != nil {
			c.Fatalf("SaveToFile: %v", err)
		}
		got, err := os.ReadFile(fn)
		if err != nil || !bytes.Equal(got, b) {
			c.Fatalf("the file differs from what ToWriter writes: %v", err)
		}
		if err := m.SaveToFile(filepath.Join(scratch(), "no", "such", "dir", "x.bin")); err == nil {
			c.Fatalf("SaveToFile to a missing directory succeeded")
		}
		limit := r.U(0, len(b)-1)
		fw := &failWriter{limit: limit}
		if err := m.ToWriter(fw); err == nil {
			c.Fatalf("ToWriter on a writer failing after %d of %d bytes returned no error", limit, len(b))
		}
		c.Sample("%s: %d bytes, writer failing after %d", w.Describe(), len(b), limit)
		// no open file may be left behind by a successful save
		if open, ok := openFiles(fn); ok && open > 0 {
			c.Fatalf("SaveToFile leaves the file open")
		}
	})

	hx.Run(t, "shipped", "one of the mesh files shipped with the repository, read in random chunks", 1200, 8000, func(c *hx.Case) {
		r := gen.New(c.T)
		fs := fixtures()
		fn := fs[r.U(0, len(fs)-1)]
		data := fixture(fn)
		m, err := detour.Decode(chunked(r, data))
		if err != nil {
			c.Fatalf("%s: %v", fn, err)
		}
		c.Nontrivial(fn)
		c.Sample("%s", fn)
		b := save(c, m)
		if len(b) != len(data) || int(m.Size()) != len(data) {
			c.Fatalf("%s: %d bytes become %d (Size %d)", fn, len(data), len(b), m.Size())
		}
		m2, err := detour.Decode(chunked(r, b))
		if err != nil {
			c.Fatalf("%s: re-load: %v", fn, err)
		}
		if d := diffSnap(snapMesh(c, m), snapMesh(c, m2)); d != "" {
			c.Fatalf("%s: %s", fn, d)
		}
		if b2 := save(c, m2); !bytes.Equal(b, b2) {
			c.Fatalf("%s: save of load is not a fixed point", fn)
		}
	})
}

// openFiles counts this process's descriptors of a file.
func openFiles(fn string) (int, bool) {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0, false
	}
	n := 0
	for _, e := range ents {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && l == fn {
			n++
		}
	}
	return n, true
}
