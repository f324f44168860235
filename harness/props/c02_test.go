package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"testing"

	"github.com/arl/go-detour/detour"

	"verif/harness/gen"
	"verif/harness/hx"
)

// layout of the files (documented format of the sample: set header, then tile
// header and tile data for each tile)
const (
	setHdrSize  = 40
	tileHdrSize = 8
	meshHdrSize = 100
)

// tileOffsets are the offsets of the tile headers of a saved mesh.
func tileOffsets(c *hx.Case, b []byte) []int {
	var res []int
	n := int(binary.LittleEndian.Uint32(b[8:]))
	off := setHdrSize
	for i := 0; i < n; i++ {
		res = append(res, off)
		off += tileHdrSize + int(int32(binary.LittleEndian.Uint32(b[off+4:])))
	}
	if off != len(b) {
		c.Fatalf("saved mesh: %d tiles end at %d of %d bytes", n, off, len(b))
	}
	return res
}

func mustReject(c *hx.Case, what string, m *detour.NavMesh, err error) {
	if err == nil {
		c.Fatalf("Decode accepted %s", what)
	}
	if m != nil {
		c.Fatalf("Decode of %s returned a mesh with the error %v", what, err)
	}
	if err.Error() == "" {
		c.Fatalf("Decode of %s: empty error", what)
	}
}

func put32(b []byte, off int, v uint32) []byte {
	b = append([]byte{}, b...)
	binary.LittleEndian.PutUint32(b[off:], v)
	return b
}

// countFields are the offsets of the counts in a tile's header.
var countFields = map[string]int{
	"polyCount": 24, "vertCount": 28, "maxLinkCount": 32, "detailMeshCount": 36,
	"detailVertCount": 40, "detailTriCount": 44, "bvNodeCount": 48, "offMeshConCount": 52,
}

var countNames = []string{"polyCount", "vertCount", "maxLinkCount", "detailMeshCount", "detailVertCount", "detailTriCount", "bvNodeCount", "offMeshConCount"}

// corruptTile returns tile data that cannot be valid, and what is wrong with it.
func corruptTile(r *gen.R, d []byte) ([]byte, string) {
	switch r.Int("corruption", 0, 4) {
	case 0:
		n := r.U(0, len(d)-1)
		if r.P(0.3) {
			n = r.U(0, minI(len(d)-1, meshHdrSize+2))
		}
		return append([]byte{}, d[:n]...), fmt.Sprintf("tile data truncated to %d of %d bytes", n, len(d))
	case 1:
		v := binary.LittleEndian.Uint32(d) ^ 1<<uint(r.U(0, 31))
		return put32(d, 0, v), "wrong tile magic number"
	case 2:
		v := binary.LittleEndian.Uint32(d[4:]) ^ 1<<uint(r.U(0, 31))
		return put32(d, 4, v), "wrong tile version"
	case 3:
		f := gen.Any(r, countNames...)
		v := -r.U(1, 1<<gen.Any(r, 2, 10, 31))
		return put32(d, countFields[f], uint32(int32(v))), fmt.Sprintf("negative %s %d", f, v)
	default:
		f := gen.Any(r, countNames...)
		old := int(binary.LittleEndian.Uint32(d[countFields[f]:]))
		v := old + r.U(1, 1<<gen.Any(r, 1, 10, 30))
		return put32(d, countFields[f], uint32(v)), fmt.Sprintf("%s %d instead of %d", f, v, old)
	}
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func TestC02(t *testing.T) {
	hx.Run(t, "prefix", "a mesh whose prefixes (all short ones, those around each record boundary, random ones) are loaded", 960, 24000, func(c *hx.Case) {
		r := gen.New(c.T)
		var b []byte
		what := ""
		if r.Bool("shipped") {
			fs := fixtures()
			what = fs[r.U(0, len(fs)-1)]
			b = fixture(what)
		} else {
			w := gen.NewWorld(r, gen.Opts{MaxNx: 2, MaxNy: 2, Cons: true})
			what = w.Describe()
			b = save(c, mustBuild(c, w, nil))
		}
		offs := tileOffsets(c, b)
		var cuts []int
		for k := 0; k <= setHdrSize; k += r.U(1, 8) {
			cuts = append(cuts, k)
		}
		for k := 0; k < 4; k++ {
			o := offs[r.U(0, len(offs)-1)]
			cuts = append(cuts, o, o-1, o+1, o+r.U(1, tileHdrSize-1), o+tileHdrSize, o+tileHdrSize+1, o+tileHdrSize+meshHdrSize)
		}
		cuts = append(cuts, len(b)-1, len(b)-2, len(b)-r.U(3, 40))
		for k := 0; k < 6; k++ {
			cuts = append(cuts, r.U(0, len(b)-1))
		}
		c.Nontrivial(what, cuts)
		c.LabelIf(len(offs) > 1, "several tiles")
		c.Sample("%s: %d bytes cut at %v", what, len(b), cuts)
		for _, k := range cuts {
			if k < 0 || k >= len(b) {
				continue
			}
			m, err := detour.Decode(chunked(r, b[:k]))
			mustReject(c, fmt.Sprintf("the first %d of %d bytes of %s", k, len(b), what), m, err)
			e := errors.New("read failure")
			cr := &chunkReader{data: append([]byte{}, b[:k]...), err: e, eofs: r.P(0.5), next: func() int { return r.U(1, 300) }}
			m, err = detour.Decode(cr)
			mustReject(c, fmt.Sprintf("a stream failing after %d of %d bytes of %s", k, len(b), what), m, err)
		}
	})

	hx.Run(t, "malformed", "a saved mesh with one named field made invalid", 9600, 240000, func(c *hx.Case) {
		r := gen.New(c.T)
		w := gen.NewWorld(r, gen.Opts{MaxNx: 2, MaxNy: 2, Cons: true})
		b := save(c, mustBuild(c, w, nil))
		offs := tileOffsets(c, b)
		o := offs[r.U(0, len(offs)-1)]
		size := int(binary.LittleEndian.Uint32(b[o+4:]))
		what := ""
		switch r.Int("kind", 0, 7) {
		case 0:
			b = put32(b, 0, binary.LittleEndian.Uint32(b)^1<<uint(r.U(0, 31)))
			what = "wrong magic number"
		case 1:
			b = put32(b, 4, binary.LittleEndian.Uint32(b[4:])^1<<uint(r.U(0, 31)))
			what = "wrong version"
		case 2:
			n := len(offs) + r.U(1, 1<<gen.Any(r, 1, 8, 31))
			b = put32(b, 8, uint32(n))
			what = fmt.Sprintf("%d tiles declared, %d present", n, len(offs))
		case 3:
			v := gen.Any(r, uint32(0xffffffff), 0x80000000, 0x80000001, 0x1000001, 0xfffffff0)
			f := gen.Any(r, 32, 36)
			b = put32(b, f, v)
			what = fmt.Sprintf("capacity field %d is %x", f, v)
		case 4:
			v := uint32(0x80000000) | uint32(r.U(0, 1<<31-1))
			b = put32(b, o+4, v)
			what = fmt.Sprintf("tile size %d", int32(v))
		case 5:
			v := len(b) - o - tileHdrSize + r.U(1, 1<<gen.Any(r, 1, 12, 30))
			b = put32(b, o+4, uint32(v))
			what = fmt.Sprintf("tile size %d beyond the end", v)
		case 6:
			v := r.U(1, size-1)
			b = put32(b, o+4, uint32(v))
			what = fmt.Sprintf("tile size %d instead of %d", v, size)
		default:
			d, s := corruptTile(r, b[o+tileHdrSize:o+tileHdrSize+size])
			nb := append([]byte{}, b[:o+4]...)
			nb = binary.LittleEndian.AppendUint32(nb, uint32(len(d)))
			nb = append(nb, d...)
			b = append(nb, b[o+tileHdrSize+size:]...)
			what = s
			if len(d) == 0 { // a record without data ends the file
				return
			}
		}
		c.Nontrivial(what, w.Describe())
		c.Label(fmt.Sprint(bytes.Fields([]byte(what))[0][0:1]))
		c.Sample("%s: %s", what, w.Describe())
		m, err := detour.Decode(chunked(r, b))
		mustReject(c, what, m, err)
	})

	hx.Run(t, "duplicate", "a file holding two tiles for one location or one reference", 960, 24000, func(c *hx.Case) {
		r := gen.New(c.T)
		w := gen.NewWorld(r, gen.Opts{MaxNx: 2, MaxNy: 2})
		b := save(c, mustBuild(c, w, nil))
		offs := append(tileOffsets(c, b), len(b))
		k := r.U(0, len(offs)-2)
		dup := append([]byte{}, b[offs[k]:offs[k+1]]...)
		if r.P(0.5) { // same slot, other place
			dup = put32(dup, tileHdrSize+8, binary.LittleEndian.Uint32(dup[tileHdrSize+8:])+100)
		}
		b = append(put32(b, 8, uint32(len(offs))), dup...)
		c.Nontrivial(w.Describe(), k)
		c.Sample("%s tile %d twice", w.Describe(), k)
		m, err := detour.Decode(chunked(r, b))
		mustReject(c, "a file with two tiles in one slot", m, err)
	})

	hx.Run(t, "tiledata", "a mesh with some tiles present, one of the others offered corrupted", 9600, 240000, func(c *hx.Case) {
		r := gen.New(c.T)
		w := gen.NewWorld(r, gen.Opts{MaxNx: 2, MaxNy: 2, Cons: true, MaxSpread: 4})
		if w.Single {
			d, err := w.Data(w.Tiles[0])
			if err != nil {
				c.Fatalf("CreateNavMeshData: %v", err)
			}
			bad, what := corruptTile(r, d)
			var m detour.NavMesh
			c.Nontrivial(what, w.Describe())
			c.Label("InitForSingleTile")
			if st := m.InitForSingleTile(bad, 0); !detour.StatusFailed(st) || detour.StatusSucceed(st) {
				c.Fatalf("InitForSingleTile accepted %s: %x", what, uint32(st))
			}
			return
		}
		perm := r.Perm(len(w.Tiles))
		k := r.U(0, len(perm)-1)
		m := &detour.NavMesh{}
		if st := m.Init(w.NavParams()); detour.StatusFailed(st) {
			c.Fatalf("Init: %x", uint32(st))
		}
		add := func(i int) detour.TileRef {
			d, err := w.Data(w.Tiles[i])
			if err != nil {
				c.Fatalf("CreateNavMeshData: %v", err)
			}
			st, ref := m.AddTile(d, 0)
			if detour.StatusFailed(st) {
				c.Fatalf("AddTile of a valid tile: %x", uint32(st))
			}
			return ref
		}
		for _, i := range perm[:k] {
			add(i)
		}
		before, snap := save(c, m), snapMesh(c, m)
		lastRef := detour.TileRef(0)
		for n := r.U(1, 6); n > 0; n-- {
			t := w.Tiles[perm[r.U(k, len(perm)-1)]]
			d, err := w.Data(t)
			if err != nil {
				c.Fatalf("CreateNavMeshData: %v", err)
			}
			bad, what := corruptTile(r, d)
			orig := append([]byte{}, bad...)
			if r.P(0.3) {
				lastRef = detour.TileRef(r.U(1, 1<<31-1))
			} else {
				lastRef = 0
			}
			c.Nontrivial(what, w.Describe())
			c.Sample("%s added to %d tiles of %s", what, k, w.Describe())
			st, ref := m.AddTile(bad, lastRef)
			if !detour.StatusFailed(st) || detour.StatusSucceed(st) || ref != 0 {
				c.Fatalf("AddTile accepted %s: %x %x", what, uint32(st), ref)
			}
			if !bytes.Equal(bad, orig) {
				c.Fatalf("AddTile changed the data it rejected")
			}
			if m.TileAt(t.X, t.Y, t.Layer) != nil || m.TileRefAt(t.X, t.Y, t.Layer) != 0 {
				c.Fatalf("rejected tile (%s) is present", what)
			}
			if !bytes.Equal(before, save(c, m)) {
				c.Fatalf("rejected tile (%s) changed the mesh", what)
			}
			if d := diffSnap(snap, snapMesh(c, m)); d != "" {
				c.Fatalf("rejected tile (%s) changed the mesh: %s", what, d)
			}
		}
		// no slot was lost
		for _, i := range perm[k:] {
			add(i)
		}
		for extra := len(w.Tiles); extra < int(w.MaxTiles); extra++ {
			t := *w.Tiles[0]
			t.X += int32(1000 + extra)
			d, err := w.Data(&t)
			if err != nil {
				c.Fatalf("CreateNavMeshData: %v", err)
			}
			if st, _ := m.AddTile(d, 0); detour.StatusFailed(st) {
				c.Fatalf("slot %d of %d was lost to a rejected tile: %x", extra, w.MaxTiles, uint32(st))
			}
		}
	})
}
