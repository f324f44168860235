package props

import (
	"fmt"
	"testing"

	"github.com/arl/go-detour/detour"

	"verif/harness/gen"
	"verif/harness/hx"
)

type nodeKey struct {
	id    detour.PolyRef
	state uint8
}

func TestC35(t *testing.T) {
	hx.Run(t, "history", "at least one clearing, one node found again and one refused, or several states of one polygon", 700000, 12000000, func(c *hx.Case) {
		r := gen.New(c.T)
		m := &detour.NavMesh{}
		if st := m.Init(&detour.NavMeshParams{TileWidth: 1, TileHeight: 1, MaxTiles: 4, MaxPolys: 64}); detour.StatusFailed(st) {
			c.Fatalf("Init: %x", uint32(st))
		}
		max := gen.Any(r, 1, 2, 3, 4, 5, 8, r.U(1, 40), r.U(1, 300))
		q := newQuery(c, m, int32(max))
		if q.AttachedNavMesh() != m {
			c.Fatalf("another mesh is attached")
		}
		np := q.NodePool()
		if np.MaxNodes() != int32(max) || np.NodeCount() != 0 || np.HashSize() < 1 {
			c.Fatalf("pool of %d nodes for %d, count %d, hash size %d", np.MaxNodes(), max, np.NodeCount(), np.HashSize())
		}
		model := map[nodeKey]*detour.Node{}
		var order []nodeKey
		var ids []detour.PolyRef
		base := uint32(r.U(0, 1<<32-1))
		for i := 0; i < max+4 && i < 60; i++ {
			switch r.U(0, 3) {
			case 0:
				ids = append(ids, detour.PolyRef(base+uint32(i)))
			case 1:
				ids = append(ids, detour.PolyRef(uint32(i)<<r.U(0, 28)))
			default:
				ids = append(ids, detour.PolyRef(r.U(0, 1<<32-1)))
			}
		}
		var clears, again, refused int
		states := false
		ops := r.Int("ops", 1, 80)
		for k := 0; k < ops; k++ {
			key := nodeKey{ids[r.U(0, len(ids)-1)], uint8(r.U(0, 3))}
			if r.P(0.2) && len(order) > 0 {
				key = order[r.U(0, len(order)-1)]
			}
			switch op := r.Int("op", 0, 9); {
			case op <= 5:
				n := np.Node(key.id, key.state)
				if old := model[key]; old != nil {
					if n != old {
						c.Fatalf("polygon %x state %d has another node than before", key.id, key.state)
					}
					if n.Flags != 7&detour.NodeFlags(np.NodeIdx(n)) || n.Cost != float32(np.NodeIdx(n)) {
						c.Fatalf("the node of polygon %x state %d lost its contents: %+v", key.id, key.state, n)
					}
					again++
					break
				}
				if len(model) == max {
					if n != nil {
						c.Fatalf("a pool of %d hands out one more", max)
					}
					refused++
					break
				}
				if n == nil {
					c.Fatalf("no node for polygon %x state %d with %d of %d in use", key.id, key.state, len(model), max)
				}
				for o, x := range model {
					if x == n {
						c.Fatalf("polygons %x state %d and %x state %d share a node", o.id, o.state, key.id, key.state)
					}
				}
				if n.ID != key.id || n.State != key.state || n.PIdx != 0 || n.Flags != 0 || n.Cost != 0 || n.Total != 0 || len(n.Pos) != 3 {
					c.Fatalf("new node for %x state %d: %+v", key.id, key.state, n)
				}
				n.PIdx, n.Flags = uint32(r.U(0, max)), 7&detour.NodeFlags(np.NodeIdx(n))
				n.Cost, n.Total = float32(np.NodeIdx(n)), 3
				n.Pos[1] = 4
				model[key] = n
				order = append(order, key)
			case op <= 6:
				if n := np.FindNode(key.id, key.state); n != model[key] {
					c.Fatalf("FindNode(%x, %d) = %v, want %v", key.id, key.state, n, model[key])
				}
			case op <= 7:
				lim := r.U(0, 5)
				got := make([]*detour.Node, lim+1)
				n := int(np.FindNodes(key.id, got, int32(lim)))
				want := 0
				for s := uint8(0); s < 4; s++ {
					if model[nodeKey{key.id, s}] != nil {
						want++
					}
				}
				states = states || want > 1
				if n != minInt(want, lim) {
					c.Fatalf("FindNodes(%x) finds %d nodes of %d, at most %d", key.id, n, want, lim)
				}
				seen := map[*detour.Node]bool{}
				for _, x := range got[:n] {
					if x == nil || seen[x] || x.ID != key.id || model[nodeKey{x.ID, x.State}] != x {
						c.Fatalf("FindNodes(%x): a wrong node %v", key.id, x)
					}
					seen[x] = true
				}
				if got[lim] != nil {
					c.Fatalf("FindNodes(%x) writes more than %d nodes", key.id, lim)
				}
			case op <= 8:
				idx := map[uint32]bool{}
				for key, n := range model {
					i := np.NodeIdx(n)
					if i < 1 || i > uint32(max) || idx[i] || np.NodeAtIdx(int32(i)) != n {
						c.Fatalf("node of %x state %d: index %d", key.id, key.state, i)
					}
					idx[i] = true
				}
				if np.NodeIdx(nil) != 0 || np.NodeAtIdx(0) != nil {
					c.Fatalf("the null index is not that of no node")
				}
			default:
				if r.P(0.6) {
					continue
				}
				np.Clear()
				model, order = map[nodeKey]*detour.Node{}, nil
				clears++
			}
			if int(np.NodeCount()) != len(model) {
				c.Fatalf("%d nodes in use, want %d", np.NodeCount(), len(model))
			}
		}
		for _, id := range ids {
			for s := uint8(0); s < 4; s++ {
				if np.FindNode(id, s) != model[nodeKey{id, s}] {
					c.Fatalf("FindNode(%x, %d) at the end", id, s)
				}
			}
		}
		// Walking the buckets visits every node once.
		seen := 0
		for b := int32(0); b < np.HashSize(); b++ {
			for i := np.First(b); i != ^detour.NodeIndex(0); i = np.Next(int32(i)) {
				n := np.NodeAtIdx(int32(i) + 1)
				if model[nodeKey{n.ID, n.State}] != n {
					c.Fatalf("bucket %d holds a node of polygon %x state %d", b, n.ID, n.State)
				}
				if seen++; seen > max {
					c.Fatalf("the buckets hold more than %d nodes", max)
				}
			}
		}
		if seen != len(model) {
			c.Fatalf("%d nodes in the buckets, want %d", seen, len(model))
		}
		if clears > 0 && again > 0 && refused > 0 || states {
			c.Nontrivial(max, base, ops, clears, again, refused)
		}
		c.LabelIf(refused > 0, "full")
		c.LabelIf(clears > 0, "cleared")
		c.Sample("%d operations on %d nodes, %d clearings, %d found again, %d refused", ops, max, clears, again, refused)
	})

	hx.Run(t, "capacity", "a large pool filled to the last node", 160, 2000, func(c *hx.Case) {
		r := gen.New(c.T)
		m := &detour.NavMesh{}
		m.Init(&detour.NavMeshParams{TileWidth: 1, TileHeight: 1, MaxTiles: 4, MaxPolys: 64})
		max := gen.Any(r, 65535, 65534, 32768, 40000, r.U(300, 65535))
		np := newQuery(c, m, int32(max)).NodePool()
		step := uint32(gen.Any(r, 1, 1<<8, 1<<14, r.U(1, 65000)|1))
		for round := 0; round < 2; round++ {
			for i := 0; i < max; i++ {
				id := detour.PolyRef(uint32(i/2)*step + 1)
				if n := np.Node(id, uint8(i%2)); n == nil || np.NodeIdx(n) == 0 || n.ID != id {
					c.Fatalf("node %d of %d: %v", i, max, n)
				}
			}
			distinct := int(np.NodeCount())
			if step&1 == 1 && distinct != max {
				c.Fatalf("%d nodes after %d polygons", distinct, max)
			}
			if distinct == max && np.Node(0xfffffff0, 3) != nil {
				c.Fatalf("more than %d nodes", max)
			}
			for i := 0; i < max; i += 1 + i%7 {
				id := detour.PolyRef(uint32(i/2)*step + 1)
				if n := np.FindNode(id, uint8(i%2)); n == nil || n.ID != id || n.State != uint8(i%2) {
					c.Fatalf("node %d of %d is not found: %v", i, max, n)
				}
			}
			np.Clear()
			if np.NodeCount() != 0 || np.FindNode(1, 0) != nil {
				c.Fatalf("nodes after clearing")
			}
		}
		c.Nontrivial(max, step)
		c.Sample("%s", fmt.Sprintf("%d nodes, polygons %d apart", max, step))
	})
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
