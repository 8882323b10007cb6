package index

import (
	"testing"

	"pgregory.net/rapid"

	"verifharness/kit"
)

// TestP13: the stored graph after every flush.
func TestP13(t *testing.T) {
	kit.Run(t, kit.Prop[History]{
		ID: "P13", Quick: 4000, Thorough: 80000,
		Rule: "a flushed graph with at least 3 nodes was checked",
		Gen: func(t *rapid.T) History {
			var h History
			h.Conf = genConf(t, rapid.IntRange(0, 2).Draw(t, "tight") > 0)
			max := 29
			if rapid.IntRange(0, 5).Draw(t, "big") == 0 {
				max = 90
			}
			genOps(t, &h, max, []string{"flush", "flush", "reload", "reopen", "knn", "max"})
			h.Ops = append(h.Ops, Op{K: "flush"})
			return h
		},
		Check: func(ctx *kit.Ctx, h History) error {
			r := newRun(ctx, h)
			r.checkG = true
			err := r.exec()
			if len(r.model) >= 3 {
				ctx.NonTrivial()
			}
			ctx.Class("maxConn %d", h.Conf.MaxConn)
			if r.reloaded {
				ctx.Class("reloaded")
			}
			return err
		},
	})
}

// TestP14: filtered and bounded searches.
func TestP14(t *testing.T) {
	kit.Run(t, kit.Prop[History]{
		ID: "P14", Quick: 8000, Thorough: 200000,
		Rule: "a search over at least 2 vectors gave results and brute force decides it",
		Gen: func(t *rapid.T) History {
			var h History
			h.Conf = genConf(t, rapid.IntRange(0, 4).Draw(t, "tight") == 0)
			genOps(t, &h, 29, []string{"flush", "knn", "knn", "knn", "dist", "dist", "max"})
			for i := 0; i < 4; i++ {
				var ids []uint64
				var vecs [][]float32
				for _, o := range h.Ops {
					if o.K == "add" {
						ids, vecs = append(ids, o.ID), append(vecs, o.Vec)
					}
				}
				h.Ops = append(h.Ops, genOp(t, &h, rapid.SampledFrom([]string{"knn", "dist", "max"}).Draw(t, "k2"), ids, vecs, 1))
			}
			return h
		},
		Check: func(ctx *kit.Ctx, h History) error { return newRun(ctx, h).exec() },
	})
}

// TestP15: flush and reload.
func TestP15(t *testing.T) {
	kit.Run(t, kit.Prop[History]{
		ID: "P15", Quick: 4000, Thorough: 80000,
		Rule: "a search over at least 2 vectors gave results and brute force decides it",
		Gen: func(t *rapid.T) History {
			var h History
			h.Conf = genConf(t, rapid.IntRange(0, 4).Draw(t, "tight") == 0)
			genOps(t, &h, 29, []string{"flush", "flush", "reload", "reopen", "reload", "knn", "dist", "max"})
			var ids []uint64
			var vecs [][]float32
			for _, o := range h.Ops {
				if o.K == "add" {
					ids, vecs = append(ids, o.ID), append(vecs, o.Vec)
				}
			}
			for _, k := range []string{"max", "reopen", "max", "knn", "dist"} {
				h.Ops = append(h.Ops, genOp(t, &h, k, ids, vecs, 1))
			}
			return h
		},
		Check: func(ctx *kit.Ctx, h History) error {
			r := newRun(ctx, h)
			r.checkG = true
			err := r.exec()
			if r.reloaded {
				ctx.Class("reloaded")
			}
			return err
		},
	})
}

// TestP24: deletion.
func TestP24(t *testing.T) {
	kit.Run(t, kit.Prop[History]{
		ID: "P24", Quick: 6000, Thorough: 160000,
		Rule: "a search over at least 2 live vectors gave results and brute force decides it",
		Gen: func(t *rapid.T) History {
			var h History
			h.Conf = genConf(t, rapid.IntRange(0, 4).Draw(t, "tight") == 0)
			genOps(t, &h, 29, []string{"flush", "del", "del", "knn", "dist", "max"})
			var ids []uint64
			var vecs [][]float32
			for _, o := range h.Ops {
				if o.K == "add" {
					ids, vecs = append(ids, o.ID), append(vecs, o.Vec)
				}
			}
			for _, k := range []string{"del", "max", "knn", "dist"} {
				h.Ops = append(h.Ops, genOp(t, &h, k, ids, vecs, 1))
			}
			return h
		},
		Check: func(ctx *kit.Ctx, h History) error { return newRun(ctx, h).exec() },
	})
}
