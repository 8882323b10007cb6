package index

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/kit"
)

// Many is a case with more vectors than one step of a distance search.
type Many struct {
	Conf  Conf    `json:"conf"`
	N     int     `json:"n"`
	Dim   int     `json:"dim"`
	Kind  int     `json:"kind"`
	Drop  int     `json:"drop"` // every Drop-th vector is not on the allow list (0: all are)
	Ranks []int   `json:"ranks"`
	Limit []int64 `json:"limit"`
}

// TestP14_many: a distance search that has to widen its candidate list, by
// scanning the allow list.
func TestP14_many(t *testing.T) {
	kit.Run(t, kit.Prop[Many]{
		ID: "P14", Sub: "many", Quick: 800, Thorough: 16000,
		Rule: "a search by distance gave more than 100 results",
		Gen: func(t *rapid.T) Many {
			m := Many{Conf: genConf(t, true), Dim: rapid.SampledFrom([]int{2, 3, 8}).Draw(t, "dim"), Kind: rapid.SampledFrom([]int{1, 2, kit.Repeated}).Draw(t, "kind")}
			m.Conf.Cutoff = 40000
			m.Conf.CacheMax = 1000000
			m.Conf.MaxConn, m.Conf.EFC = 4, 8
			m.N = rapid.IntRange(90, 260).Draw(t, "n")
			if rapid.IntRange(0, 15).Draw(t, "huge") == 0 {
				m.N = rapid.IntRange(1090, 1250).Draw(t, "n2")
			}
			m.Drop = rapid.SampledFrom([]int{0, 0, 2, 7}).Draw(t, "drop")
			for i := 0; i < 6; i++ {
				r := rapid.IntRange(1, m.N).Draw(t, "rank")
				if rapid.Bool().Draw(t, "edge") {
					r = rapid.SampledFrom([]int{1, 99, 100, 101, m.N - 1, m.N}).Draw(t, "erank")
				}
				m.Ranks = append(m.Ranks, r)
				m.Limit = append(m.Limit, rapid.SampledFrom([]int64{-1, -1, -1, 0, 1, 50, 99, 100, 101, 1099, 1100, 1101, 100000}).Draw(t, "limit"))
			}
			return m
		},
		Check: func(ctx *kit.Ctx, m Many) error {
			r := newRun(ctx, History{Conf: m.Conf, Dim: m.Dim})
			defer func() { closeIndex(r.ix) }()
			vecs := kit.ManyVecs(m.Conf.Seed, m.N, m.Dim, m.Kind)
			var allow []uint64
			for i, v := range vecs {
				if err := r.step(Op{K: "add", ID: uint64(i), Vec: v}); err != nil {
					return err
				}
				if m.Drop == 0 || i%m.Drop != 0 {
					allow = append(allow, uint64(i))
				}
			}
			// a search by scan does not need the graph to be stored
			r.flushed = true
			for i := range m.Ranks {
				q := vecs[(i*37)%m.N]
				al, am := allowOf(allow)
				var ds []float64
				for _, id := range allow {
					d, _ := m.Conf.dist(q, vecs[id])
					ds = append(ds, d)
				}
				sort.Float64s(ds)
				b := ds[(m.Ranks[i]-1)%len(ds)]
				ids, dd, err := r.ix.SearchByVectorDistance(q, float32(b), m.Limit[i], al)
				if err != nil {
					return fmt.Errorf("search by distance: %v", err)
				}
				if len(ids) > 100 {
					ctx.NonTrivial()
					ctx.Class("more than 100 results")
				}
				if len(ids) > 1100 {
					ctx.Class("more than 1100 results")
				}
				s := query{q: q, bound: b, limit: -1, allow: am, exact: true}
				if lim := m.Limit[i]; lim >= 0 {
					// the candidate list grows in steps: 100, 1100, 11100
					reach := int64(100)
					for st := int64(1000); reach+st <= lim; st *= 10 {
						reach += st
					}
					if reach > lim {
						reach = lim
					}
					if int64(len(ids)) > lim {
						return fmt.Errorf("search by distance with limit %d gave %d results", lim, len(ids))
					}
					s.limit = int(math.Max(float64(reach), float64(len(ids))))
				}
				if err := m.Conf.check(r.model, ids, dd, s); err != nil {
					return fmt.Errorf("search by distance (bound %v, limit %d, %d allowed): %v", b, m.Limit[i], len(allow), err)
				}
			}
			return nil
		},
	})
}

// Big is an index beyond the node cache.
type Big struct {
	Seed  int64 `json:"seed"`
	N     int   `json:"n"`
	Dim   int   `json:"dim"`
	Batch int   `json:"batch"`
}

// TestP15_big: more vectors than the node cache holds.
func TestP15_big(t *testing.T) {
	kit.Run(t, kit.Prop[Big]{
		ID: "P15", Sub: "big", Quick: 1, Thorough: 8, Timeout: 600e9,
		Rule: "the index has more nodes than the node cache",
		Gen: func(t *rapid.T) Big {
			return Big{Seed: rapid.Int64Range(1, 1<<30).Draw(t, "seed"), N: rapid.IntRange(10200, 10600).Draw(t, "n"), Dim: rapid.IntRange(2, 6).Draw(t, "dim"), Batch: 0}
		},
		Check: func(ctx *kit.Ctx, b Big) error {
			c := Conf{Metric: "cosine", MaxConn: 4, EFC: 8, Seed: b.Seed, CacheMax: 1000000}
			r := newRun(ctx, History{Conf: c, Dim: b.Dim})
			r.checkG = true
			defer func() { closeIndex(r.ix) }()
			vecs := kit.ManyVecs(b.Seed, b.N, b.Dim, 1)
			for i, v := range vecs {
				if err := r.step(Op{K: "add", ID: uint64(i), Vec: v}); err != nil {
					return err
				}
			}
			if err := r.flush(); err != nil {
				return err
			}
			if err := r.load(true); err != nil {
				return err
			}
			ctx.NonTrivial()
			for i := 0; i < 20; i++ {
				q := vecs[(i*541)%b.N]
				if err := r.step(Op{K: "max", Vec: q, N: 50, Bound: 2}); err != nil {
					return err
				}
			}
			return nil
		},
	})
}

// Waits are histories that pause while the vector caches are emptied.
type Waits struct {
	Hs []History `json:"hs"`
	At []int     `json:"at"` // the steps before which they pause
}

// TestP15_wait: the caches of vectors are emptied every three seconds; an index
// goes on working after that.
func TestP15_wait(t *testing.T) {
	kit.Run(t, kit.Prop[Waits]{
		ID: "P15", Sub: "wait", Quick: 8, Thorough: 400, Timeout: 120e9,
		Rule: "vectors were added before the pause, and added or searched after it",
		Gen: func(t *rapid.T) Waits {
			var w Waits
			n := rapid.SampledFrom([]int{1, 12, 12, 13, 14}).Draw(t, "n")
			for i := 0; i < n; i++ {
				var h History
				h.Conf = genConf(t, rapid.IntRange(0, 1).Draw(t, "tight") == 0)
				h.Conf.CacheMax = rapid.SampledFrom([]int{0, 0, 1, 10, 1000000}).Draw(t, "cm")
				genOps(t, &h, 40, []string{"flush", "flush", "reload", "knn", "dist", "max"})
				w.Hs = append(w.Hs, h)
				w.At = append(w.At, rapid.IntRange(0, len(h.Ops)).Draw(t, "at"))
			}
			return w
		},
		Check: func(ctx *kit.Ctx, w Waits) error {
			var rs []*run
			defer func() {
				for _, r := range rs {
					if r.ix != nil {
						closeIndex(r.ix)
					}
				}
			}()
			for i, h := range w.Hs {
				r := newRun(ctx, h)
				r.checkG = true
				rs = append(rs, r)
				for j, o := range h.Ops[:w.At[i]] {
					if err := r.step(o); err != nil {
						return fmt.Errorf("history %d, step %d: %w", i, j, err)
					}
				}
				if len(r.live()) > 0 && w.At[i] < len(h.Ops) {
					ctx.NonTrivial()
				}
			}
			time.Sleep(3300 * time.Millisecond)
			for i, h := range w.Hs {
				for j, o := range h.Ops[w.At[i]:] {
					if err := rs[i].step(o); err != nil {
						return fmt.Errorf("history %d, step %d, after the pause at %d: %w", i, w.At[i]+j, w.At[i], err)
					}
				}
			}
			return nil
		},
	})
}

// Layer is an index whose nodes are all on the bottom layer, so that an index
// loaded from the table searches exactly the graph that the one which built it
// searched.
type Layer struct {
	Conf    Conf   `json:"conf"`
	Dim     int    `json:"dim"`
	Kind    int    `json:"kind"`
	Batches []int  `json:"batches"`
	Full    []bool `json:"full"` // the table is opened again, too
	Q       []int  `json:"q"`
}

// flatSeed finds a seed whose first draws keep a node on the bottom layer.
func flatSeed(s int64) int64 {
	for ; ; s++ {
		r := rand.New(rand.NewSource(s))
		if r.Float64() > 0.6 && r.Float64() > 0.6 {
			return s
		}
	}
}

// TestP15_layer: what can be found does not depend on whether the index was
// loaded since.
func TestP15_layer(t *testing.T) {
	kit.Run(t, kit.Prop[Layer]{
		ID: "P15", Sub: "layer", Quick: 160, Thorough: 8000, Timeout: 120e9,
		Rule: "the neighbour lists were full, all nodes on one layer, and the answers before and after loading were compared",
		Gen: func(t *rapid.T) Layer {
			l := Layer{Conf: genConf(t, true), Dim: rapid.SampledFrom([]int{2, 3, 8}).Draw(t, "dim"), Kind: rapid.SampledFrom([]int{1, 2, kit.Repeated}).Draw(t, "kind")}
			l.Conf.MaxConn = rapid.SampledFrom([]int{2, 3, 4, 8}).Draw(t, "mc")
			l.Conf.EFC = rapid.SampledFrom([]int{8, 16, 64}).Draw(t, "efc")
			l.Conf.Cutoff, l.Conf.EF, l.Conf.EFMin, l.Conf.EFMax, l.Conf.EFFactor = 0, 0, 500, 500, 8
			for i, n := 0, rapid.IntRange(1, 6).Draw(t, "batches"); i < n; i++ {
				l.Batches = append(l.Batches, rapid.IntRange(1, 30).Draw(t, "batch"))
				l.Full = append(l.Full, rapid.Bool().Draw(t, "full"))
				l.Q = append(l.Q, rapid.IntRange(0, 200).Draw(t, "q"))
			}
			return l
		},
		Check: func(ctx *kit.Ctx, l Layer) error {
			r := newRun(ctx, History{Conf: l.Conf, Dim: l.Dim})
			defer func() { closeIndex(r.ix) }()
			total := 0
			for _, b := range l.Batches {
				total += b
			}
			vecs := kit.ManyVecs(l.Conf.Seed, total, l.Dim, l.Kind)
			next := 0
			for i, b := range l.Batches {
				for j := 0; j < b; j++ {
					kit.SeedGlobalRand(flatSeed(l.Conf.Seed + int64(next)*1000))
					if err := r.step(Op{K: "add", ID: uint64(next), Vec: vecs[next]}); err != nil {
						return err
					}
					next++
				}
				if err := r.flush(); err != nil {
					return err
				}
				q := vecs[l.Q[i]%next]
				ids, ds, err := r.ix.KnnSearchByVectorMaxDist(q, 100, 500, nil)
				if err != nil {
					return fmt.Errorf("search: %v", err)
				}
				if err := r.load(l.Full[i]); err != nil {
					return err
				}
				for id := range r.model {
					_, raw, err := r.kv.KVGet(r.name, fmt.Sprintf("%d", id))
					if err != nil {
						return fmt.Errorf("vector %d is not stored: %v", id, err)
					}
					var n node
					if err := json.Unmarshal(raw, &n); err != nil {
						return fmt.Errorf("stored node %d is broken: %v", id, err)
					}
					if n.Level != 0 {
						ctx.Class("layers")
						return nil
					}
				}
				ids2, ds2, err := r.ix.KnnSearchByVectorMaxDist(q, 100, 500, nil)
				if err != nil {
					return fmt.Errorf("search after loading: %v", err)
				}
				if next > 2*l.Conf.MaxConn+1 {
					ctx.NonTrivial()
					ctx.Class("compared")
				}
				if len(ids) < next {
					ctx.Class("not all reachable")
				}
				if !sameIDs(ids, ids2) || !sameDists(ds, ds2) {
					return fmt.Errorf("round %d: %d of %d vectors are found before, %d after the index is loaded: %v, %v", i, len(ids), next, len(ids2), ids, ids2)
				}
			}
			return nil
		},
	})
}

func sameIDs(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[uint64]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}
