package index

import (
	"fmt"
	"math"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"verifharness/kit"
)

// Swarm is an index that does not change while many search it.
type Swarm struct {
	Conf    Conf  `json:"conf"`
	Dim     int   `json:"dim"`
	N       int   `json:"n"`
	Reload  bool  `json:"reload"`
	Asks    []Ask `json:"asks"`
	Callers int   `json:"callers"`
	Rounds  int   `json:"rounds"`
	Dels    []int `json:"dels"`
}

// TestP29_swarm: what a search gives does not depend on who else is searching.
func TestP29_swarm(t *testing.T) {
	kit.Run(t, kit.Prop[Swarm]{
		ID: "P29", Sub: "swarm", Quick: 240, Thorough: 4000, Timeout: 120e9,
		Rule: "callers searched at the same time, with different questions",
		Gen: func(t *rapid.T) Swarm {
			c := Swarm{Conf: genConf(t, rapid.Bool().Draw(t, "tight")), Dim: rapid.SampledFrom([]int{4, 8, 16}).Draw(t, "dim"), N: kit.Uniform(t, 20, 700, "n"),
				Reload: rapid.Bool().Draw(t, "reload"), Callers: kit.Uniform(t, 2, 24, "callers"), Rounds: kit.Uniform(t, 20, 120, "rounds")}
			c.Conf.CacheMax = 1000000
			// without vectors at the same distance, which a search takes in any order
			c.Conf.Metric = rapid.SampledFrom([]string{"cosine", "l2", "dot", "manhattan"}).Draw(t, "metric2")
			c.Dels = rapid.SliceOfNDistinct(rapid.IntRange(0, c.N-1), 0, 6, func(i int) int { return i }).Draw(t, "dels")
			for a := kit.Uniform(t, 2, 12, "asks"); a > 0; a-- {
				k := Ask{K: rapid.SampledFrom([]string{"max", "knn", "dist"}).Draw(t, "k"), At: kit.Uniform(t, 0, c.N-1, "at"),
					N: rapid.SampledFrom([]int{800, 200, 30, 1}).Draw(t, "kn"), Bound: rapid.SampledFrom([]float64{-1, -1, 1.1}).Draw(t, "bound")}
				if rapid.IntRange(0, 3).Draw(t, "filter") == 0 {
					k.IDs = []uint64{}
					step := kit.Uniform(t, 1, 20, "step")
					for i := 0; i < c.N; i += step {
						k.IDs = append(k.IDs, uint64(i))
					}
				}
				c.Asks = append(c.Asks, k)
			}
			return c
		},
		Check: checkSwarm,
	})
}

func checkSwarm(ctx *kit.Ctx, c Swarm) error {
	r := newRun(ctx, History{Conf: c.Conf, Dim: c.Dim})
	defer func() { closeIndex(r.ix) }()
	vecs := kit.ManyVecs(c.Conf.Seed, c.N, c.Dim, 1)
	for i := range vecs {
		if err := r.step(Op{K: "add", ID: uint64(i), Vec: vecs[i]}); err != nil {
			return err
		}
	}
	if err := r.flush(); err != nil {
		return err
	}
	if c.Reload {
		if err := r.load(false); err != nil {
			return err
		}
	}
	for _, d := range c.Dels {
		if uint64(d) == r.ix.Entrypoint() {
			continue
		}
		if err := r.ix.Delete(uint64(d)); err != nil {
			return fmt.Errorf("delete: %v", err)
		}
		delete(r.model, uint64(d))
	}
	ask := func(a Ask) ([]float32, error) {
		q := vecs[a.At]
		allow, am := allowOf(a.IDs)
		s := query{q: q, bound: math.Inf(1), limit: -1, allow: am}
		if a.Bound >= 0 && a.K != "knn" {
			s.bound = a.Bound
		}
		var ids []uint64
		var ds []float32
		var err error
		switch a.K {
		case "knn":
			s.limit = a.N
			ids, ds, err = r.ix.SearchByVector(append([]float32{}, q...), a.N, allow)
		case "dist":
			ids, ds, err = r.ix.SearchByVectorDistance(append([]float32{}, q...), float32(math.Min(s.bound, 1e30)), -1, allow)
		case "max":
			s.limit = a.N
			ids, ds, err = r.ix.KnnSearchByVectorMaxDist(append([]float32{}, q...), float32(math.Min(s.bound, 1e30)), a.N, allow)
		}
		if err != nil {
			return nil, err
		}
		return ds, c.Conf.check(r.model, ids, ds, s)
	}
	alone := make([][]float32, len(c.Asks))
	for i, a := range c.Asks {
		err, _ := kit.Try(func() (err error) { alone[i], err = ask(a); return })
		if err != nil {
			return fmt.Errorf("alone: %s search (%d for %d): %w", a.K, a.At, a.N, err)
		}
	}
	ctx.NonTrivial()
	errs := make([]error, c.Callers)
	var wg sync.WaitGroup
	for w := range errs {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for k := 0; k < c.Rounds; k++ {
				n := (w + k) % len(c.Asks)
				a := c.Asks[n]
				errs[w], _ = kit.Try(func() error {
					ds, err := ask(a)
					if err != nil {
						return err
					}
					if len(ds) != len(alone[n]) {
						return fmt.Errorf("%d results among others, %d alone", len(ds), len(alone[n]))
					}
					for i, d := range ds {
						if d != alone[n][i] {
							return fmt.Errorf("result %d is at %v among others, at %v alone", i, d, alone[n][i])
						}
					}
					return nil
				})
				if errs[w] != nil {
					errs[w] = fmt.Errorf("caller %d of %d, round %d: %s search (%d for %d): %w", w, c.Callers, k, a.K, a.At, a.N, errs[w])
					return
				}
			}
		}(w)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}
