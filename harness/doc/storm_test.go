package doc

import (
	"fmt"
	"sort"
	"sync"
	"testing"

	"pgregory.net/rapid"
	"verifharness/kit"
)

// Storm is a larger collection that many callers search at the same time,
// while one of them may add to it.
type Storm struct {
	Seed     int64 `json:"seed"`
	N        int   `json:"n"`
	Dim      int   `json:"dim"`
	Workers  int   `json:"workers"`
	Searches int   `json:"searches"`
	Limit    int   `json:"limit"`
	Adds     []int `json:"adds"`
	Restart  bool  `json:"restart"`
	Rand     int64 `json:"rand"`
}

// TestP22_storm: many searches at once.
func TestP22_storm(t *testing.T) {
	kit.Run(t, kit.Prop[Storm]{
		ID: "P22", Sub: "storm", Quick: 120, Thorough: 1200, Timeout: 120e9,
		Rule: "distinct cases of more than 29 vectors",
		Gen: func(t *rapid.T) Storm {
			s := Storm{Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed"), N: kit.Uniform(t, 20, 220, "n"), Dim: rapid.SampledFrom([]int{3, 4, 8}).Draw(t, "dim"),
				Workers: kit.Uniform(t, 4, 16, "workers"), Searches: kit.Uniform(t, 10, 40, "searches"), Limit: rapid.SampledFrom([]int{1, 2, 5}).Draw(t, "limit"),
				Adds: rapid.SliceOfN(rapid.IntRange(1, 8), 0, 3).Draw(t, "adds"), Restart: rapid.Bool().Draw(t, "restart"), Rand: rapid.Int64Range(1, 1<<30).Draw(t, "rand")}
			if rapid.IntRange(0, 2).Draw(t, "large") == 0 {
				s.N, s.Workers, s.Searches, s.Limit = kit.Uniform(t, 300, 700, "n2"), kit.Uniform(t, 12, 30, "workers2"), kit.Uniform(t, 20, 60, "searches2"), 1
			}
			return s
		},
		Check: checkStorm,
	})
}

func checkStorm(ctx *kit.Ctx, s Storm) error {
	if s.N > 29 {
		ctx.NonTrivial()
	}
	more := 0
	for _, n := range s.Adds {
		more += n
	}
	vecs := kit.ManyVecs(s.Seed, s.N+more, s.Dim, 1)
	mk := func(i int) kit.Doc {
		return kit.Doc{ID: fmt.Sprintf("d%d", i), Props: map[string]interface{}{"n": float64(i)}, Vec: vecs[i]}
	}
	r, err := newRun(ctx, History{Names: []string{"docs"}, Dims: []int{s.Dim}, Rand: s.Rand})
	if err != nil {
		return err
	}
	op := Op{K: "add"}
	for i := 0; i < s.N; i++ {
		op.Docs = append(op.Docs, mk(i))
	}
	for _, o := range []Op{{K: "create"}, op} {
		if err := r.step(o); err != nil {
			return err
		}
	}
	if s.Restart {
		if err := r.step(Op{K: "restart"}); err != nil {
			return err
		}
	}
	all := map[string]kit.Doc{}
	for i := range vecs {
		all[mk(i).ID] = mk(i)
	}
	search := func(q []float32, self bool) error {
		docs, dists, err := r.c.GetNearDocumentsByVector("docs", q, 3, s.Limit)
		if err != nil {
			return err
		}
		hits, err := kit.CheckSound(docs, dists, all, q, 3, s.Limit)
		if err != nil {
			return err
		}
		if len(hits) != s.Limit {
			return fmt.Errorf("%d documents are found, the limit is %d", len(hits), s.Limit)
		}
		if self && float64(hits[0].Dist) > 2*kit.Tol {
			return fmt.Errorf("a document is not found by its own vector, the nearest is %q at %v", hits[0].ID, hits[0].Dist)
		}
		ds := make([]float64, s.N)
		for i := range ds {
			ds[i] = kit.CosDist(q, vecs[i])
		}
		sort.Float64s(ds)
		if last := float64(hits[s.Limit-1].Dist); last > ds[s.Limit-1]+2*kit.Tol {
			return fmt.Errorf("the last of the %d nearest is at %v, should be at most %v", s.Limit, last, ds[s.Limit-1])
		}
		return nil
	}
	errs := make([]error, s.Workers+1)
	var wg sync.WaitGroup
	for w := 0; w < s.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for k := 0; k < s.Searches; k++ {
				i := (w*37 + k*11) % s.N
				err, panicked := kit.Try(func() error { return search(vecs[i], true) })
				if err != nil {
					errs[w] = fmt.Errorf("search %d of caller %d (panicked: %v): %w", k, w, panicked, err)
					return
				}
			}
		}(w)
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		at := s.N
		for _, n := range s.Adds {
			var docs []kit.Doc
			for ; n > 0; n-- {
				docs = append(docs, mk(at))
				at++
			}
			err, panicked := kit.Try(func() error { return r.c.AddDocuments("docs", nil, kit.BuildAll(docs)...) })
			if err != nil {
				errs[s.Workers] = fmt.Errorf("adding (panicked: %v): %w", panicked, err)
				return
			}
		}
	}()
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	for i := range vecs {
		if err := search(vecs[i], true); err != nil {
			return fmt.Errorf("afterwards, document d%d: %w", i, err)
		}
	}
	return nil
}
