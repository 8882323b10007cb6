package index

import (
	"fmt"
	"math/rand"
	"sort"
	"testing"

	"pgregory.net/rapid"

	"verifharness/kit"
)

// Recall is an index of many vectors.
type Recall struct {
	Conf    Conf  `json:"conf"`
	Dim     int   `json:"dim"`
	N       int   `json:"n"`
	Spread  int   `json:"spread"` // 0: scattered; else so many clusters
	K       int   `json:"k"`
	Reloads []int `json:"reloads"` // after so many additions
	Fresh   bool  `json:"fresh"`   // queries that are not stored vectors
}

// want is the least recall: the links of a node bound it, unchanged code measures more.
func (c Recall) want() float64 {
	switch {
	case c.Conf.MaxConn >= 16:
		return 0.98
	case c.Conf.MaxConn >= 8:
		return 0.95
	case c.Conf.MaxConn >= 6:
		return 0.93
	}
	return 0.88
}

// mayLose is how many vectors may be out of reach from their own position.
func (c Recall) mayLose() int {
	switch {
	case c.Conf.MaxConn >= 16:
		return 1
	case c.Conf.MaxConn >= 8:
		return 5
	case c.Conf.MaxConn >= 6:
		return 8
	}
	return 16
}

// TestP30: nearest neighbours beyond what is exact by construction.
func TestP30(t *testing.T) {
	kit.Run(t, kit.Prop[Recall]{
		ID: "P30", Quick: 960, Thorough: 16000, Timeout: 300e9,
		Rule: "more vectors than links per node on the lowest layer",
		Gen: func(t *rapid.T) Recall {
			c := Recall{Conf: genConf(t, false), Dim: rapid.SampledFrom([]int{2, 3, 4, 8, 16}).Draw(t, "dim"), N: kit.Uniform(t, 30, 500, "n"),
				K: rapid.SampledFrom([]int{1, 5, 10, 20}).Draw(t, "k"), Fresh: rapid.Bool().Draw(t, "fresh")}
			c.Conf.Metric = rapid.SampledFrom([]string{"cosine", "l2", "manhattan"}).Draw(t, "metric2")
			c.Conf.MaxConn = rapid.SampledFrom([]int{4, 6, 8, 16, 30}).Draw(t, "mc2")
			c.Conf.EFC = rapid.SampledFrom([]int{60, 128}).Draw(t, "efc2")
			c.Conf.EF = rapid.SampledFrom([]int{60, 100}).Draw(t, "ef2")
			if rapid.IntRange(0, 2).Draw(t, "clustered") == 0 {
				c.Spread = kit.Uniform(t, 2, 8, "spread")
			}
			c.Reloads = rapid.SliceOfN(rapid.IntRange(1, c.N), 0, 3).Draw(t, "reloads")
			return c
		},
		Check: checkRecall,
	})
}

func (c Recall) vectors() ([][]float32, [][]float32) {
	rnd := rand.New(rand.NewSource(c.Conf.Seed))
	fill := func(v []float32) {
		for i := range v {
			v[i] = float32(rnd.NormFloat64())
		}
	}
	centers := make([][]float32, c.Spread)
	for i := range centers {
		centers[i] = make([]float32, c.Dim)
		fill(centers[i])
	}
	mk := func() []float32 {
		v := make([]float32, c.Dim)
		fill(v)
		if c.Spread > 0 {
			m := centers[rnd.Intn(c.Spread)]
			for i := range v {
				v[i] = m[i] + v[i]*0.1
			}
		}
		return v
	}
	vecs := make([][]float32, c.N)
	for i := range vecs {
		vecs[i] = mk()
	}
	qs := make([][]float32, 40)
	for i := range qs {
		if c.Fresh {
			qs[i] = mk()
		} else {
			qs[i] = vecs[i*c.N/len(qs)]
		}
	}
	return vecs, qs
}

func checkRecall(ctx *kit.Ctx, c Recall) error {
	got, lost, err := c.measure(ctx)
	if err != nil {
		return err
	}
	if c.N > 2*c.Conf.MaxConn {
		ctx.NonTrivial()
	}
	if lost > c.mayLose() {
		return fmt.Errorf("%d of %d vectors are not found by themselves, with %d links per node", lost, c.N, c.Conf.MaxConn)
	}
	if lost > 0 {
		ctx.Class("mc %02d: lost some", c.Conf.MaxConn)
	}
	least := 1.0
	for _, k := range []string{"knn", "max"} {
		if got[k] < least {
			least = got[k]
		}
		if wants := float64(40 * c.K); got[k] < c.want() && got[k]*wants < wants-2.5 {
			return fmt.Errorf("%s searches among %d vectors find %.3f of the %d nearest, should find %.3f", k, c.N, got[k], c.K, c.want())
		}
	}
	switch {
	case least == 1:
		ctx.Class("mc %02d spread %v: recall 1", c.Conf.MaxConn, c.Spread > 0)
	default:
		ctx.Class("mc %02d spread %v: recall %.2f", c.Conf.MaxConn, c.Spread > 0, least)
	}
	return nil
}

// measure builds the index and searches it: the recall per kind of search, and how many vectors do not find themselves.
func (c Recall) measure(ctx *kit.Ctx) (map[string]float64, int, error) {
	r := newRun(ctx, History{Conf: c.Conf, Dim: c.Dim})
	defer func() { closeIndex(r.ix) }()
	vecs, qs := c.vectors()
	for i, v := range vecs {
		if err := r.step(Op{K: "add", ID: uint64(i), Vec: v}); err != nil {
			return nil, 0, err
		}
		for _, at := range c.Reloads {
			if at == i+1 {
				if err := r.flush(); err != nil {
					return nil, 0, err
				}
				if err := r.load(false); err != nil {
					return nil, 0, err
				}
				ctx.Class("reloaded")
				break
			}
		}
	}
	if err := r.flush(); err != nil {
		return nil, 0, err
	}
	hits, wants := map[string]int{}, 0
	for _, q := range qs {
		ds := make([]float64, len(vecs))
		for i, v := range vecs {
			ds[i], _ = c.Conf.dist(q, v)
		}
		sort.Float64s(ds)
		_, tol := c.Conf.dist(q, vecs[0])
		cut := ds[c.K-1] + tol
		wants += c.K
		for _, k := range []string{"knn", "max"} {
			var ids []uint64
			var dd []float32
			var err error
			s := query{q: q, bound: 1e30, limit: c.K}
			if k == "knn" {
				ids, dd, err = r.ix.SearchByVector(append([]float32{}, q...), c.K, nil)
			} else {
				s.limit = c.Conf.EF
				ids, dd, err = r.ix.KnnSearchByVectorMaxDist(append([]float32{}, q...), 1e30, c.Conf.EF, nil)
			}
			if err != nil {
				return nil, 0, fmt.Errorf("%s search: %v", k, err)
			}
			if err := c.Conf.check(r.model, ids, dd, s); err != nil {
				return nil, 0, fmt.Errorf("%s search: %v", k, err)
			}
			for i, d := range dd {
				if i < c.K && float64(d) <= cut {
					hits[k]++
				}
			}
		}
	}
	lost := 0
	for i, v := range vecs {
		ids, _, err := r.ix.SearchByVector(append([]float32{}, v...), 10, nil)
		if err != nil {
			return nil, 0, fmt.Errorf("search: %v", err)
		}
		found := false
		for _, id := range ids {
			found = found || id == uint64(i)
		}
		if !found {
			lost++
		}
	}
	got := map[string]float64{}
	for k, n := range hits {
		got[k] = float64(n) / float64(wants)
	}
	return got, lost, nil
}

// Means is a dozen indices of the same kind.
type Means struct {
	Of   Recall `json:"of"`
	Runs int    `json:"runs"`
}

// TestP30_mean: over many indices with few links the mean moves little.
func TestP30_mean(t *testing.T) {
	kit.Run(t, kit.Prop[Means]{
		ID: "P30", Sub: "mean", Quick: 64, Thorough: 1200, Timeout: 300e9,
		Rule: "more vectors than links per node on the lowest layer",
		Gen: func(t *rapid.T) Means {
			c := Recall{Conf: genConf(t, false), Dim: kit.Uniform(t, 4, 12, "dim"), N: kit.Uniform(t, 250, 400, "n"), K: 10, Fresh: rapid.Bool().Draw(t, "fresh")}
			c.Conf.Metric = rapid.SampledFrom([]string{"cosine", "l2", "manhattan"}).Draw(t, "metric2")
			c.Conf.MaxConn, c.Conf.EFC, c.Conf.EF = 4, 60, 60
			if rapid.IntRange(0, 2).Draw(t, "clustered") == 0 {
				c.Spread = kit.Uniform(t, 2, 8, "spread")
			}
			c.Reloads = rapid.SliceOfN(rapid.IntRange(1, c.N), 0, 2).Draw(t, "reloads")
			return Means{Of: c, Runs: 12}
		},
		Check: func(ctx *kit.Ctx, m Means) error {
			var recalls []float64
			var losses []int
			for i := 0; i < m.Runs; i++ {
				c := m.Of
				c.Conf.Seed += int64(i) * 7919
				got, n, err := c.measure(ctx)
				if err != nil {
					return err
				}
				recalls = append(recalls, (got["knn"]+got["max"])/2)
				losses = append(losses, n)
			}
			ctx.NonTrivial()
			// the two worst do not count: now and then a part of an index is out of reach
			sort.Float64s(recalls)
			sort.Ints(losses)
			mean, lost := 0.0, 0
			for i := 2; i < m.Runs; i++ {
				mean += recalls[i] / float64(m.Runs-2)
				lost += losses[i-2]
			}
			ctx.Class("mean %.3f", mean)
			ctx.Class("lost %d0s", lost/10)
			if mean < 0.98 {
				return fmt.Errorf("%d indices of %d vectors find %.4f of the %d nearest on average, should find 0.98", m.Runs-2, m.Of.N, mean, m.Of.K)
			}
			if lost > 45 {
				return fmt.Errorf("%d indices of %d vectors lose %d of them", m.Runs-2, m.Of.N, lost)
			}
			return nil
		},
	})
}
