package index

import (
	"fmt"
	"math"
	"sync"
	"sync/atomic"
	"testing"

	"pgregory.net/rapid"

	"verifharness/kit"
)

// Ask is one search a reader repeats.
type Ask struct {
	K     string   `json:"k"` // knn, dist, max
	At    int      `json:"at"`
	N     int      `json:"n"`
	Bound float64  `json:"bound"` // <0: none
	IDs   []uint64 `json:"ids,omitempty"`
}

// Crowd is an index that is searched by many while it is added to.
type Crowd struct {
	Conf    Conf    `json:"conf"`
	Dim     int     `json:"dim"`
	Kind    int     `json:"kind"`
	Init    int     `json:"init"`
	Adds    int     `json:"adds"`
	Flushes []int   `json:"flushes"` // after this many additions
	Dels    []int   `json:"dels"`
	Tight   bool    `json:"tight"`  // few links, but enough to reach nearly everything
	Reload  bool    `json:"reload"` // before the callers start
	Readers [][]Ask `json:"readers"`
}

// TestP29: one writer, one deleter, many readers.
func TestP29(t *testing.T) {
	kit.Run(t, kit.Prop[Crowd]{
		ID: "P29", Quick: 4000, Thorough: 60000, Timeout: 120e9,
		Rule: "a search that overlapped with an addition gave results",
		Gen: func(t *rapid.T) Crowd {
			c := Crowd{Conf: genConf(t, rapid.IntRange(0, 5).Draw(t, "tight") == 0), Dim: rapid.SampledFrom([]int{2, 3, 4, 8, 16}).Draw(t, "dim"),
				Kind: rapid.IntRange(1, 2).Draw(t, "kind"), Init: kit.Uniform(t, 1, 14, "init"), Adds: kit.Uniform(t, 1, 14, "adds")}
			if rapid.IntRange(0, 5).Draw(t, "large") == 0 {
				c.Init, c.Adds = kit.Uniform(t, 10, 80, "init2"), kit.Uniform(t, 10, 80, "adds2")
			}
			c.Flushes = rapid.SliceOfN(rapid.IntRange(1, c.Adds), 0, 2).Draw(t, "flushes")
			if rapid.Bool().Draw(t, "deletes") {
				c.Dels = rapid.SliceOfNDistinct(rapid.IntRange(0, c.Init-1), 0, 4, func(i int) int { return i }).Draw(t, "dels")
			}
			c.Reload = rapid.IntRange(0, 2).Draw(t, "reload") == 0
			n := c.Init + c.Adds
			for r := rapid.IntRange(1, 5).Draw(t, "readers"); r > 0; r-- {
				var asks []Ask
				for a := rapid.IntRange(1, 4).Draw(t, "asks"); a > 0; a-- {
					k := Ask{K: rapid.SampledFrom([]string{"max", "max", "knn", "dist"}).Draw(t, "k"), At: kit.Uniform(t, 0, n-1, "at"),
						N: rapid.SampledFrom([]int{1, 2, 5, 30, 200}).Draw(t, "kn"), Bound: rapid.SampledFrom([]float64{-1, -1, 0.3, 1.1}).Draw(t, "bound")}
					if rapid.IntRange(0, 3).Draw(t, "filter") == 0 {
						k.IDs = []uint64{}
						for i := 0; i < n; i++ {
							if rapid.Bool().Draw(t, "in") {
								k.IDs = append(k.IDs, uint64(i))
							}
						}
					}
					asks = append(asks, k)
				}
				c.Readers = append(c.Readers, asks)
			}
			return c
		},
		Check: checkCrowd,
	})
}

// TestP29_tight: nodes with few links, which are replaced again and again.
func TestP29_tight(t *testing.T) {
	kit.Run(t, kit.Prop[Crowd]{
		ID: "P29", Sub: "tight", Quick: 1200, Thorough: 16000, Timeout: 120e9,
		Rule: "a search that overlapped with an addition gave results",
		Gen: func(t *rapid.T) Crowd {
			c := Crowd{Conf: genConf(t, true), Dim: rapid.SampledFrom([]int{3, 4, 8}).Draw(t, "dim"), Kind: 1, Tight: true,
				Init: kit.Uniform(t, 10, 80, "init"), Adds: kit.Uniform(t, 10, 80, "adds"), Reload: rapid.IntRange(0, 3).Draw(t, "reload") == 0}
			c.Conf.Metric = rapid.SampledFrom([]string{"cosine", "l2"}).Draw(t, "metric2")
			c.Conf.MaxConn, c.Conf.EFC = rapid.SampledFrom([]int{4, 6, 8}).Draw(t, "mc2"), 60
			n := c.Init + c.Adds
			for r := rapid.IntRange(2, 6).Draw(t, "readers"); r > 0; r-- {
				var asks []Ask
				for a := rapid.IntRange(1, 4).Draw(t, "asks"); a > 0; a-- {
					asks = append(asks, Ask{K: rapid.SampledFrom([]string{"max", "max", "knn"}).Draw(t, "k"), At: kit.Uniform(t, 0, n-1, "at"), N: 200, Bound: -1})
				}
				c.Readers = append(c.Readers, asks)
			}
			return c
		},
		Check: checkCrowd,
	})
}

func checkCrowd(ctx *kit.Ctx, c Crowd) error {
	r := newRun(ctx, History{Conf: c.Conf, Dim: c.Dim})
	defer func() { closeIndex(r.ix) }()
	n := c.Init + c.Adds
	vecs := kit.ManyVecs(c.Conf.Seed, n, c.Dim, c.Kind)
	for i := 0; i < c.Init; i++ {
		if err := r.step(Op{K: "add", ID: uint64(i), Vec: vecs[i]}); err != nil {
			return err
		}
	}
	if err := r.flush(); err != nil {
		return err
	}
	if c.Reload {
		ctx.Class("just loaded")
		if err := r.load(false); err != nil {
			return err
		}
	}
	exact := n < c.Conf.MaxConn && n <= c.Conf.EFC
	// begun and done of every addition and deletion, in the order they are made
	var begun, done, delBegun, delDone atomic.Int64
	begun.Store(int64(c.Init))
	done.Store(int64(c.Init))
	var dels []uint64
	for _, d := range c.Dels {
		if uint64(d) != r.ix.Entrypoint() {
			dels = append(dels, uint64(d))
		}
	}
	stop := make(chan struct{})
	var overlaps atomic.Int64
	one := func(a Ask) error {
		q := vecs[a.At]
		allow, am := allowOf(a.IDs)
		s := query{q: q, bound: math.Inf(1), limit: -1, allow: am}
		if a.Bound >= 0 {
			s.bound = a.Bound
		}
		full := exact
		d0, x0 := done.Load(), delDone.Load()
		var ids []uint64
		var ds []float32
		var err error
		switch a.K {
		case "knn":
			s.limit, s.bound = a.N, math.Inf(1)
			full = full || allow != nil && allow.Len() < c.Conf.Cutoff
			ids, ds, err = r.ix.SearchByVector(append([]float32{}, q...), a.N, allow)
		case "dist":
			full = full || allow != nil && allow.Len() < c.Conf.Cutoff
			ids, ds, err = r.ix.SearchByVectorDistance(append([]float32{}, q...), float32(math.Min(s.bound, 1e30)), -1, allow)
		case "max":
			s.limit = a.N
			ids, ds, err = r.ix.KnnSearchByVectorMaxDist(append([]float32{}, q...), float32(math.Min(s.bound, 1e30)), a.N, allow)
		}
		b1, x1 := begun.Load(), delBegun.Load()
		if err != nil {
			return fmt.Errorf("%s search: %v", a.K, err)
		}
		if b1 > d0 && len(ids) > 0 {
			overlaps.Add(1)
		}
		may, must := map[uint64][]float32{}, map[uint64][]float32{}
		for i := int64(0); i < b1; i++ {
			may[uint64(i)] = vecs[i]
			if i < d0 {
				must[uint64(i)] = vecs[i]
			}
		}
		for i, d := range dels {
			if int64(i) < x0 {
				delete(may, d)
			}
			if int64(i) < x1 {
				delete(must, d)
			}
		}
		if err := c.Conf.check(may, ids, ds, s); err != nil {
			return fmt.Errorf("%s search (%+v, %d-%d added, %d-%d deleted): %v", a.K, a, d0, b1, x0, x1, err)
		}
		seen := map[uint64]bool{}
		for _, id := range ids {
			seen[id] = true
		}
		if c.Tight && a.N >= n && s.bound > 1e30 && s.allow == nil {
			found := 0
			for id := range must {
				if seen[id] {
					found++
				}
			}
			// such graphs lose sight of less than one vector in fifty
			if float64(found) < 0.8*float64(len(must)) {
				return fmt.Errorf("%s search (%+v, %d-%d added, %d-%d deleted): found only %d of the %d vectors it reaches", a.K, a, d0, b1, x0, x1, found, len(must))
			}
		}
		if !full {
			return nil
		}
		for id, v := range must {
			if seen[id] || s.allow != nil && !s.allow[id] {
				continue
			}
			d, tol := c.Conf.dist(q, v)
			if d > s.bound-tol {
				continue
			}
			if s.limit >= 0 && len(ids) >= s.limit && (s.limit == 0 || d >= float64(ds[len(ds)-1])-2*tol) {
				continue
			}
			return fmt.Errorf("%s search (%+v, %d-%d added, %d-%d deleted): missed %d at %v, found %v", a.K, a, d0, b1, x0, x1, id, d, ids)
		}
		return nil
	}
	errs := make([]error, len(c.Readers)+2)
	var wg, writers sync.WaitGroup
	for i, asks := range c.Readers {
		wg.Add(1)
		go func(i int, asks []Ask) {
			defer wg.Done()
			for k := 0; ; k++ {
				err, _ := kit.Try(func() error { return one(asks[k%len(asks)]) })
				if err != nil {
					errs[i] = fmt.Errorf("reader %d, round %d: %w", i, k, err)
					return
				}
				select {
				case <-stop:
					return
				default:
				}
			}
		}(i, asks)
	}
	writers.Add(2)
	go func() {
		defer writers.Done()
		errs[len(c.Readers)], _ = kit.Try(func() error {
			for i := 0; i < c.Adds; i++ {
				begun.Add(1)
				id := c.Init + i
				if err := r.ix.Add(uint64(id), append([]float32{}, vecs[id]...)); err != nil {
					return fmt.Errorf("add %d: %v", id, err)
				}
				done.Add(1)
				for _, f := range c.Flushes {
					if f == i+1 {
						if err := r.ix.Flush(uint64(id + 1)); err != nil {
							return fmt.Errorf("flush: %v", err)
						}
					}
				}
			}
			return nil
		})
	}()
	go func() {
		defer writers.Done()
		errs[len(c.Readers)+1], _ = kit.Try(func() error {
			for _, d := range dels {
				delBegun.Add(1)
				if err := r.ix.Delete(d); err != nil {
					return fmt.Errorf("delete %d: %v", d, err)
				}
				delDone.Add(1)
			}
			return nil
		})
	}()
	writers.Wait()
	close(stop)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	if overlaps.Load() > 0 {
		ctx.NonTrivial()
		ctx.Class("searches overlapped with additions")
	}
	if len(dels) > 0 {
		ctx.Class("with deletions")
	}
	audit := func(when string) error {
		for _, asks := range c.Readers {
			for _, a := range asks {
				if err, _ := kit.Try(func() error { return one(a) }); err != nil {
					return fmt.Errorf("%s: %w", when, err)
				}
			}
		}
		for i := 0; (exact || c.Tight) && i < n; i++ {
			if err, _ := kit.Try(func() error { return one(Ask{K: "max", At: i, N: 200, Bound: -1}) }); err != nil {
				return fmt.Errorf("%s: %w", when, err)
			}
		}
		return nil
	}
	if err := audit("afterwards"); err != nil {
		return err
	}
	for i := c.Init; i < n; i++ {
		r.model[uint64(i)] = vecs[i]
	}
	if err := r.flush(); err != nil {
		return err
	}
	if len(dels) == 0 {
		if err := c.Conf.graph(r.kv, r.name, r.model, r.count, c.Reload); err != nil {
			return err
		}
		if err := r.load(false); err != nil {
			return err
		}
		return audit("after a reload")
	}
	return nil
}
