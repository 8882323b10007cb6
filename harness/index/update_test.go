package index

import (
	"fmt"
	"math"
	"testing"

	"github.com/weaviate/weaviate/entities/schema"
	ent "github.com/weaviate/weaviate/entities/vectorindex/hnsw"
	"pgregory.net/rapid"

	"verifharness/kit"
)

// Update is an index whose settings are changed while it is open.
type Update struct {
	H     History `json:"h"`
	Confs []Conf  `json:"confs"` // one after the other
	Asks  []Op    `json:"asks"`  // after every change
	Bad   []bool  `json:"bad"`   // a change of a wrong type before
}

type updatable interface {
	UpdateUserConfig(updated schema.VectorIndexConfig, callback func()) error
}

type wrongConfig struct{}

func (wrongConfig) IndexType() string { return "wrong" }

// TestP27: settings changed at run time.
func TestP27(t *testing.T) {
	kit.Run(t, kit.Prop[Update]{
		ID: "P27", Quick: 2400, Thorough: 60000,
		Rule: "settings of an index of at least 5 vectors were changed and a search gave results",
		Gen: func(t *rapid.T) Update {
			var u Update
			u.H.Conf = genConf(t, rapid.IntRange(0, 3).Draw(t, "tight") > 0)
			genOps(t, &u.H, rapid.SampledFrom([]int{12, 40, 120}).Draw(t, "max"), []string{"flush"})
			var ids []uint64
			var vecs [][]float32
			for _, o := range u.H.Ops {
				if o.K == "add" {
					ids, vecs = append(ids, o.ID), append(vecs, o.Vec)
				}
			}
			n := rapid.IntRange(1, 3).Draw(t, "changes")
			for i := 0; i < n; i++ {
				c := genConf(t, false)
				c.Metric, c.MaxConn, c.EFC = u.H.Conf.Metric, u.H.Conf.MaxConn, u.H.Conf.EFC
				u.Confs = append(u.Confs, c)
				u.Bad = append(u.Bad, rapid.IntRange(0, 3).Draw(t, "bad") == 0)
			}
			for i := 0; i < 6; i++ {
				u.Asks = append(u.Asks, genOp(t, &u.H, rapid.SampledFrom([]string{"knn", "knn", "knn", "dist", "max"}).Draw(t, "ask"), ids, vecs, 1))
			}
			return u
		},
		Check: checkUpdate,
	})
}

func checkUpdate(ctx *kit.Ctx, u Update) error {
	r := newRun(ctx, u.H)
	defer func() {
		if r.ix != nil {
			closeIndex(r.ix)
		}
	}()
	for i, o := range u.H.Ops {
		if err := r.step(o); err != nil {
			return fmt.Errorf("step %d: %w", i, err)
		}
	}
	if err := r.flush(); err != nil {
		return err
	}
	if err := r.load(false); err != nil {
		return err
	}
	for i, c := range u.Confs {
		calls := 0
		done := func() { calls++ }
		if u.Bad[i] {
			if err := r.ix.(updatable).UpdateUserConfig(wrongConfig{}, done); err == nil {
				return fmt.Errorf("change %d: settings of a wrong type were taken", i)
			}
			if calls != 1 {
				return fmt.Errorf("change %d (refused): %d calls of the callback", i, calls)
			}
			calls = 0
			before := u.H.Conf
			if i > 0 {
				before = u.Confs[i-1]
			}
			if err := sameAnswers(ctx, r, before, u.Asks); err != nil {
				return fmt.Errorf("change %d was refused: %w", i, err)
			}
		}
		e := ent.NewDefaultUserConfig()
		e.MaxConnections, e.EFConstruction, e.EF = c.MaxConn, c.EFC, c.EF
		e.DynamicEFMin, e.DynamicEFMax, e.DynamicEFFactor = c.EFMin, c.EFMax, c.EFFactor
		e.FlatSearchCutoff, e.VectorCacheMaxObjects = c.Cutoff, c.CacheMax
		if err := r.ix.(updatable).UpdateUserConfig(e, done); err != nil {
			return fmt.Errorf("change %d to %+v: %v", i, c, err)
		}
		if calls != 1 {
			return fmt.Errorf("change %d: %d calls of the callback", i, calls)
		}
		if err := sameAnswers(ctx, r, c, u.Asks); err != nil {
			return fmt.Errorf("after change %d to %+v: %w", i, c, err)
		}
	}
	return nil
}

// sameAnswers compares the index with one opened with the settings.
func sameAnswers(ctx *kit.Ctx, r *run, c Conf, asks []Op) error {
	fresh := c.open(r.kv, r.name)
	defer closeIndex(fresh)
	if err := fresh.LoadEntrypoint(); err != nil {
		return fmt.Errorf("load entry point: %v", err)
	}
	if n, err := r.ix.GetDocCount(); err != nil || n != r.count {
		return fmt.Errorf("the count is %d (%v), %d was flushed", n, err, r.count)
	}
	for _, o := range asks {
		allow, _ := allowOf(o.IDs)
		ask := func(ix Index) (ids []uint64, ds []float32, err error) {
			v := append([]float32{}, o.Vec...)
			switch o.K {
			case "knn":
				return ix.SearchByVector(v, o.N, allow)
			case "dist":
				return ix.SearchByVectorDistance(v, float32(r.bound(o)), o.Limit, allow)
			}
			return ix.KnnSearchByVectorMaxDist(v, float32(r.bound(o)), int(math.Max(1, float64(o.N))), allow)
		}
		ids, ds, err := ask(r.ix)
		wids, wds, werr := ask(fresh)
		if err != nil || werr != nil {
			return fmt.Errorf("%s search: %v; opened with the settings: %v", o.K, err, werr)
		}
		if !sameDists(ds, wds) {
			// Among vectors at the same distance, which the search goes on from
			// depends on the order in which its goroutines finish: the answers
			// differ only if no answer of the one is ever given by the other.
			got, want := [][]float32{ds}, [][]float32{wds}
			common := false
			for i := 0; i < 150 && !common; i++ {
				_, a, err := ask(r.ix)
				_, b, werr := ask(fresh)
				if err != nil || werr != nil {
					return fmt.Errorf("%s search: %v; opened with the settings: %v", o.K, err, werr)
				}
				got, want = append(got, a), append(want, b)
				for j := range got {
					common = common || sameDists(got[j], b) || sameDists(a, want[j])
				}
			}
			if !common {
				return fmt.Errorf("%s search (n %d, limit %d, allow %v) gives %v at distances %v; an index opened with the settings gives %v at %v", o.K, o.N, o.Limit, o.IDs, ids, ds, wids, wds)
			}
			ctx.Class("answer depends on the schedule")
		}
		if len(ids) > 0 && len(r.model) >= 5 {
			ctx.NonTrivial()
			ctx.Class("%s with results", o.K)
		}
	}
	return nil
}

func sameDists(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Abs(float64(a[i]-b[i])) > 1e-6*(1+math.Abs(float64(b[i]))) {
			return false
		}
	}
	return true
}
