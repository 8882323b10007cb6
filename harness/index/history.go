package index

import (
	"fmt"
	"math"

	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"pgregory.net/rapid"

	"verifharness/kit"
)

// Op is one step of a history.
type Op struct {
	K     string    `json:"k"` // add, flush, reload, reopen, knn, dist, max, del, self
	ID    uint64    `json:"id,omitempty"`
	Vec   []float32 `json:"vec,omitempty"`
	N     int       `json:"n,omitempty"`
	Bound float64   `json:"bound,omitempty"`
	Rank  int       `json:"rank,omitempty"` // >0: bound is just at the distance of the rank-th nearest
	IDs   []uint64  `json:"ids,omitempty"`
	Limit int64     `json:"limit,omitempty"`
}

// History is a generated case.
type History struct {
	Conf Conf `json:"conf"`
	Dim  int  `json:"dim"`
	Ops  []Op `json:"ops"`
}

type run struct {
	h        History
	ctx      *kit.Ctx
	ix       Index
	kv       *collection.KeyValue
	reopen   func() *collection.KeyValue
	name     string
	stored   map[uint64][]float32 // at the last flush
	model    map[uint64][]float32 // what the open index has
	dead     map[uint64]bool
	count    uint64
	flushed  bool
	reloaded bool
	checkG   bool
}

func newRun(ctx *kit.Ctx, h History) *run {
	r := &run{h: h, ctx: ctx, model: map[uint64][]float32{}, stored: map[uint64][]float32{}, dead: map[uint64]bool{}}
	kit.SeedGlobalRand(h.Conf.Seed)
	r.kv, r.name, r.reopen = table()
	r.ix = h.Conf.open(r.kv, r.name)
	return r
}

func copyModel(m map[uint64][]float32) map[uint64][]float32 {
	o := make(map[uint64][]float32, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (r *run) live() map[uint64][]float32 {
	if len(r.dead) == 0 {
		return r.model
	}
	o := map[uint64][]float32{}
	for k, v := range r.model {
		if !r.dead[k] {
			o[k] = v
		}
	}
	return o
}

// exact tells whether the graph is complete by construction.
func (r *run) exact() bool {
	return len(r.model) < r.h.Conf.MaxConn && len(r.model) <= r.h.Conf.EFC
}

func (r *run) flush() error {
	r.count = uint64(len(r.model))
	if err := r.ix.Flush(r.count); err != nil {
		return fmt.Errorf("flush: %v", err)
	}
	r.flushed = true
	r.stored = copyModel(r.model)
	if n, err := r.ix.GetDocCount(); err != nil || n != r.count {
		return fmt.Errorf("the count is %d (%v) after a flush with %d", n, err, r.count)
	}
	if r.checkG {
		return r.h.Conf.graph(r.kv, r.name, r.model, r.count, r.reloaded)
	}
	return nil
}

func (r *run) load(full bool) error {
	closeIndex(r.ix)
	r.ix = nil
	if full {
		r.kv = r.reopen()
	}
	r.ix = r.h.Conf.open(r.kv, r.name)
	if err := r.ix.LoadEntrypoint(); err != nil {
		return fmt.Errorf("load entry point: %v", err)
	}
	r.model = copyModel(r.stored)
	r.dead = map[uint64]bool{}
	if r.flushed {
		r.reloaded = true
		if n, err := r.ix.GetDocCount(); err != nil || n != r.count {
			return fmt.Errorf("the count is %d (%v) after a reload, %d was flushed", n, err, r.count)
		}
	}
	return nil
}

func (r *run) bound(o Op) float64 {
	if o.Rank <= 0 {
		return o.Bound
	}
	var ds []float64
	for _, v := range r.live() {
		d, _ := r.h.Conf.dist(o.Vec, v)
		ds = append(ds, d)
	}
	if len(ds) == 0 {
		return o.Bound
	}
	for i := range ds {
		for j := i; j > 0 && ds[j] < ds[j-1]; j-- {
			ds[j], ds[j-1] = ds[j-1], ds[j]
		}
	}
	b := ds[(o.Rank-1)%len(ds)]
	return b + o.Bound*1e-3
}

func (r *run) step(o Op) error {
	c := r.h.Conf
	switch o.K {
	case "add":
		if _, ok := r.model[o.ID]; ok || r.dead[o.ID] {
			return nil // the id of a deleted vector is not used again
		}
		v := append([]float32{}, o.Vec...)
		if err := r.ix.ValidateBeforeInsert(v); err != nil {
			return fmt.Errorf("vector %d of the right length refused: %v", o.ID, err)
		}
		if err := r.ix.Add(o.ID, v); err != nil {
			return fmt.Errorf("add %d: %v", o.ID, err)
		}
		for i := range v {
			if v[i] != o.Vec[i] {
				return fmt.Errorf("add changed the caller's vector %v to %v", o.Vec, v)
			}
		}
		r.model[o.ID] = o.Vec
		return nil
	case "flush":
		if len(r.model) == 0 {
			return nil
		}
		return r.flush()
	case "reload":
		return r.load(false)
	case "reopen":
		return r.load(true)
	case "del":
		var ids []uint64
		for _, id := range o.IDs {
			if id != r.ix.Entrypoint() {
				ids = append(ids, id)
			}
		}
		if err := r.ix.Delete(ids...); err != nil {
			return fmt.Errorf("delete %v: %v", ids, err)
		}
		for _, id := range ids {
			r.dead[id] = true
			r.ctx.Class("deleted")
		}
		return nil
	}
	if !r.flushed {
		return nil
	}
	allow, am := allowOf(o.IDs)
	exact := r.exact()
	live := r.live()
	q := query{q: o.Vec, bound: math.Inf(1), limit: -1, allow: am, exact: exact}
	var ids []uint64
	var ds []float32
	var err error
	switch o.K {
	case "knn":
		q.limit = o.N
		if allow != nil && allow.Len() < c.Cutoff {
			q.exact = true
			r.ctx.Class("flat search")
		} else if allow != nil {
			r.ctx.Class("filtered graph search")
		}
		ids, ds, err = r.ix.SearchByVector(append([]float32{}, o.Vec...), o.N, allow)
	case "dist":
		q.bound = r.bound(o)
		if allow != nil && allow.Len() < c.Cutoff {
			q.exact = true
		}
		ids, ds, err = r.ix.SearchByVectorDistance(append([]float32{}, o.Vec...), float32(q.bound), o.Limit, allow)
		if o.Limit >= 0 {
			if int64(len(ids)) > o.Limit {
				return fmt.Errorf("search by distance with limit %d gave %d results", o.Limit, len(ids))
			}
			// the number of candidates grows in steps: 100, 1100, 11100
			reach := 100
			for s := 1000; int64(reach+s) <= o.Limit; s *= 10 {
				reach += s
			}
			if int64(reach) > o.Limit {
				reach = int(o.Limit)
			}
			if err == nil && q.exact {
				q2 := q
				q2.limit = reach
				if len(ids) < reach {
					q2.limit = reach
				} else {
					q2.limit = len(ids)
				}
				if e := c.check(live, ids, ds, q2); e != nil {
					return fmt.Errorf("search by distance %v (limit %d, %d vectors): %v", q.bound, o.Limit, len(live), e)
				}
				q.exact = false
			}
		}
	case "max":
		q.bound = r.bound(o)
		ef := o.N // the breadth of the search, at least 1
		if ef < 1 {
			ef = 1
		}
		q.limit = ef
		ids, ds, err = r.ix.KnnSearchByVectorMaxDist(append([]float32{}, o.Vec...), float32(q.bound), ef, allow)
	}
	if err != nil {
		return fmt.Errorf("%s search: %v", o.K, err)
	}
	if exact && len(live) > 1 && len(ids) > 0 {
		r.ctx.NonTrivial()
	}
	if len(ids) > 0 {
		r.ctx.Class("%s with results", o.K)
	} else {
		r.ctx.Class("%s empty", o.K)
	}
	if e := c.check(live, ids, ds, q); e != nil {
		return fmt.Errorf("%s search (n %d, bound %v, limit %d, allow %v; %d vectors): %v", o.K, o.N, q.bound, o.Limit, o.IDs, len(live), e)
	}
	return nil
}

func (r *run) exec() error {
	defer func() {
		if r.ix != nil {
			closeIndex(r.ix)
		}
	}()
	for i, o := range r.h.Ops {
		if err := r.step(o); err != nil {
			return fmt.Errorf("step %d: %w", i, err)
		}
	}
	return nil
}

// genConf draws a configuration; tight ones have few links.
func genConf(t *rapid.T, tight bool) Conf {
	c := Conf{
		Metric:  rapid.SampledFrom([]string{"cosine", "cosine", "cosine", "l2", "l2", "dot", "manhattan"}).Draw(t, "metric"),
		MaxConn: rapid.SampledFrom([]int{30, 30, 32, 64}).Draw(t, "mc"),
		EFC:     rapid.SampledFrom([]int{60, 60, 128}).Draw(t, "efc"),
		Seed:    rapid.Int64Range(1, 1<<30).Draw(t, "seed"),
	}
	if tight {
		c.MaxConn = rapid.SampledFrom([]int{2, 3, 4, 6, 8, 16}).Draw(t, "mct")
		c.EFC = rapid.SampledFrom([]int{4, 8, 16, 32, 60}).Draw(t, "efct")
	}
	switch rapid.IntRange(0, 2).Draw(t, "efkind") {
	case 1:
		c.EF = rapid.SampledFrom([]int{1, 2, 10, 100}).Draw(t, "ef")
	case 2:
		c.EF = -1
		c.EFMin = rapid.SampledFrom([]int{1, 5, 100}).Draw(t, "efmin")
		c.EFMax = rapid.SampledFrom([]int{5, 10, 500}).Draw(t, "efmax")
		c.EFFactor = rapid.IntRange(1, 8).Draw(t, "eff")
	}
	c.Cutoff = rapid.SampledFrom([]int{0, 0, 3, 10, 40000}).Draw(t, "cutoff")
	c.CacheMax = rapid.SampledFrom([]int{0, 1000000, 1000000, 1}).Draw(t, "cachemax")
	return c
}

func genID(t *rapid.T, ids []uint64, kind int) uint64 {
	n := uint64(len(ids))
	switch kind {
	case 1:
		return rapid.Uint64Range(0, 60).Draw(t, "id")
	case 3: // from anywhere on
		if n == 0 {
			return uint64(kit.Uniform(t, 0, 60000, "first"))
		}
		return ids[n-1] + rapid.SampledFrom([]uint64{1, 1, 1, 1, 2, 3, 500, 12000}).Draw(t, "gap")
	case 2:
		if rapid.Bool().Draw(t, "even") {
			return uint64(kit.Uniform(t, 0, 60000, "id"))
		}
		return rapid.SampledFrom([]uint64{n, 511, 512, 513, 1024, 24999, 25000, 25001, 26999, 27000, 27001, 30000, 52345}).Draw(t, "id")
	}
	return n
}

// genOps draws a history. kinds are the search kinds to draw.
func genOps(t *rapid.T, h *History, maxVecs int, kinds []string) {
	h.Dim = rapid.SampledFrom([]int{1, 2, 3, 4, 5, 8, 9, 16, 17, 33}).Draw(t, "dim")
	if h.Conf.Metric == "cosine" && h.Dim == 1 {
		h.Dim = 2
	}
	vk := rapid.IntRange(0, 2).Draw(t, "veckind")
	idk := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "idkind")
	var ids []uint64
	var vecs [][]float32
	n := rapid.IntRange(1, maxVecs).Draw(t, "n")
	for i := 0; i < n; i++ {
		id := genID(t, ids, idk)
		v := kit.Vec(t, h.Dim, vk)
		h.Ops = append(h.Ops, Op{K: "add", ID: id, Vec: v})
		ids, vecs = append(ids, id), append(vecs, v)
		for rapid.IntRange(0, 9).Draw(t, "more") == 0 {
			k := rapid.SampledFrom(kinds).Draw(t, "kind")
			h.Ops = append(h.Ops, genOp(t, h, k, ids, vecs, vk))
		}
	}
	h.Ops = append(h.Ops, Op{K: "flush"})
	m := rapid.IntRange(1, 6).Draw(t, "tail")
	for i := 0; i < m; i++ {
		k := rapid.SampledFrom(kinds).Draw(t, "kind")
		h.Ops = append(h.Ops, genOp(t, h, k, ids, vecs, vk))
	}
}

func genOp(t *rapid.T, h *History, k string, ids []uint64, vecs [][]float32, vk int) Op {
	o := Op{K: k}
	switch k {
	case "flush", "reload", "reopen", "tick":
		return o
	case "backup":
		o.N = rapid.IntRange(0, 3).Draw(t, "meanwhile")
		return o
	case "del":
		n := rapid.IntRange(1, 4).Draw(t, "ndel")
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 5).Draw(t, "unknown") == 0 {
				o.IDs = append(o.IDs, rapid.Uint64Range(0, 100).Draw(t, "did"))
			} else {
				o.IDs = append(o.IDs, rapid.SampledFrom(ids).Draw(t, "did"))
			}
		}
		return o
	}
	o.Vec = kit.Query(t, vecs, h.Dim, vk)
	switch rapid.IntRange(0, 2).Draw(t, "allowkind") {
	case 1:
		o.IDs = []uint64{}
		for _, id := range ids {
			if rapid.Bool().Draw(t, "in") {
				o.IDs = append(o.IDs, id)
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "stranger") == 0 {
			o.IDs = append(o.IDs, rapid.SampledFrom([]uint64{70, 71, 5000, 70000}).Draw(t, "sid"))
		}
	}
	o.N = rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5, 10, 29, 100}).Draw(t, "k")
	o.Limit = rapid.SampledFrom([]int64{-1, -1, 0, 1, 3, 10, 100, 1100, 100000}).Draw(t, "limit")
	if rapid.IntRange(0, 2).Draw(t, "boundkind") == 0 {
		o.Bound = rapid.SampledFrom([]float64{0, 0.01, 0.3, 0.99, 1.5, 2, 10, 1000, -1}).Draw(t, "bound")
	} else {
		o.Rank = rapid.IntRange(1, 30).Draw(t, "rank")
		o.Bound = rapid.SampledFrom([]float64{0, 1, -1}).Draw(t, "off")
	}
	return o
}
