package doc

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"testing"

	"pgregory.net/rapid"
	"verifharness/kit"
)

func hasOp(h History, k string) bool {
	for _, o := range h.Ops {
		if o.K == k {
			return true
		}
	}
	return false
}

func countVecs(h History) int {
	n := 0
	for _, o := range h.Ops {
		for _, d := range o.Docs {
			if d.Vec != nil {
				n++
			}
		}
	}
	return n
}

func TestP01(t *testing.T) {
	kit.Run(t, kit.Prop[History]{
		ID: "P01", Quick: 480, Thorough: 12000,
		Rule: "distinct histories that add at least two vectors and search",
		Gen: func(t *rapid.T) History {
			p := profile{cols: 3, minOps: 4, maxOps: 14, maxBatch: 12, maxVecs: 150, replace: 20, novec: 8, rich: true,
				w: map[string]int{"add": 5, "near": 10, "get": 1, "create": 1, "restart": 1}}
			if rapid.IntRange(0, 4).Draw(t, "big") == 0 {
				p.maxBatch, p.cols = 45, 1
			}
			return genHistory(t, p)
		},
		Check: func(ctx *kit.Ctx, h History) error {
			if countVecs(h) > 1 && hasOp(h, "near") {
				ctx.NonTrivial()
			}
			return exec(ctx, h, false)
		},
	})
}

func TestP02_exact(t *testing.T) {
	kit.Run(t, kit.Prop[History]{
		ID: "P02", Sub: "exact", Quick: 480, Thorough: 12000,
		Rule: "distinct histories that add at least two vectors and search",
		Gen: func(t *rapid.T) History {
			return genHistory(t, profile{cols: 2, minOps: 5, maxOps: 16, maxBatch: rapid.SampledFrom([]int{2, 8, 29}).Draw(t, "mb"), maxVecs: 29, replace: 0, novec: 5,
				w: map[string]int{"add": 4, "near": 12, "restart": 1}})
		},
		Check: func(ctx *kit.Ctx, h History) error {
			if countVecs(h) > 1 && hasOp(h, "near") {
				ctx.NonTrivial()
			}
			return exec(ctx, h, true)
		},
	})
}

// Large is a collection of scattered vectors made from a seed.
type Large struct {
	Seed    int64 `json:"seed"`
	N       int   `json:"n"`
	Dim     int   `json:"dim"`
	Batch   int   `json:"batch"`
	Restart bool  `json:"restart"`
	Rand    int64 `json:"rand"`
	Limit   int   `json:"limit"`
}

func TestP02_recall(t *testing.T) {
	kit.Run(t, kit.Prop[Large]{
		ID: "P02", Sub: "recall", Quick: 40, Thorough: 800,
		Rule: "distinct collections of more than 29 vectors",
		Gen: func(t *rapid.T) Large {
			max := 260
			if kit.Tier() == "thorough" {
				max = 1200
			}
			return Large{
				Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed"), N: kit.Uniform(t, 31, max, "n"),
				Dim: rapid.SampledFrom([]int{4, 8, 16, 24, 33}).Draw(t, "dim"), Batch: rapid.SampledFrom([]int{1 << 20, 64, 23}).Draw(t, "batch"),
				Restart: rapid.Bool().Draw(t, "restart"), Rand: rapid.Int64Range(1, 1<<30).Draw(t, "rand"),
				Limit: rapid.SampledFrom([]int{1, 5, 10, 20}).Draw(t, "limit"),
			}
		},
		Check: checkLarge,
	})
}

// Wide is a collection of more vectors than a search considers by default.
type Wide struct {
	L      Large `json:"l"`
	Limits []int `json:"limits"`
	Far    int   `json:"far"` // the bound is at this rank
}

func TestP02_wide(t *testing.T) {
	kit.Run(t, kit.Prop[Wide]{
		ID: "P02", Sub: "wide", Quick: 16, Thorough: 160, Timeout: 300e9,
		Rule: "distinct collections of more than 800 vectors",
		Gen: func(t *rapid.T) Wide {
			n := rapid.IntRange(795, 1100).Draw(t, "n")
			w := Wide{L: Large{
				Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed"), N: n, Dim: rapid.SampledFrom([]int{4, 6, 8}).Draw(t, "dim"),
				Batch: rapid.SampledFrom([]int{1 << 20, 400, 799}).Draw(t, "batch"), Restart: rapid.Bool().Draw(t, "restart"), Rand: rapid.Int64Range(1, 1<<30).Draw(t, "rand"),
			}, Far: rapid.IntRange(1, n).Draw(t, "far")}
			w.Limits = rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]int{799, 800, 801, 802, n - 1, n, n + 1, 2 * n, 1 << 40}), rapid.IntRange(100, n)), 4, 6).Draw(t, "limits")
			return w
		},
		Check: checkWide,
	})
}

func checkWide(ctx *kit.Ctx, w Wide) error {
	l := w.L
	if l.N > 800 {
		ctx.NonTrivial()
	}
	h, vecs := largeHistory(l)
	r, err := newRun(ctx, h)
	if err != nil {
		return err
	}
	for _, op := range h.Ops {
		if err := r.step(op); err != nil {
			return err
		}
	}
	m := r.cols()["docs"]
	q := kit.ManyVecs(l.Seed+1, 1, l.Dim, 1)[0]
	ds := make([]float64, 0, l.N)
	for _, v := range vecs {
		ds = append(ds, kit.CosDist(q, v))
	}
	sort.Float64s(ds)
	for _, limit := range w.Limits {
		for _, bound := range []float32{3, float32(ds[w.Far-1] + 2*kit.Tol)} {
			docs, dists, err := r.c.GetNearDocumentsByVector("docs", append([]float32{}, q...), bound, limit)
			if err != nil {
				return err
			}
			hits, err := kit.CheckSound(docs, dists, m.docs, q, bound, limit)
			if err != nil {
				return fmt.Errorf("limit %d over %d vectors: %w", limit, l.N, err)
			}
			k := limit
			if bound < 3 && k > w.Far {
				k = w.Far
			}
			if k > l.N {
				k = l.N
			}
			found := 0
			for _, x := range hits {
				if float64(x.Dist) <= ds[k-1]+2*kit.Tol {
					found++
				}
			}
			rec := float64(found) / float64(k)
			ctx.Class("recall %.2f", math.Floor(rec*50)/50)
			if rec < 0.99 || limit >= l.N && bound == 3 && len(hits) < l.N {
				return fmt.Errorf("search with limit %d and bound %v over %d vectors of dimension %d found %d documents, %d of the %d nearest", limit, bound, l.N, l.Dim, len(hits), found, k)
			}
		}
	}
	return nil
}

func largeHistory(l Large) (History, [][]float32) {
	vecs := kit.ManyVecs(l.Seed, l.N, l.Dim, 1)
	h := History{Names: []string{"docs"}, Dims: []int{l.Dim}, Rand: l.Rand}
	h.Ops = append(h.Ops, Op{K: "create"})
	for i := 0; i < l.N; {
		op := Op{K: "add"}
		for len(op.Docs) < l.Batch && i < l.N {
			op.Docs = append(op.Docs, kit.Doc{ID: fmt.Sprintf("d%d", i), Props: map[string]interface{}{"n": float64(i)}, Vec: vecs[i], Form: i % 5})
			i++
		}
		h.Ops = append(h.Ops, op)
	}
	if l.Restart {
		h.Ops = append(h.Ops, Op{K: "restart"})
	}
	return h, vecs
}

func checkLarge(ctx *kit.Ctx, l Large) error {
	if l.N > 29 {
		ctx.NonTrivial()
	}
	h, vecs := largeHistory(l)
	r, err := newRun(ctx, h)
	if err != nil {
		return err
	}
	for _, op := range h.Ops {
		if err := r.step(op); err != nil {
			return err
		}
	}
	m := r.cols()["docs"]
	// recall of random queries
	qs := kit.ManyVecs(l.Seed+1, 40, l.Dim, 1)
	found, want := 0, 0
	for _, q := range qs {
		docs, dists, err := r.c.GetNearDocumentsByVector("docs", q, 3, l.Limit)
		if err != nil {
			return err
		}
		hits, err := kit.CheckSound(docs, dists, m.docs, q, 3, l.Limit)
		if err != nil {
			return err
		}
		ds := make([]float64, 0, l.N)
		for _, v := range vecs {
			ds = append(ds, kit.CosDist(q, v))
		}
		sort.Float64s(ds)
		k := l.Limit
		if k > len(ds) {
			k = len(ds)
		}
		if len(hits) != k {
			return fmt.Errorf("search with limit %d over %d vectors found %d documents", l.Limit, l.N, len(hits))
		}
		want += k
		for _, x := range hits {
			if float64(x.Dist) <= ds[k-1]+2*kit.Tol {
				found++
			}
		}
	}
	rec := float64(found) / float64(want)
	ctx.Class("recall %.2f", math.Floor(rec*100)/100)
	if rec < 0.99 {
		return fmt.Errorf("recall of the %d nearest over %d scattered vectors of dimension %d is %.2f", l.Limit, l.N, l.Dim, rec)
	}
	// every stored document is found by its own vector
	step := l.N/130 + 1
	for i := 0; i < l.N; i += step {
		docs, dists, err := r.c.GetNearDocumentsByVector("docs", vecs[i], 3, 1)
		if err != nil {
			return err
		}
		hits, err := kit.CheckSound(docs, dists, m.docs, vecs[i], 3, 1)
		if err != nil {
			return err
		}
		if len(hits) != 1 || float64(hits[0].Dist) > 2*kit.Tol {
			return fmt.Errorf("document d%d of %d is not found by its own vector: %v", i, l.N, hits)
		}
	}
	return nil
}

func TestP03(t *testing.T) {
	kit.Run(t, kit.Prop[History]{
		ID: "P03", Quick: 600, Thorough: 15000,
		Rule: "distinct histories that add documents and look one up",
		Gen: func(t *rapid.T) History {
			return genHistory(t, profile{cols: 2, minOps: 5, maxOps: 20, maxBatch: 6, maxVecs: 60, maxDim: 4, replace: 0, novec: 40, indexes: true, rich: true,
				w: map[string]int{"add": 5, "get": 14, "restart": 1, "near": 1}})
		},
		Check: func(ctx *kit.Ctx, h History) error {
			if hasOp(h, "get") && hasOp(h, "add") {
				ctx.NonTrivial()
			}
			return exec(ctx, h, true)
		},
	})
}

func TestP04(t *testing.T) {
	kit.Run(t, kit.Prop[History]{
		ID: "P04", Quick: 400, Thorough: 10000,
		Rule: "distinct histories with documents added before a restart",
		Gen: func(t *rapid.T) History {
			p := profile{cols: 3, minOps: 4, maxOps: 16, maxBatch: 9, maxVecs: 29, replace: 15, novec: 10, indexes: true, rich: true,
				w: map[string]int{"add": 6, "near": 3, "get": 2, "create": 1, "delete": 1, "restart": 5, "reopen": 1, "list": 1}}
			if rapid.IntRange(0, 3).Draw(t, "big") == 0 {
				p.maxBatch, p.maxVecs, p.cols = 40, 130, 1
			}
			h := genHistory(t, p)
			h.Ops = append(h.Ops, Op{K: "restart"})
			return h
		},
		Check: checkRestarts,
	})
}

// checkRestarts runs a history, comparing the answers before and after every
// restart, and audits everything in a fresh process at the end.
func checkRestarts(ctx *kit.Ctx, h History) error {
	r, err := newRun(ctx, h)
	if err != nil {
		return err
	}
	added := false
	for i, op := range h.Ops {
		ctx.Class("op:%s", op.K)
		added = added || op.K == "add" && len(op.Docs) > 0
		if op.K != "restart" && op.K != "reopen" {
			if err := r.step(op); err != nil {
				return fmt.Errorf("step %d (%s): %w", i, op.K, err)
			}
			continue
		}
		if added {
			ctx.NonTrivial()
		}
		before, err := r.probe()
		if err != nil {
			return fmt.Errorf("before step %d: %w", i, err)
		}
		if err := r.step(op); err != nil {
			return fmt.Errorf("step %d (%s): %w", i, op.K, err)
		}
		after, err := r.probe()
		if err != nil {
			return fmt.Errorf("after step %d (%s): %w", i, op.K, err)
		}
		for k, b := range before {
			if err := sameAnswer(b, after[k]); err != nil {
				return fmt.Errorf("after step %d (%s), probe %s: %w", i, op.K, k, err)
			}
		}
	}
	return r.audit(true)
}

type answer struct {
	hits  []kit.Hit
	limit int
}

// probe asks a few searches of every collection.
func (r *run) probe() (map[string]answer, error) {
	out := map[string]answer{}
	for name, m := range r.cols() {
		var ids []string
		for id, d := range m.docs {
			if d.Vec != nil {
				ids = append(ids, id)
			}
		}
		if len(ids) == 0 {
			continue
		}
		sort.Strings(ids)
		for k := 0; k < 4; k++ {
			q := m.docs[ids[k*7%len(ids)]].Vec
			limit := []int{0, 1, 5, 0}[k]
			dist := []float32{3, 3, 3, 0.8}[k]
			docs, dists, err := r.c.GetNearDocumentsByVector(name, append([]float32{}, q...), dist, limit)
			if err != nil {
				return nil, fmt.Errorf("search in %q: %w", name, err)
			}
			hits, err := kit.CheckSound(docs, dists, m.docs, q, dist, limit)
			if err != nil {
				return nil, fmt.Errorf("search in %q: %w", name, err)
			}
			out[fmt.Sprintf("%q/%d", name, k)] = answer{hits, limit}
		}
	}
	return out, nil
}

// sameAnswer compares two answers of the same search; documents at the same
// distance may change places, also across the cut.
func sameAnswer(a, b answer) error {
	if len(a.hits) != len(b.hits) {
		return fmt.Errorf("%d results became %d", len(a.hits), len(b.hits))
	}
	in := map[string]float32{}
	for _, x := range a.hits {
		in[x.ID] = x.Dist
	}
	for i := range b.hits {
		if math.Abs(float64(a.hits[i].Dist-b.hits[i].Dist)) > 1e-5 {
			return fmt.Errorf("distance of result %d went from %v to %v", i, a.hits[i].Dist, b.hits[i].Dist)
		}
		if _, ok := in[b.hits[i].ID]; !ok && b.hits[len(b.hits)-1].Dist-b.hits[i].Dist > 2e-5 {
			return fmt.Errorf("document %q was not a result before", b.hits[i].ID)
		}
	}
	return nil
}

// Split is one sequence of documents added in two ways.
type Split struct {
	A History `json:"a"`
	B History `json:"b"`
}

func TestP05(t *testing.T) {
	kit.Run(t, kit.Prop[Split]{
		ID: "P05", Quick: 300, Thorough: 8000,
		Rule: "distinct document sequences of at least two documents that are batched in two different ways",
		Gen:  genSplit,
		Check: func(ctx *kit.Ctx, s Split) error {
			if len(s.A.Ops) != len(s.B.Ops) {
				ctx.NonTrivial()
			}
			if err := exec(ctx, s.A, true); err != nil {
				return fmt.Errorf("first way: %w", err)
			}
			if err := exec(ctx, s.B, true); err != nil {
				return fmt.Errorf("second way: %w", err)
			}
			return nil
		},
	})
}

func genSplit(t *rapid.T) Split {
	p := profile{cols: 1, minOps: 1, maxOps: 1, maxBatch: 29, maxVecs: 29, replace: 25, novec: 5, indexes: true, rich: true,
		w: map[string]int{"add": 1}}
	g := genHistory(t, p)
	var docs []kit.Doc
	var idx map[string]string
	for _, o := range g.Ops {
		if o.K == "create" && idx == nil {
			idx = o.Idx
		}
		if o.K == "add" && o.C == 0 {
			docs = append(docs, o.Docs...)
		}
	}
	names, dims := []string{g.Names[0], "other"}, []int{g.Dims[0], g.Dims[0]}
	mk := func(label string) History {
		h := History{Names: names, Dims: dims, Rand: g.Rand}
		h.Ops = append(h.Ops, Op{K: "create", Idx: idx}, Op{K: "create", C: 1, Idx: map[string]string{}})
		for i := 0; i < len(docs); {
			n := rapid.SampledFrom([]int{1, 1, 2, 3, 7, 100}).Draw(t, label+"n")
			if i+n > len(docs) {
				n = len(docs) - i
			}
			h.Ops = append(h.Ops, Op{K: "add", Docs: docs[i : i+n]})
			i += n
			switch rapid.IntRange(0, 5).Draw(t, label+"between") {
			case 0:
				h.Ops = append(h.Ops, Op{K: "add", C: 1, Docs: []kit.Doc{{ID: docs[0].ID, Props: map[string]interface{}{"o": float64(i)}, Vec: kit.Vec(t, dims[1], 1)}}})
			case 1:
				h.Ops = append(h.Ops, Op{K: "near", Q: kit.Vec(t, dims[0], 1), Dist: 2})
			case 2:
				h.Ops = append(h.Ops, Op{K: "get", P: "id", V: docs[i-1].ID})
			case 3:
				h.Ops = append(h.Ops, Op{K: "restart"})
			}
		}
		return h
	}
	return Split{A: mk("a"), B: mk("b")}
}

// Sized is a collection of scattered vectors that is added in batches of the
// given sizes; some of its documents are added again.
type Sized struct {
	Seed    int64 `json:"seed"`
	Dim     int   `json:"dim"`
	Sizes   []int `json:"sizes"`
	Again   []int `json:"again"`   // sizes of batches that replace documents
	Restart []int `json:"restart"` // after these batches
	Rand    int64 `json:"rand"`
}

func genSized(t *rapid.T) Sized {
	s := Sized{Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed"), Dim: rapid.SampledFrom([]int{4, 6, 8, 16}).Draw(t, "dim"), Rand: rapid.Int64Range(1, 1<<30).Draw(t, "rand")}
	size := func(l string, max int) int {
		if rapid.IntRange(0, 2).Draw(t, l+"round") == 0 {
			return rapid.SampledFrom([]int{1, 16, 31, 32, 33, 50, 63, 64, 65, 96, 100, 127, 128, 129}).Draw(t, l)%max + 1
		}
		return kit.Uniform(t, 1, max, l)
	}
	n := 0
	for i, k := 0, rapid.IntRange(1, 5).Draw(t, "batches"); i < k && n < 260; i++ {
		b := size("size", 140)
		s.Sizes = append(s.Sizes, b)
		n += b
	}
	for i, k := 0, rapid.IntRange(0, 2).Draw(t, "agains"); i < k; i++ {
		s.Again = append(s.Again, size("again", n))
	}
	s.Restart = rapid.SliceOfN(rapid.IntRange(0, 6), 0, 2).Draw(t, "restart")
	return s
}

// TestP05_sizes: batches of many sizes.
func TestP05_sizes(t *testing.T) {
	kit.Run(t, kit.Prop[Sized]{
		ID: "P05", Sub: "sizes", Quick: 64, Thorough: 1600, Timeout: 120e9,
		Rule: "distinct collections of more than 29 vectors",
		Gen:  genSized,
		Check: func(ctx *kit.Ctx, s Sized) error {
			n, more := 0, 0
			for _, b := range s.Sizes {
				n += b
			}
			for _, b := range s.Again {
				more += b
			}
			if n > 29 {
				ctx.NonTrivial()
			}
			vecs := kit.ManyVecs(s.Seed, n+more, s.Dim, 1)
			h := History{Names: []string{"docs"}, Dims: []int{s.Dim}, Rand: s.Rand}
			r, err := newRun(ctx, h)
			if err != nil {
				return err
			}
			step := func(op Op) error {
				if err := r.step(op); err != nil {
					return fmt.Errorf("batches %v, again %v: %w", s.Sizes, s.Again, err)
				}
				return nil
			}
			if err := step(Op{K: "create", Idx: map[string]string{"s": "string"}}); err != nil {
				return err
			}
			order := rand.New(rand.NewSource(s.Seed)).Perm(n)
			at := 0
			for i, b := range append(append([]int{}, s.Sizes...), s.Again...) {
				op := Op{K: "add"}
				for j := 0; j < b; j++ {
					id := at
					if at >= n {
						id = order[(at-n)%n]
					}
					op.Docs = append(op.Docs, kit.Doc{ID: fmt.Sprintf("d%d", id), Props: map[string]interface{}{"s": fmt.Sprintf("w%dx", at), "n": float64(at)}, Vec: vecs[at], Form: at % 5})
					at++
				}
				ctx.Class("batch size %s", bucket(b))
				if err := step(op); err != nil {
					return err
				}
				for _, x := range s.Restart {
					if x == i {
						if err := step(Op{K: "restart"}); err != nil {
							return err
						}
					}
				}
			}
			m := r.cols()["docs"]
			for id, d := range m.docs {
				if err := r.get("docs", m, "id", id); err != nil {
					return fmt.Errorf("batches %v, again %v: %w", s.Sizes, s.Again, err)
				}
				if err := r.get("docs", m, "s", d.Props["s"].(string)); err != nil {
					return fmt.Errorf("batches %v, again %v: %w", s.Sizes, s.Again, err)
				}
			}
			for id, d := range m.docs {
				docs, dists, err := r.c.GetNearDocumentsByVector("docs", d.Vec, 3, 1)
				if err != nil {
					return err
				}
				hits, err := kit.CheckSound(docs, dists, m.docs, d.Vec, 3, 1)
				if err != nil {
					return fmt.Errorf("batches %v, again %v: %w", s.Sizes, s.Again, err)
				}
				if len(hits) != 1 || float64(hits[0].Dist) > 2*kit.Tol {
					return fmt.Errorf("batches %v, again %v: document %s is not found by its own vector: %v", s.Sizes, s.Again, id, hits)
				}
			}
			docs, dists, err := r.c.GetNearDocumentsByVector("docs", vecs[0], 3, 0)
			if err != nil {
				return err
			}
			hits, err := kit.CheckSound(docs, dists, m.docs, vecs[0], 3, 0)
			if err != nil {
				return fmt.Errorf("batches %v, again %v: %w", s.Sizes, s.Again, err)
			}
			if len(hits) != n {
				return fmt.Errorf("batches %v, again %v: a search without bounds finds %d of %d documents", s.Sizes, s.Again, len(hits), n)
			}
			return nil
		},
	})
}

func TestP06(t *testing.T) {
	kit.Run(t, kit.Prop[History]{
		ID: "P06", Quick: 480, Thorough: 12000,
		Rule: "distinct histories that fill one collection and create, delete or re-create another",
		Gen: func(t *rapid.T) History {
			return genHistory(t, profile{cols: 4, minOps: 6, maxOps: 20, maxBatch: 5, maxVecs: 25, maxDim: 8, replace: rapid.SampledFrom([]int{10, 0}).Draw(t, "replace"), novec: 10, indexes: true,
				w: map[string]int{"add": 8, "near": 5, "get": 3, "create": 5, "delete": 4, "list": 4, "restart": 2, "reopen": 1}})
		},
		Check: func(ctx *kit.Ctx, h History) error {
			if len(h.Names) > 1 && hasOp(h, "add") {
				ctx.NonTrivial()
			}
			return exec(ctx, h, true)
		},
	})
}

func TestP06_pods(t *testing.T) {
	kit.Run(t, kit.Prop[History]{
		ID: "P06", Sub: "pods", Quick: 120, Thorough: 3000,
		Rule: "distinct histories that add documents and switch pods",
		Gen: func(t *rapid.T) History {
			h := genHistory(t, profile{cols: 2, minOps: 5, maxOps: 14, maxBatch: 4, maxVecs: 29, maxDim: 4, replace: 0, novec: 10,
				w: map[string]int{"add": 8, "near": 4, "get": 3, "create": 4, "delete": 2, "list": 3, "restart": 1, "pod": 5}})
			return fixPods(h)
		},
		Check: func(ctx *kit.Ctx, h History) error {
			if hasOp(h, "add") && hasOp(h, "pod") {
				ctx.NonTrivial()
			}
			return exec(ctx, h, true)
		},
	})
}

// fixPods makes the documents fit the indexes of the collection in the pod they
// are added in: the generator does not follow pods, so no index is declared and ids are
// not reused.
func fixPods(h History) History {
	for i := range h.Ops {
		if h.Ops[i].K == "create" {
			h.Ops[i].Idx = map[string]string{}
		}
		for j := range h.Ops[i].Docs {
			d := &h.Ops[i].Docs[j]
			d.ID = fmt.Sprintf("%s %d", d.ID, i)
		}
	}
	return h
}
