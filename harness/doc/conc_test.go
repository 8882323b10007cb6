package doc

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"pgregory.net/rapid"
	"verifharness/kit"
)

// ConcCase is what several callers do at the same time with one client.
type ConcCase struct {
	Dim     int         `json:"dim"`
	Cols    int         `json:"cols"`
	Before  [][]kit.Doc `json:"before"` // per collection
	Restart bool        `json:"restart"`
	Callers [][]ConcOp  `json:"callers"`
	Jitter  uint64      `json:"jitter"`
	Rand    int64       `json:"rand"`
}

// ConcOp is one call.
type ConcOp struct {
	K     string    `json:"k"`
	C     int       `json:"c"`
	Docs  []kit.Doc `json:"docs,omitempty"`
	Q     []float32 `json:"q,omitempty"`
	Limit int       `json:"limit,omitempty"`
	Pick  int       `json:"pick,omitempty"`
}

func genConc(t *rapid.T) ConcCase {
	return genConcOps(t, []string{"add", "add", "near", "near", "get", "getindex", "list"})
}

func genConcOps(t *rapid.T, kinds []string) ConcCase {
	c := ConcCase{Dim: rapid.IntRange(1, 8).Draw(t, "dim"), Cols: rapid.IntRange(1, 3).Draw(t, "cols"), Restart: rapid.Bool().Draw(t, "restart"),
		Jitter: rapid.Uint64Range(0, 1<<40).Draw(t, "jitter"), Rand: rapid.Int64Range(1, 1<<30).Draw(t, "rand")}
	id := 0
	room := make([]int, c.Cols)
	var vecs [][]float32
	mk := func(col int) kit.Doc {
		id++
		d := kit.Doc{ID: fmt.Sprintf("d%d", id), Props: map[string]interface{}{"title": fmt.Sprintf("title %d!", id), "n": float64(id)}}
		if rapid.IntRange(0, 7).Draw(t, "novec") != 5 {
			d.Vec = kit.Vec(t, c.Dim, rapid.IntRange(0, 1).Draw(t, "kind"))
			vecs = append(vecs, d.Vec)
			room[col]--
		}
		return d
	}
	for i := 0; i < c.Cols; i++ {
		room[i] = 28
		var b []kit.Doc
		for n := rapid.IntRange(0, 5).Draw(t, "before"); n > 0; n-- {
			b = append(b, mk(i))
		}
		c.Before = append(c.Before, b)
	}
	for n := rapid.IntRange(2, 6).Draw(t, "callers"); n > 0; n-- {
		var ops []ConcOp
		for k := rapid.IntRange(1, 4).Draw(t, "ops"); k > 0; k-- {
			o := ConcOp{K: rapid.SampledFrom(kinds).Draw(t, "k"), C: rapid.IntRange(0, c.Cols-1).Draw(t, "c"), Pick: rapid.IntRange(0, 1000).Draw(t, "pick")}
			switch o.K {
			case "add":
				for m := rapid.IntRange(1, 3).Draw(t, "batch"); m > 0 && room[o.C] > 0; m-- {
					o.Docs = append(o.Docs, mk(o.C))
				}
				if len(o.Docs) == 0 {
					o.K = "list"
				}
			case "own", "busy":
				for m := rapid.IntRange(1, 3).Draw(t, "batch"); m > 0; m-- {
					d := kit.Doc{ID: fmt.Sprintf("o%d.%d.%d", n, k, m), Props: map[string]interface{}{}, Vec: kit.Vec(t, c.Dim, 1)}
					o.Docs = append(o.Docs, d)
				}
			case "near":
				o.Q = kit.Query(t, vecs, c.Dim, 1)
				o.Limit = rapid.SampledFrom([]int{0, 0, 1, 3, 100}).Draw(t, "limit")
			}
			ops = append(ops, o)
		}
		c.Callers = append(c.Callers, ops)
	}
	return c
}

// added is a document and when it was being added.
type added struct {
	d          kit.Doc
	col        int
	start, end int64 // end 0: not yet
}

type concRun struct {
	c     ConcCase
	cl    *document.Client
	clock atomic.Int64
	mu    sync.Mutex
	docs  map[string]*added
	owns  atomic.Int64
	loose map[string]kit.Doc
}

func colName(i int) string { return []string{"docs", "other", "third"}[i] }

// snapshot returns the documents of a collection whose add had ended at the
// given time, and those whose add has begun.
func (r *concRun) snapshot(col int, at int64) (sure, begun map[string]kit.Doc) {
	sure, begun = map[string]kit.Doc{}, map[string]kit.Doc{}
	r.mu.Lock()
	defer r.mu.Unlock()
	for id, a := range r.docs {
		if a.col != col {
			continue
		}
		begun[id] = a.d
		if a.end != 0 && a.end <= at {
			sure[id] = a.d
		}
	}
	return
}

func (r *concRun) do(o ConcOp) error {
	name := colName(o.C)
	switch o.K {
	case "add":
		r.mu.Lock()
		for _, d := range o.Docs {
			r.docs[d.ID] = &added{d: d, col: o.C, start: r.clock.Add(1)}
		}
		r.mu.Unlock()
		if err := r.cl.AddDocuments(name, nil, kit.BuildAll(o.Docs)...); err != nil {
			return fmt.Errorf("adding %d documents to %q: %w", len(o.Docs), name, err)
		}
		r.mu.Lock()
		for _, d := range o.Docs {
			r.docs[d.ID].end = r.clock.Add(1)
		}
		r.mu.Unlock()
	case "near":
		before := r.clock.Load()
		sure, _ := r.snapshot(o.C, before)
		docs, dists, err := r.cl.GetNearDocumentsByVector(name, o.Q, 3, o.Limit)
		_, begun := r.snapshot(o.C, r.clock.Load())
		vecs := 0
		for _, d := range sure {
			if d.Vec != nil {
				vecs++
			}
		}
		if err != nil {
			if vecs == 0 {
				return nil // nothing to search yet
			}
			return fmt.Errorf("search in %q: %w", name, err)
		}
		hits, err := kit.CheckSound(docs, dists, begun, o.Q, 3, o.Limit)
		if err != nil {
			return fmt.Errorf("search in %q: %w", name, err)
		}
		got := map[string]bool{}
		last := 0.0
		for _, h := range hits {
			got[h.ID] = true
			last = float64(h.Dist)
		}
		for id, d := range sure {
			if d.Vec == nil || got[id] {
				continue
			}
			x := kit.CosDist(o.Q, d.Vec)
			if o.Limit > 0 && len(hits) >= o.Limit && x >= last-2*kit.Tol {
				continue
			}
			return fmt.Errorf("search in %q (limit %d) does not return document %q at distance %v, which was added before; %d results, the last at %v", name, o.Limit, id, x, len(hits), last)
		}
	case "get", "getindex":
		sure, _ := r.snapshot(o.C, r.clock.Load())
		if len(sure) == 0 {
			return nil
		}
		ids := sortedIDs(sure)
		d := sure[ids[o.Pick%len(ids)]]
		prop, value := "id", d.ID
		if o.K == "getindex" {
			prop, value = "title", d.Props["title"].(string)
		}
		raw, err := r.cl.GetDocument(name, prop, value)
		if err != nil {
			return fmt.Errorf("reading document %s=%s of %q: %w", prop, value, name, err)
		}
		return kit.SameContent(raw, d)
	case "list":
		cols, err := r.cl.GetCollections()
		if err != nil {
			return fmt.Errorf("listing: %w", err)
		}
		n := 0
		for _, c := range cols {
			if !strings.HasPrefix(c.Name, "own") {
				n++
			}
		}
		if n != r.c.Cols {
			return fmt.Errorf("%d collections are listed, there are %d", n, r.c.Cols)
		}
	case "create":
		if err := r.create(o.C); err != nil {
			return fmt.Errorf("creating the existing %q: %w", name, err)
		}
	case "own":
		return r.own(o)
	case "busy":
		return r.busy(o)
	}
	return nil
}

func (r *concRun) create(col int) error {
	return r.cl.CreateCollection(&document.Collection{Name: colName(col), Indexes: map[string]collection.IndexType{"title": collection.StringIndex}})
}

// own does everything with a collection that nobody else uses.
func (r *concRun) own(o ConcOp) error {
	name := fmt.Sprintf("own %s", string(rune('a'+r.owns.Add(1))))
	if err := r.cl.CreateCollection(&document.Collection{Name: name}); err != nil {
		return fmt.Errorf("creating %q: %w", name, err)
	}
	if err := r.cl.AddDocuments(name, nil, kit.BuildAll(o.Docs)...); err != nil {
		return fmt.Errorf("adding to %q: %w", name, err)
	}
	want := map[string]kit.Doc{}
	for _, d := range o.Docs {
		want[d.ID] = d
	}
	q := o.Docs[0].Vec
	docs, dists, err := r.cl.GetNearDocumentsByVector(name, q, 3, 0)
	if err != nil {
		return fmt.Errorf("search in %q: %w", name, err)
	}
	hits, err := kit.CheckSound(docs, dists, want, q, 3, 0)
	if err == nil {
		err = kit.CheckExact(hits, want, q, 3, 0)
	}
	if err != nil {
		return fmt.Errorf("search in %q: %w", name, err)
	}
	if o.Pick%2 == 0 {
		return nil
	}
	if err := r.cl.DeleteCollection(name); err != nil {
		return fmt.Errorf("deleting %q: %w", name, err)
	}
	if _, _, err := r.cl.GetNearDocumentsByVector(name, q, 3, 0); err == nil {
		return fmt.Errorf("the deleted %q can be searched", name)
	}
	return nil
}

const busyName = "own busy"

// busy works on a collection that others create and delete: a call may fail,
// but a search that does not is sound.
func (r *concRun) busy(o ConcOp) error {
	r.mu.Lock()
	for _, d := range o.Docs {
		r.loose[d.ID] = d
	}
	r.mu.Unlock()
	switch o.Pick % 4 {
	case 0:
		_ = r.cl.CreateCollection(&document.Collection{Name: busyName})
	case 1:
		_ = r.cl.DeleteCollection(busyName)
	case 2:
		_ = r.cl.AddDocuments(busyName, nil, kit.BuildAll(o.Docs)...)
	default:
		q := o.Docs[0].Vec
		docs, dists, err := r.cl.GetNearDocumentsByVector(busyName, q, 3, 0)
		if err != nil {
			return nil
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		if _, err := kit.CheckSound(docs, dists, r.loose, q, 3, 0); err != nil {
			return fmt.Errorf("search in %q: %w", busyName, err)
		}
	}
	return nil
}

// auditBusy creates the busy collection anew.
func (r *concRun) auditBusy() error {
	if len(r.loose) == 0 {
		return nil
	}
	if err := r.cl.DeleteCollection(busyName); err != nil {
		return fmt.Errorf("deleting %q: %w", busyName, err)
	}
	var q []float32
	for _, d := range r.loose {
		q = d.Vec
	}
	if _, _, err := r.cl.GetNearDocumentsByVector(busyName, q, 3, 0); err == nil {
		return fmt.Errorf("the deleted %q can be searched", busyName)
	}
	if err := r.cl.CreateCollection(&document.Collection{Name: busyName}); err != nil {
		return fmt.Errorf("creating %q again: %w", busyName, err)
	}
	for id := range r.loose {
		if raw, err := r.cl.GetDocument(busyName, "id", id); err == nil {
			return fmt.Errorf("the new %q has the document %s", busyName, raw)
		}
	}
	one := kit.Doc{ID: "one", Props: map[string]interface{}{"x": "y"}, Vec: q}
	if err := r.cl.AddDocuments(busyName, nil, kit.BuildAll([]kit.Doc{one})...); err != nil {
		return fmt.Errorf("adding to the new %q: %w", busyName, err)
	}
	want := map[string]kit.Doc{"one": one}
	docs, dists, err := r.cl.GetNearDocumentsByVector(busyName, q, 3, 0)
	if err != nil {
		return fmt.Errorf("search in the new %q: %w", busyName, err)
	}
	hits, err := kit.CheckSound(docs, dists, want, q, 3, 0)
	if err == nil {
		err = kit.CheckExact(hits, want, q, 3, 0)
	}
	if err != nil {
		return fmt.Errorf("search in the new %q: %w", busyName, err)
	}
	return nil
}

func sortedIDs(m map[string]kit.Doc) []string {
	var ids []string
	for i := 0; i <= 400; i++ {
		if id := fmt.Sprintf("d%d", i); m[id].ID != "" {
			ids = append(ids, id)
		}
	}
	return ids
}

func (r *concRun) audit() error {
	for i := 0; i < r.c.Cols; i++ {
		want, _ := r.snapshot(i, math.MaxInt64)
		q := kit.NonZero(make([]float32, r.c.Dim))
		vecs := 0
		for id, d := range want {
			raw, err := r.cl.GetDocument(colName(i), "id", id)
			if err != nil {
				return fmt.Errorf("document %q of %q: %w", id, colName(i), err)
			}
			if err := kit.SameContent(raw, d); err != nil {
				return err
			}
			if d.Vec != nil {
				q, vecs = d.Vec, vecs+1
			}
		}
		if vecs == 0 {
			continue
		}
		docs, dists, err := r.cl.GetNearDocumentsByVector(colName(i), q, 3, 0)
		if err != nil {
			return fmt.Errorf("search in %q: %w", colName(i), err)
		}
		hits, err := kit.CheckSound(docs, dists, want, q, 3, 0)
		if err == nil {
			err = kit.CheckExact(hits, want, q, 3, 0)
		}
		if err != nil {
			return fmt.Errorf("search in %q: %w", colName(i), err)
		}
	}
	return nil
}

func TestP22(t *testing.T) {
	kit.Run(t, kit.Prop[ConcCase]{
		ID: "P22", Quick: 800, Thorough: 20000,
		Rule:  "distinct cases in which at least two callers add to the same collection, or one adds while another searches it",
		Gen:   genConc,
		Check: checkConc,
	})
}

// TestP22_life: as TestP22, while collections are created, created again and
// deleted.
func TestP22_life(t *testing.T) {
	kit.Run(t, kit.Prop[ConcCase]{
		ID: "P22", Sub: "life", Quick: 400, Thorough: 10000,
		Rule: "distinct cases in which at least two callers add to the same collection, or one adds while another searches it",
		Gen: func(t *rapid.T) ConcCase {
			return genConcOps(t, []string{"add", "add", "add", "near", "near", "get", "list", "create", "create", "own", "busy", "busy"})
		},
		Check: checkConc,
	})
}

func checkConc(ctx *kit.Ctx, c ConcCase) error {
	kit.SeedGlobalRand(c.Rand)
	w := kit.NewWorld()
	cl, err := w.Client()
	if err != nil {
		return err
	}
	r := &concRun{c: c, cl: cl, docs: map[string]*added{}, loose: map[string]kit.Doc{}}
	for i := 0; i < c.Cols; i++ {
		if err := r.create(i); err != nil {
			return err
		}
		if len(c.Before[i]) > 0 {
			if err := r.do(ConcOp{K: "add", C: i, Docs: c.Before[i]}); err != nil {
				return err
			}
		}
	}
	if c.Restart {
		if r.cl, err = w.Client(); err != nil {
			return err
		}
	}
	w.Bee.Jitter(c.Jitter)
	start := make(chan struct{})
	errs := make([]error, len(c.Callers))
	var wg sync.WaitGroup
	for i, ops := range c.Callers {
		wg.Add(1)
		go func(i int, ops []ConcOp) {
			defer wg.Done()
			<-start
			for j, o := range ops {
				err, panicked := kit.Try(func() error { return r.do(o) })
				if err != nil {
					what := "failed"
					if panicked {
						what = "crashed"
					}
					errs[i] = fmt.Errorf("call %d of caller %d %s: %w", j, i, what, err)
					return
				}
			}
		}(i, ops)
	}
	close(start)
	wg.Wait()
	w.Bee.Jitter(0)
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	if err := r.audit(); err != nil {
		return fmt.Errorf("afterwards: %w", err)
	}
	if c.Rand%2 == 0 {
		if err := r.auditBusy(); err != nil {
			return fmt.Errorf("afterwards: %w", err)
		}
	}
	if r.cl, err = w.Client(); err != nil {
		return err
	}
	if c.Rand%2 == 1 {
		if err := r.auditBusy(); err != nil {
			return fmt.Errorf("afterwards, restarted: %w", err)
		}
	}
	if err := r.audit(); err != nil {
		return fmt.Errorf("afterwards, restarted: %w", err)
	}
	adds, others := map[int]int{}, map[int]int{}
	for i, ops := range c.Callers {
		for _, o := range ops {
			if o.K == "add" {
				adds[o.C] |= 1 << i
			} else if o.K == "near" {
				others[o.C] |= 1 << i
			}
		}
	}
	for col, m := range adds {
		if m&(m-1) != 0 || others[col]&^m != 0 {
			ctx.NonTrivial()
		}
	}
	ctx.Class("callers %d", len(c.Callers))
	if c.Restart {
		ctx.Class("first opens race")
	}
	return nil
}
