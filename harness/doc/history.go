// Package doc checks the document client against a reference model over
// generated histories of calls.
package doc

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"verifharness/kit"
)

// Op is one call of a history.
type Op struct {
	K     string            `json:"k"` // create, delete, add, near, get, list, restart, reopen, pod
	C     int               `json:"c"` // collection number
	Idx   map[string]string `json:"idx,omitempty"`
	Docs  []kit.Doc         `json:"docs,omitempty"`
	Q     []float32         `json:"q,omitempty"`
	Dist  float32           `json:"dist,omitempty"`
	Limit int               `json:"limit,omitempty"`
	P     string            `json:"p,omitempty"`
	V     string            `json:"v,omitempty"`
}

// History is a generated case.
type History struct {
	Names []string `json:"names"`
	Dims  []int    `json:"dims"`
	Ops   []Op     `json:"ops"`
	Rand  int64    `json:"rand"` // seed of the level draws
}

// col is the model of one collection.
type col struct {
	idx  map[string]string
	docs map[string]kit.Doc
	vecs int // vectors ever added (replaced ones stay in the index)
}

// run is the state of one execution.
type run struct {
	ctx   *kit.Ctx
	w     *kit.World
	c     *document.Client
	h     History
	pod   string
	state map[string]map[string]*col // pod -> collection -> model
}

func idxType(s string) collection.IndexType {
	switch s {
	case "number":
		return collection.NumberIndex
	case "list":
		return collection.ListIndex
	case "map":
		return collection.MapIndex
	}
	return collection.StringIndex
}

func (r *run) cols() map[string]*col { return r.state[r.pod] }

func indexes(idx map[string]string) map[string]collection.IndexType {
	m := map[string]collection.IndexType{}
	for k, v := range idx {
		m[k] = idxType(v)
	}
	return m
}

// apply adds a batch to the model.
func (m *col) apply(docs []kit.Doc) {
	for _, d := range docs {
		m.docs[d.ID] = d
		if d.Vec != nil {
			m.vecs++
		}
	}
}

// vectors counts the current documents with a vector.
func (m *col) vectors() int {
	n := 0
	for _, d := range m.docs {
		if d.Vec != nil {
			n++
		}
	}
	return n
}

// newRun starts a history on a fresh world.
func newRun(ctx *kit.Ctx, h History) (*run, error) {
	kit.SeedGlobalRand(h.Rand)
	r := &run{ctx: ctx, w: kit.NewWorld(), h: h, pod: kit.Pod, state: map[string]map[string]*col{kit.Pod: {}}}
	c, err := r.w.Client()
	if err != nil {
		return nil, fmt.Errorf("first start: %w", err)
	}
	r.c = c
	return r, nil
}

// step executes one op and checks its result against the model.
func (r *run) step(op Op) error {
	name := r.h.Names[op.C]
	m := r.cols()[name]
	switch op.K {
	case "create":
		err := r.c.CreateCollection(&document.Collection{Name: name, Indexes: indexes(op.Idx)})
		if err != nil {
			return fmt.Errorf("create collection %q: %w", name, err)
		}
		if m == nil {
			r.cols()[name] = &col{idx: op.Idx, docs: map[string]kit.Doc{}}
		} else {
			r.ctx.Class("create:existing")
		}
	case "delete":
		if err := r.c.DeleteCollection(name); err != nil && m != nil {
			return fmt.Errorf("delete collection %q: %w", name, err)
		}
		delete(r.cols(), name)
	case "add":
		err := r.c.AddDocuments(name, nil, kit.BuildAll(op.Docs)...)
		if m == nil {
			if err == nil {
				return fmt.Errorf("adding to collection %q, which does not exist, was accepted", name)
			}
			r.ctx.Class("add:unknown collection")
			return nil
		}
		if err != nil {
			return fmt.Errorf("add %d documents to %q: %w", len(op.Docs), name, err)
		}
		for _, d := range op.Docs {
			if _, ok := m.docs[d.ID]; ok {
				r.ctx.Class("add:replacement")
			}
		}
		m.apply(op.Docs)
		r.ctx.Class("add:vectors in collection %s", bucket(m.vecs))
	case "near":
		return r.near(name, m, op)
	case "get":
		return r.get(name, m, op.P, op.V)
	case "list":
		return r.list()
	case "restart":
		c, err := r.w.ClientOn(r.pod)
		if err != nil {
			return fmt.Errorf("restart: %w", err)
		}
		r.c = c
	case "reopen":
		if err := r.c.OpenPod(r.pod); err != nil {
			return fmt.Errorf("reopen pod: %w", err)
		}
	case "pod":
		if r.pod == kit.Pod {
			r.pod = "Second"
		} else {
			r.pod = kit.Pod
		}
		if r.state[r.pod] == nil {
			r.state[r.pod] = map[string]*col{}
		}
		if err := r.c.OpenPod(r.pod); err != nil {
			return fmt.Errorf("open pod %s: %w", r.pod, err)
		}
	default:
		kit.Abort(fmt.Errorf("unknown op %q", op.K))
	}
	return nil
}

func bucket(n int) string {
	switch {
	case n == 0:
		return "0"
	case n == 1:
		return "1"
	case n < 10:
		return "2-9"
	case n < 30:
		return "10-29"
	case n < 61:
		return "30-60"
	case n < 200:
		return "61-199"
	}
	return "200+"
}

func (r *run) near(name string, m *col, op Op) error {
	docs, dists, err := r.c.GetNearDocumentsByVector(name, append([]float32{}, op.Q...), op.Dist, op.Limit)
	if m == nil {
		if err == nil {
			return fmt.Errorf("searching collection %q, which does not exist, gave %d results and no error", name, len(docs))
		}
		r.ctx.Class("near:unknown collection")
		return nil
	}
	if m.vecs == 0 {
		if len(docs) != 0 {
			return fmt.Errorf("searching collection %q, which has no vectors, gave %d results", name, len(docs))
		}
		r.ctx.Class("near:no vectors")
		return nil
	}
	if err != nil {
		return fmt.Errorf("search in %q with %d vectors: %w", name, m.vecs, err)
	}
	hits, err := kit.CheckSound(docs, dists, m.docs, op.Q, op.Dist, op.Limit)
	if err != nil {
		return fmt.Errorf("search in %q (distance %v, limit %d): %w", name, op.Dist, op.Limit, err)
	}
	r.ctx.Class("near:results %s", bucket(len(hits)))
	if op.Limit > 0 && len(hits) == op.Limit {
		r.ctx.Class("near:cut by limit")
	}
	if m.vecs <= 29 {
		if err := kit.CheckExact(hits, m.docs, op.Q, op.Dist, op.Limit); err != nil {
			return fmt.Errorf("search in %q (%d vectors): %w", name, m.vecs, err)
		}
		r.ctx.Class("near:exact")
	}
	return nil
}

// has tells whether a document has a value in an indexed property.
func has(d kit.Doc, typ, prop, value string) bool {
	switch v := d.Props[prop].(type) {
	case string:
		return typ == "string" && v == value
	case float64:
		f, err := strconv.ParseFloat(value, 64)
		return typ == "number" && err == nil && f == v
	case []interface{}:
		for _, e := range v {
			if s, ok := e.(string); ok && s == value {
				return true
			}
		}
	case map[string]interface{}:
		for k, e := range v {
			if s, ok := e.(string); ok && k+s == strings.ReplaceAll(value, ":", "") {
				return true
			}
		}
	}
	return false
}

func (r *run) get(name string, m *col, prop, value string) error {
	raw, err := r.c.GetDocument(name, prop, value)
	if m == nil {
		if err == nil {
			return fmt.Errorf("reading from collection %q, which does not exist, gave %s", name, raw)
		}
		r.ctx.Class("get:unknown collection")
		return nil
	}
	typ, indexed := m.idx[prop]
	var want []string
	if prop == "id" {
		indexed = true
		if _, ok := m.docs[value]; ok {
			want = []string{value}
		}
	} else {
		for id, d := range m.docs {
			if has(d, typ, prop, value) {
				want = append(want, id)
			}
		}
	}
	sort.Strings(want)
	if err != nil {
		if indexed && len(want) > 0 {
			return fmt.Errorf("lookup %s=%s in %q failed although %v has it: %w", prop, value, name, want, err)
		}
		r.ctx.Class("get:nothing")
		return nil
	}
	id, ierr := kit.IDOf(raw)
	if ierr != nil {
		return ierr
	}
	for _, w := range want {
		if w == id {
			r.ctx.Class("get:%s", typ)
			return kit.SameContent(raw, m.docs[id])
		}
	}
	return fmt.Errorf("lookup %s=%s in %q returned %s; documents with that value: %v", prop, value, name, raw, want)
}

func (r *run) list() error {
	got, err := r.c.GetCollections()
	if err != nil {
		return fmt.Errorf("list collections: %w", err)
	}
	seen := map[string]bool{}
	for _, g := range got {
		m := r.cols()[g.Name]
		if m == nil {
			return fmt.Errorf("collection %q is listed but was not created or was deleted", g.Name)
		}
		if seen[g.Name] {
			return fmt.Errorf("collection %q is listed twice", g.Name)
		}
		seen[g.Name] = true
		for k, v := range m.idx {
			t, ok := g.Indexes[k]
			if !ok || t != idxType(v) {
				return fmt.Errorf("collection %q lists index %q as %v (present: %v), was declared %s", g.Name, k, t, ok, v)
			}
		}
		for k := range g.Indexes {
			if _, ok := m.idx[k]; !ok && k != "id" && k != "hnswId" {
				return fmt.Errorf("collection %q lists index %q that was not declared", g.Name, k)
			}
		}
	}
	for n := range r.cols() {
		if !seen[n] {
			return fmt.Errorf("collection %q is not listed (%d are)", n, len(got))
		}
	}
	return nil
}

// audit reads everything back through the current client: every document by
// id, every document by a search with its own vector, everything in one search
// without bound.
func (r *run) audit(full bool) error {
	names := make([]string, 0, len(r.cols()))
	for n := range r.cols() {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		m := r.cols()[n]
		ids := make([]string, 0, len(m.docs))
		for id := range m.docs {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		step := 1
		if !full && len(ids) > 12 {
			step = len(ids)/12 + 1
		}
		for i := 0; i < len(ids); i += step {
			d := m.docs[ids[i]]
			if err := r.get(n, m, "id", d.ID); err != nil {
				return err
			}
			if d.Vec != nil {
				if err := r.near(n, m, Op{Q: d.Vec, Dist: 3, Limit: 1 + i%3}); err != nil {
					return err
				}
			}
			for p, typ := range m.idx {
				v, ok := lookupValue(d, typ, p, i)
				if !ok {
					continue
				}
				if err := r.get(n, m, p, v); err != nil {
					return err
				}
			}
		}
		if len(ids) > 0 {
			for _, id := range ids {
				if m.docs[id].Vec != nil {
					if err := r.near(n, m, Op{Q: m.docs[id].Vec, Dist: 3, Limit: 0}); err != nil {
						return err
					}
					break
				}
			}
		}
	}
	return r.list()
}

// lookupValue picks a value of the document that can be looked up.
func lookupValue(d kit.Doc, typ, prop string, i int) (string, bool) {
	switch v := d.Props[prop].(type) {
	case string:
		return v, typ == "string" && v != ""
	case float64:
		// numbers with a fraction cannot be looked up (known finding)
		return strconv.FormatFloat(v, 'f', -1, 64), typ == "number" && v == math.Trunc(v)
	case []interface{}:
		if len(v) == 0 {
			return "", false
		}
		s, ok := v[i%len(v)].(string)
		return s, ok && s != ""
	case map[string]interface{}:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		if len(ks) == 0 {
			return "", false
		}
		sort.Strings(ks)
		k := ks[i%len(ks)]
		s, ok := v[k].(string)
		return k + ":" + s, ok
	}
	return "", false
}

// exec runs a whole history and audits at the end.
func exec(ctx *kit.Ctx, h History, full bool) error {
	r, err := newRun(ctx, h)
	if err != nil {
		return err
	}
	for i, op := range h.Ops {
		ctx.Class("op:%s", op.K)
		if err := r.step(op); err != nil {
			return fmt.Errorf("step %d (%s): %w", i, op.K, err)
		}
	}
	if err := r.audit(full); err != nil {
		return fmt.Errorf("final audit: %w", err)
	}
	return nil
}
