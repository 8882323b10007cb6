package doc

import (
	"fmt"
	"sort"
	"testing"

	"pgregory.net/rapid"
	"verifharness/kit"
)

// Trouble is an adding of documents during which uploads fail.
type Trouble struct {
	Op    Op        `json:"op"`
	Fresh bool      `json:"fresh"` // in a process that has just started
	After int64     `json:"after"` // how many uploads still work
	Count int64     `json:"count"` // how many uploads fail then, <0: all
	Again []kit.Doc `json:"again"` // other documents, added afterwards
	Kill  bool      `json:"kill"`  // the process ends with the operation
}

// Troubled is a history in quiet times, followed by adding in trouble.
type Troubled struct {
	H   History   `json:"h"`
	Ops []Trouble `json:"ops"`
}

func genTroubled(t *rapid.T) Troubled {
	p := profile{cols: 2, minOps: 2, maxOps: 6, maxBatch: 6, maxVecs: 12, maxDim: 8,
		w: map[string]int{"add": 6, "near": 1, "restart": 1}}
	var c Troubled
	c.H = genHistory(t, p)
	g := &genState{t: t, p: p, h: &c.H, nextID: 1000}
	for i := range c.H.Names {
		g.idx = append(g.idx, map[string]string{})
		g.ids = append(g.ids, nil)
		g.vecs = append(g.vecs, nil)
		g.kind = append(g.kind, 1)
		g.stored = append(g.stored, 0)
		g.cur = append(g.cur, map[string]kit.Doc{})
		for _, o := range c.H.Ops {
			if o.C == i && o.K == "create" && len(g.idx[i]) == 0 {
				g.idx[i] = o.Idx
			}
			for _, d := range o.Docs {
				if o.C == i && d.Vec != nil {
					g.vecs[i] = append(g.vecs[i], d.Vec)
					g.ids[i] = append(g.ids[i], d.ID)
				}
			}
		}
	}
	n := rapid.IntRange(1, 4).Draw(t, "troubles")
	for i := 0; i < n; i++ {
		col := rapid.IntRange(0, len(c.H.Names)-1).Draw(t, "c")
		tr := Trouble{Fresh: rapid.Bool().Draw(t, "fresh"),
			After: int64(rapid.IntRange(0, 60).Draw(t, "after")), Count: rapid.SampledFrom([]int64{1, 1, 2, 5, -1}).Draw(t, "count"),
			Kill: rapid.IntRange(0, 3).Draw(t, "kill") == 0}
		g.p.maxBatch = 4
		g.p.maxVecs = g.stored[col] + 4
		tr.Op = g.add(col)
		if rapid.Bool().Draw(t, "again") {
			g.p.maxVecs = g.stored[col] + 4
			tr.Again = g.add(col).Docs
		}
		c.Ops = append(c.Ops, tr)
	}
	return c
}

// maybe holds the documents of failed adds, per collection.
type maybe map[string]map[string]kit.Doc

func (r *run) auditTroubled(mb maybe) error {
	names := make([]string, 0, len(r.cols()))
	for n := range r.cols() {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		m := r.cols()[n]
		ids := make([]string, 0, len(m.docs))
		for id := range m.docs {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		all := map[string]kit.Doc{}
		for id, d := range m.docs {
			all[id] = d
		}
		for id, d := range mb[n] {
			if _, ok := all[id]; !ok {
				all[id] = d
			}
		}
		for _, id := range ids {
			if err := r.get(n, m, "id", id); err != nil {
				return err
			}
		}
		var q []float32
		for _, id := range ids {
			if m.docs[id].Vec != nil {
				q = m.docs[id].Vec
			}
		}
		if q == nil {
			continue
		}
		docs, dists, err := r.c.GetNearDocumentsByVector(n, append([]float32{}, q...), 3, 0)
		if err != nil {
			return fmt.Errorf("search in %q: %w", n, err)
		}
		if err := soundWith(docs, dists, all, m.docs, q, 3); err != nil {
			return fmt.Errorf("search in %q (%d vectors, %d of failed adds): %w", n, m.vecs, len(mb[n]), err)
		}
	}
	return nil
}

// soundWith checks that a search without limit returns all of the certain
// documents within the bound, and else only possible ones.
func soundWith(docs [][]byte, dists []float32, all, certain map[string]kit.Doc, q []float32, bound float32) error {
	hits, err := kit.CheckSound(docs, dists, all, q, bound, 0)
	if err != nil {
		return err
	}
	got := map[string]bool{}
	for _, h := range hits {
		got[h.ID] = true
	}
	for id, d := range certain {
		if d.Vec == nil || got[id] {
			continue
		}
		if dd := kit.CosDist(q, d.Vec); dd < float64(bound)-1e-3 {
			return fmt.Errorf("%q at distance %v is missing (%d results)", id, dd, len(hits))
		}
	}
	return nil
}

func TestP28(t *testing.T) {
	kit.Run(t, kit.Prop[Troubled]{
		ID: "P28", Quick: 240, Thorough: 6000,
		Rule: "distinct histories in which an upload failed while documents were added",
		Gen:  genTroubled,
		Check: func(ctx *kit.Ctx, c Troubled) error {
			r, err := newRun(ctx, c.H)
			if err != nil {
				return err
			}
			for i, op := range c.H.Ops {
				if err := r.step(op); err != nil {
					return fmt.Errorf("quiet step %d (%s): %w", i, op.K, err)
				}
			}
			mb := maybe{}
			for i, tr := range c.Ops {
				if err := r.troubled(ctx, tr, mb); err != nil {
					return fmt.Errorf("trouble %d (uploads fail after %d for %d, fresh %v): %w", i, tr.After, tr.Count, tr.Fresh, err)
				}
			}
			return nil
		},
	})
}

func (r *run) troubled(ctx *kit.Ctx, tr Trouble, mb maybe) error {
	name := r.h.Names[tr.Op.C]
	m := r.cols()[name]
	if m == nil {
		return nil
	}
	if tr.Fresh {
		c, err := r.w.ClientOn(r.pod)
		if err != nil {
			return fmt.Errorf("restart: %w", err)
		}
		r.c = c
	}
	r.w.Bee.SetFault(tr.After, tr.Count)
	err := r.c.AddDocuments(name, nil, kit.BuildAll(tr.Op.Docs)...)
	failed := r.w.Bee.ClearFault()
	ctx.Class("add: %d+ failures, error %v", min(failed, 2), err != nil)
	if err == nil {
		m.apply(tr.Op.Docs)
	} else {
		if mb[name] == nil {
			mb[name] = map[string]kit.Doc{}
		}
		for _, d := range tr.Op.Docs {
			mb[name][d.ID] = d
		}
	}
	if failed > 0 {
		ctx.NonTrivial()
	}
	if len(tr.Again) > 0 && !tr.Kill {
		if err := r.c.AddDocuments(name, nil, kit.BuildAll(tr.Again)...); err != nil {
			return fmt.Errorf("adding other documents after %d failures: %w", failed, err)
		}
		m.apply(tr.Again)
	}
	if !tr.Kill {
		if err := r.auditTroubled(mb); err != nil {
			return fmt.Errorf("afterwards (%d failures): %w", failed, err)
		}
	}
	c, err := r.w.ClientOn(r.pod)
	if err != nil {
		return fmt.Errorf("restart: %w", err)
	}
	r.c = c
	if len(tr.Again) > 0 && tr.Kill {
		if err := r.c.AddDocuments(name, nil, kit.BuildAll(tr.Again)...); err != nil {
			return fmt.Errorf("adding other documents in a new process after %d failures: %w", failed, err)
		}
		m.apply(tr.Again)
	}
	if err := r.auditTroubled(mb); err != nil {
		return fmt.Errorf("after a restart (%d failures): %w", failed, err)
	}
	return nil
}

// Grown is a collection whose nodes have more neighbours than they link to,
// and adding during which uploads fail.
type Grown struct {
	Seed int64  `json:"seed"`
	N    int    `json:"n"`
	Dim  int    `json:"dim"`
	Kind int    `json:"kind"`
	Ops  []Grow `json:"ops"`
}

// Grow is one call that adds documents.
type Grow struct {
	N       int   `json:"n"`
	After   int64 `json:"after"`
	Count   int64 `json:"count"` // 0: nothing fails
	Restart bool  `json:"restart"`
}

// TestP28_grown: as TestP28, in larger collections.
func TestP28_grown(t *testing.T) {
	kit.Run(t, kit.Prop[Grown]{
		ID: "P28", Sub: "grown", Quick: 48, Thorough: 1600, Timeout: 120e9,
		Rule: "distinct cases in which an upload failed while documents were added to more than 64",
		Gen: func(t *rapid.T) Grown {
			c := Grown{Seed: rapid.Int64Range(1, 1<<30).Draw(t, "seed"), N: rapid.IntRange(62, 130).Draw(t, "n"), Dim: rapid.SampledFrom([]int{3, 8, 16}).Draw(t, "dim"), Kind: rapid.SampledFrom([]int{1, 2}).Draw(t, "kind")}
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "ops"); i < n; i++ {
				o := Grow{N: rapid.IntRange(1, 5).Draw(t, "n"), Restart: rapid.IntRange(0, 2).Draw(t, "restart") == 0}
				if rapid.IntRange(0, 3).Draw(t, "fail") > 0 {
					o.Count = rapid.SampledFrom([]int64{1, 1, 2, 5, -1}).Draw(t, "count")
					o.After = int64(rapid.IntRange(0, 9).Draw(t, "tens")*20 + rapid.IntRange(0, 19).Draw(t, "after"))
				}
				c.Ops = append(c.Ops, o, Grow{N: rapid.IntRange(1, 3).Draw(t, "n2"), Restart: rapid.Bool().Draw(t, "restart2")})
			}
			return c
		},
		Check: func(ctx *kit.Ctx, c Grown) error {
			h := History{Names: []string{"docs"}, Dims: []int{c.Dim}, Rand: c.Seed}
			r, err := newRun(ctx, h)
			if err != nil {
				return err
			}
			if err := r.step(Op{K: "create", Idx: map[string]string{}}); err != nil {
				return err
			}
			total := c.N
			for _, o := range c.Ops {
				total += o.N
			}
			vecs := kit.ManyVecs(c.Seed, total, c.Dim, c.Kind)
			var docs []kit.Doc
			for i, v := range vecs {
				docs = append(docs, kit.Doc{ID: fmt.Sprintf("g%d", i), Props: map[string]interface{}{}, Vec: v})
			}
			m := r.cols()["docs"]
			certain, possible := docs[:0:0], map[string]kit.Doc{}
			add := func(n int) error {
				ds := docs[:n]
				docs = docs[n:]
				for _, d := range ds {
					possible[d.ID] = d
				}
				if err := r.c.AddDocuments("docs", nil, kit.BuildAll(ds)...); err != nil {
					return err
				}
				certain = append(certain, ds...)
				m.apply(ds)
				return nil
			}
			if err := add(c.N); err != nil {
				return err
			}
			for i, o := range c.Ops {
				if o.Count != 0 {
					r.w.Bee.SetFault(o.After, o.Count)
				}
				err := add(o.N)
				failed := r.w.Bee.ClearFault()
				ctx.Class("add: %d+ failures, error %v", min(failed, 2), err != nil)
				if failed > 0 {
					ctx.NonTrivial()
				}
				if err != nil && failed == 0 {
					return fmt.Errorf("call %d: %w", i, err)
				}
				if o.Restart || i == len(c.Ops)-1 {
					if r.c, err = r.w.ClientOn(r.pod); err != nil {
						return fmt.Errorf("restart: %w", err)
					}
				}
				for j, d := range certain {
					if (j+i)%5 != 0 && j < len(certain)-8 {
						continue
					}
					if err := r.get("docs", m, "id", d.ID); err != nil {
						return fmt.Errorf("after call %d: %w", i, err)
					}
				}
				for j := 0; j < 12 && j < len(certain); j++ {
					d := certain[(len(certain)-1-j*7+7*len(certain))%len(certain)]
					got, dists, err := r.c.GetNearDocumentsByVector("docs", append([]float32{}, d.Vec...), 3, 0)
					if err != nil {
						return fmt.Errorf("after call %d: search: %w", i, err)
					}
					if err := soundWith(got, dists, possible, m.docs, d.Vec, 3); err != nil {
						return fmt.Errorf("after call %d: search (%d vectors): %w", i, len(certain), err)
					}
				}
			}
			return nil
		},
	})
}
