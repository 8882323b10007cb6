package doc

import (
	"fmt"
	"math"
	"strconv"

	"pgregory.net/rapid"
	"verifharness/kit"
)

// profile shapes the histories of one property.
type profile struct {
	cols     int // number of collection names
	minOps   int
	maxOps   int
	maxBatch int
	maxVecs  int // cap on vectors per collection
	maxDim   int
	w        map[string]int // weights of ops
	indexes  bool           // declare extra indexes
	replace  int            // percent of documents that reuse an id
	novec    int            // percent of documents without a vector
	rich     bool           // arbitrary JSON properties
}

// No name is another one followed by digits: the store mixes up the vector
// tables of such collections (known finding, probed by TestP06_known).
var colNames = []string{"docs", "doc", "docsx", "d", "Docs", "fave_", "fave_docs", "my collection", "a_b", "a", "index"}

var propNames = []string{"title", "tit", "year", "tags", "attrs", "body", "Title", "note"}

type genState struct {
	t      *rapid.T
	p      profile
	h      *History
	exists []bool
	idx    []map[string]string
	ids    [][]string
	vecs   [][][]float32
	kind   []int
	cur    []map[string]kit.Doc // current documents by id
	nextID int
	nextV  int
	stored []int
}

func weighted(t *rapid.T, w map[string]int, order []string) string {
	total := 0
	for _, k := range order {
		total += w[k]
	}
	n := rapid.IntRange(0, total-1).Draw(t, "op")
	for _, k := range order {
		if n < w[k] {
			return k
		}
		n -= w[k]
	}
	return order[0]
}

var opOrder = []string{"add", "near", "get", "create", "list", "restart", "reopen", "delete", "pod"}

func genHistory(t *rapid.T, p profile) History {
	h := &History{Rand: rapid.Int64Range(1, 1<<30).Draw(t, "rand")}
	n := rapid.IntRange(1, p.cols).Draw(t, "cols")
	perm := rapid.Permutation(colNames).Draw(t, "names")
	g := &genState{t: t, p: p, h: h}
	for i := 0; i < n; i++ {
		h.Names = append(h.Names, perm[i])
		d := kit.Dim(t)
		if p.maxDim > 0 && d > p.maxDim {
			d = p.maxDim
		}
		h.Dims = append(h.Dims, d)
		g.exists = append(g.exists, false)
		g.idx = append(g.idx, nil)
		g.ids = append(g.ids, nil)
		g.vecs = append(g.vecs, nil)
		g.stored = append(g.stored, 0)
		g.cur = append(g.cur, map[string]kit.Doc{})
		g.kind = append(g.kind, rapid.IntRange(0, 3).Draw(t, "kind"))
		h.Ops = append(h.Ops, g.create(i))
	}
	if rapid.IntRange(0, 9).Draw(t, "unknown") == 0 {
		// a name that is used without being created
		h.Names = append(h.Names, perm[n])
		h.Dims = append(h.Dims, 3)
		g.exists = append(g.exists, false)
		g.idx = append(g.idx, nil)
		g.ids = append(g.ids, nil)
		g.vecs = append(g.vecs, nil)
		g.stored = append(g.stored, 0)
		g.kind = append(g.kind, 0)
		g.cur = append(g.cur, map[string]kit.Doc{})
		n++
	}
	ops := rapid.IntRange(p.minOps, p.maxOps).Draw(t, "ops")
	for i := 0; i < ops; i++ {
		c := rapid.IntRange(0, n-1).Draw(t, "c")
		k := weighted(t, p.w, opOrder)
		switch k {
		case "add":
			h.Ops = append(h.Ops, g.add(c))
		case "near":
			h.Ops = append(h.Ops, g.near(c))
		case "get":
			h.Ops = append(h.Ops, g.get(c))
		case "create":
			h.Ops = append(h.Ops, g.create(c))
		case "delete":
			h.Ops = append(h.Ops, Op{K: "delete", C: c})
			g.exists[c], g.ids[c], g.vecs[c], g.stored[c], g.cur[c] = false, nil, nil, 0, map[string]kit.Doc{}
		case "pod":
			h.Ops = append(h.Ops, Op{K: "pod"})
		default:
			h.Ops = append(h.Ops, Op{K: k})
		}
	}
	return *h
}

func (g *genState) create(c int) Op {
	idx := map[string]string{}
	if g.p.indexes {
		for _, p := range propNames[:5] {
			if g.p.replace > 0 && (p == "tags" || p == "attrs") {
				// the store never removes list and map entries of a replaced
				// document (known finding)
				continue
			}
			if rapid.IntRange(0, 2).Draw(g.t, "ix") > 0 {
				idx[p] = map[string]string{"title": "string", "tit": "string", "year": "number", "tags": "list", "attrs": "map"}[p]
			}
		}
	} else if rapid.Bool().Draw(g.t, "ixtitle") {
		idx["title"] = "string"
	}
	if !g.exists[c] {
		g.idx[c], g.ids[c], g.vecs[c], g.stored[c], g.cur[c] = idx, nil, nil, 0, map[string]kit.Doc{}
	}
	g.exists[c] = true
	return Op{K: "create", C: c, Idx: idx}
}

// doc draws a document, and tells whether it replaces one.
func (g *genState) doc(c int) (kit.Doc, bool) {
	t := g.t
	d := kit.Doc{Props: map[string]interface{}{}}
	var old *kit.Doc
	if len(g.ids[c]) > 0 && rapid.IntRange(0, 99).Draw(t, "reuse") < g.p.replace {
		d.ID = rapid.SampledFrom(g.ids[c]).Draw(t, "id")
		o := g.cur[c][d.ID]
		old = &o
	}
	// documents without a vector share an index entry in the store, which
	// replacing one of them removes (known finding): they are not replaced
	if old == nil || old.Vec == nil {
		old = nil
		g.nextID++
		switch rapid.IntRange(0, 3).Draw(t, "idkind") {
		case 0:
			d.ID = fmt.Sprintf("%d", g.nextID)
		case 1:
			d.ID = fmt.Sprintf("doc %d", g.nextID)
		case 2:
			d.ID = fmt.Sprintf("aaaaaaaa-0000-4000-8000-%012x", g.nextID)
		default:
			d.ID = fmt.Sprintf("x%d", g.nextID)
		}
		g.ids[c] = append(g.ids[c], d.ID)
	}
	for _, p := range propNames {
		typ, ok := g.idx[c][p]
		if ok {
			switch typ {
			case "string":
				d.Props[p] = kit.Word(t, p)
				if g.p.replace > 0 {
					// replacing a document removes the index entry of its value
					// for all documents (known finding): values are unique
					g.nextV++
					// and none is the beginning of another, or the store cannot
					// remove it (known finding)
					d.Props[p] = fmt.Sprintf("%s %d!", d.Props[p], g.nextV)
					if old != nil && old.Props[p] != nil && rapid.Bool().Draw(t, "keep") {
						d.Props[p] = old.Props[p]
					}
				}
			case "number":
				if g.p.replace > 0 {
					g.nextV++
					d.Props[p] = float64(g.nextV * 3)
					if old != nil && old.Props[p] != nil && rapid.Bool().Draw(t, "keep") {
						d.Props[p] = old.Props[p]
					}
					break
				}
				d.Props[p] = rapid.SampledFrom([]float64{0, 1, 2, 7, 9, 10, 11, 99, 100, 1999, 2023, 65536, 999999, 0.5, 6.5, 7.5, 9.75, 2022.5, -1, -7}).Draw(t, p)
			case "list":
				n := rapid.IntRange(0, 3).Draw(t, p+"n")
				l := []interface{}{}
				seen := map[string]bool{}
				for i := 0; i < n; i++ {
					s := kit.Word(t, p)
					if !seen[s] {
						l = append(l, s)
					}
					seen[s] = true
				}
				d.Props[p] = l
			case "map":
				n := rapid.IntRange(0, 2).Draw(t, p+"n")
				m := map[string]interface{}{}
				for i := 0; i < n; i++ {
					m[rapid.SampledFrom([]string{"color", "size", "col", "s"}).Draw(t, p+"k")] = kit.Word(t, p)
				}
				d.Props[p] = m
			}
		} else if rapid.IntRange(0, 3).Draw(t, "hasprop") == 0 {
			if g.p.rich {
				d.Props[p] = kit.JSONValue(t, p, 2)
			} else {
				d.Props[p] = kit.Text(t, p)
			}
		}
	}
	return d, old != nil
}

func (g *genState) add(c int) Op {
	t := g.t
	n := rapid.IntRange(1, g.p.maxBatch).Draw(t, "batch")
	op := Op{K: "add", C: c}
	for i := 0; i < n; i++ {
		room := g.stored[c] < g.p.maxVecs
		if !room {
			break
		}
		d, replaced := g.doc(c)
		if replaced || rapid.IntRange(0, 99).Draw(t, "novec") >= g.p.novec {
			switch {
			case len(g.vecs[c]) > 0 && rapid.IntRange(0, 7).Draw(t, "dup") == 0:
				d.Vec = append([]float32{}, rapid.SampledFrom(g.vecs[c]).Draw(t, "dupvec")...)
			default:
				d.Vec = kit.Vec(t, g.h.Dims[c], g.kind[c])
			}
			d.Form = rapid.IntRange(0, 4).Draw(t, "form")
			g.vecs[c] = append(g.vecs[c], d.Vec)
			g.stored[c]++
		}
		if rapid.IntRange(0, 7).Draw(t, "known") == 7 {
			d.Stale = rapid.IntRange(1, 3).Draw(t, "stale")
		}
		g.cur[c][d.ID] = d
		op.Docs = append(op.Docs, d)
	}
	return op
}

func (g *genState) near(c int) Op {
	t := g.t
	q := kit.Query(t, g.vecs[c], g.h.Dims[c], g.kind[c])
	dist := rapid.SampledFrom([]float32{-0.5, 0, 1e-4, 0.05, 0.2, 0.4, 0.7, 1, 1.3, 1.7, 2, 3, 100}).Draw(t, "dist")
	limit := rapid.SampledFrom([]int{0, 1, 2, 3, 5, 10, 28, 100, 1000}).Draw(t, "limit")
	return Op{K: "near", C: c, Q: q, Dist: dist, Limit: limit}
}

// value draws a value of the property that a document of the collection has.
func (g *genState) value(c int, p string) string {
	var vs []string
	for _, id := range g.ids[c] {
		switch v := g.cur[c][id].Props[p].(type) {
		case string:
			vs = append(vs, v)
		case float64:
			// one with a fraction cannot be looked up (known finding), and is
			// not to be found by an integer
			vs = append(vs, strconv.FormatFloat(math.Trunc(v), 'f', -1, 64))
		case []interface{}:
			for _, x := range v {
				if s, ok := x.(string); ok {
					vs = append(vs, s)
				}
			}
		case map[string]interface{}:
			for _, k := range []string{"color", "size", "col", "s"} {
				if s, ok := v[k].(string); ok {
					vs = append(vs, k+":"+s)
				}
			}
		}
	}
	if _, ok := g.idx[c][p]; !ok || len(vs) == 0 || rapid.IntRange(0, 3).Draw(g.t, "gx") == 0 {
		return ""
	}
	return rapid.SampledFrom(vs).Draw(g.t, "gpick")
}

func (g *genState) get(c int) Op {
	t := g.t
	op := Op{K: "get", C: c}
	if rapid.IntRange(0, 3).Draw(t, "gk") == 0 {
		op.P = "id"
		if len(g.ids[c]) > 0 && rapid.IntRange(0, 3).Draw(t, "gi") > 0 {
			op.V = rapid.SampledFrom(g.ids[c]).Draw(t, "gid")
			if rapid.IntRange(0, 3).Draw(t, "gn") == 0 {
				op.V = kit.Near(t, "gnear", op.V)
			}
		} else {
			op.V = kit.Word(t, "gid")
		}
		return op
	}
	op.P = rapid.SampledFrom(propNames[:6]).Draw(t, "gp")
	if rapid.IntRange(0, 9).Draw(t, "odd") == 0 {
		// no document has these, and none must be returned for them
		op.V = rapid.SampledFrom([]string{".", ".*", "a.", "a*", "^a", "a|b", "[a-z]+", "(", "al.ha", "x1?", ">a", "<zz", "!a", "=a", "a=b", "=>a", "a=>b", "<=z", "1.5", "-3", "0x7", "7x", "color:", ":", "color:.*", "%", "*"}).Draw(t, "gv")
		return op
	}
	if v := g.value(c, op.P); v != "" {
		op.V = v
		if op.P != "year" && rapid.IntRange(0, 1).Draw(t, "gn") == 0 {
			op.V = kit.Near(t, "gnear", v)
		}
		return op
	}
	switch op.P {
	case "year":
		op.V = fmt.Sprint(rapid.SampledFrom([]int64{0, 1, 3, 7, 10, 100, 1000, 2023, 65536, 999999}).Draw(t, "gv"))
	case "attrs":
		op.V = rapid.SampledFrom([]string{"color", "size", "col", "s"}).Draw(t, "gk") + ":" + kit.Word(t, "gv")
	default:
		op.V = kit.Word(t, "gv")
	}
	return op
}
