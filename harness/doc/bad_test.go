package doc

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"pgregory.net/rapid"
	"verifharness/kit"
)

// BadDoc is a document, possibly with a defect.
type BadDoc struct {
	kit.Doc
	// Bad names the defect, "" for a good document.
	Bad string `json:"bad,omitempty"`
}

// BadCase is a history of batches with defects.
type BadCase struct {
	Dim     int        `json:"dim"`
	Idx     bool       `json:"idx"` // the collection indexes title (string) and year (number)
	Batches [][]BadDoc `json:"batches"`
	Restart []bool     `json:"restart"`
	Rand    int64      `json:"rand"`
}

var defects = []string{"nil", "vecstring", "vecmap", "vecelem", "vecnull", "vecdim", "vecempty", "vecnan", "vecinf", "noindex", "wrongtype", "numtype", "nan", "noid",
	"textnumber", kit.WordFail, kit.WordBad, kit.WordDim, kit.WordDrop, kit.WordEmpty}

func genBad(t *rapid.T) BadCase {
	c := BadCase{Dim: rapid.IntRange(2, 9).Draw(t, "dim"), Idx: rapid.Bool().Draw(t, "idx"), Rand: rapid.Int64Range(1, 1<<30).Draw(t, "rand")}
	n := rapid.IntRange(1, 5).Draw(t, "batches")
	id, vecs := 0, 0
	for i := 0; i < n; i++ {
		var batch []BadDoc
		k := rapid.IntRange(1, 6).Draw(t, "batch")
		for j := 0; j < k && vecs < 28; j++ {
			id++
			d := BadDoc{Doc: kit.Doc{ID: fmt.Sprintf("b%d", id), Props: map[string]interface{}{"n": float64(id)}}}
			if c.Idx {
				d.Props["title"] = fmt.Sprintf("%s %d", kit.Word(t, "title"), id)
				d.Props["year"] = float64(1900 + id)
			}
			switch rapid.IntRange(0, 5).Draw(t, "how") {
			case 0:
				d.Props["text"] = sentence(t, "text")
			case 1:
				// neither vector nor text
			default:
				d.Vec = kit.Vec(t, c.Dim, rapid.IntRange(0, 1).Draw(t, "vk"))
				d.Form = rapid.IntRange(0, 4).Draw(t, "form")
			}
			if rapid.IntRange(0, 3).Draw(t, "isbad") == 0 {
				d.Bad = rapid.SampledFrom(defects).Draw(t, "bad")
				switch d.Bad {
				case "noindex", "wrongtype", "numtype":
					if !c.Idx {
						d.Bad = "vecstring"
					}
				case "vecdim", "vecempty":
					if vecs == 0 {
						// the first vector decides the dimension
						d.Bad = "vecelem"
					}
				case "nan":
				case "noid":
				case kit.WordDim:
					if vecs == 0 {
						d.Bad = kit.WordFail
					}
				}
				switch d.Bad {
				case kit.WordFail, kit.WordBad, kit.WordDim, kit.WordDrop, kit.WordEmpty:
					d.Vec = nil
					d.Props["text"] = sentence(t, "text") + " " + d.Bad
				case "textnumber":
					d.Vec = nil
					d.Props["text"] = float64(7)
				case "vecstring", "vecmap", "vecelem", "vecnull", "vecdim", "vecempty", "vecnan", "vecinf":
					d.Vec = nil
				}
			}
			if d.Bad == "" && (d.Vec != nil || d.Props["text"] != nil) {
				vecs++
			}
			batch = append(batch, d)
		}
		if len(batch) > 0 {
			c.Batches = append(c.Batches, batch)
			c.Restart = append(c.Restart, rapid.IntRange(0, 3).Draw(t, "restart") == 0)
		}
	}
	return c
}

// build makes the document with its defect.
func (d BadDoc) build(dim int) *document.Document {
	doc := d.Build()
	switch d.Bad {
	case "nil":
		return nil
	case "vecstring":
		doc.Properties["vector"] = "1,2,3"
	case "vecmap":
		doc.Properties["vector"] = map[string]interface{}{"0": 1.0}
	case "vecelem":
		l := kit.VecValue(make([]float32, dim), 1).([]interface{})
		l[dim-1] = "x"
		doc.Properties["vector"] = l
	case "vecnull":
		l := kit.VecValue(make([]float32, dim), 1).([]interface{})
		l[0] = nil
		doc.Properties["vector"] = l
	case "vecdim":
		v := make([]float32, dim+1)
		v[0] = 1
		doc.Properties["vector"] = kit.VecValue(v, d.Form)
	case "vecnan", "vecinf":
		v := make([]float32, dim)
		v[0] = 1
		v[dim-1] = float32(math.NaN())
		if d.Bad == "vecinf" {
			v[dim-1] = float32(math.Inf(1 - 2*(d.Form%2)))
		}
		if d.Form == 0 {
			doc.Properties["vector"] = v
		} else {
			doc.Properties["vector"] = kit.VecValue(v, 1)
		}
	case "vecempty":
		doc.Properties["vector"] = kit.VecValue([]float32{}, d.Form)
	case "noindex":
		delete(doc.Properties, "title")
	case "wrongtype":
		doc.Properties["title"] = []interface{}{"x"}
	case "numtype":
		doc.Properties["year"] = "later"
	case "nan":
		doc.Properties["score"] = math.NaN()
	case "noid":
		doc.ID = ""
	}
	return doc
}

func TestP07(t *testing.T) {
	kit.Run(t, kit.Prop[BadCase]{
		ID: "P07", Quick: 480, Thorough: 12000,
		Rule: "distinct histories with at least one document that cannot be added and at least one good document with a vector",
		Gen:  genBad,
		Check: func(ctx *kit.Ctx, c BadCase) error {
			f := kit.NewFakeVectorizer(c.Dim)
			defer f.Close()
			kit.SeedGlobalRand(c.Rand)
			w := kit.NewWorld()
			w.VectorizerURL = f.URL()
			cl, err := w.Client()
			if err != nil {
				return err
			}
			col := &document.Collection{Name: "docs"}
			if c.Idx {
				col.Indexes = indexes(map[string]string{"title": "string", "year": "number"})
			}
			if err := cl.CreateCollection(col); err != nil {
				return err
			}
			good, maybe := map[string]kit.Doc{}, map[string]kit.Doc{}
			bads := 0
			for i, batch := range c.Batches {
				var docs []*document.Document
				var kinds []string
				for _, d := range batch {
					docs = append(docs, d.build(c.Dim))
					if d.Bad != "" {
						kinds = append(kinds, d.Bad)
						ctx.Class("defect:%s", d.Bad)
					}
				}
				err := cl.AddDocuments("docs", []string{"text"}, docs...)
				if len(kinds) > 0 && err == nil {
					return fmt.Errorf("batch %d with documents that cannot be added (%v) was accepted", i, kinds)
				}
				if len(kinds) == 0 && err != nil {
					return fmt.Errorf("batch %d of good documents was refused: %w", i, err)
				}
				for _, d := range batch {
					e := d.Doc
					if words := textOf(e, []string{"text"}); e.Vec == nil && len(words) > 0 {
						e.Vec = kit.TextVec(words, c.Dim)
					}
					if d.Bad == "" {
						good[e.ID] = e
						continue
					}
					bads++
					maybe[e.ID] = BadDoc{Doc: e, Bad: d.Bad}.stored()
				}
				if c.Restart[i] {
					if cl, err = w.Client(); err != nil {
						return fmt.Errorf("restart: %w", err)
					}
				}
				if err := auditBad(ctx, cl, c, good, maybe); err != nil {
					return fmt.Errorf("after batch %d: %w", i, err)
				}
			}
			if cl, err = w.Client(); err != nil {
				return fmt.Errorf("restart: %w", err)
			}
			if err := auditBad(ctx, cl, c, good, maybe); err != nil {
				return fmt.Errorf("after the final restart: %w", err)
			}
			for _, d := range good {
				if d.Vec != nil && bads > 0 {
					ctx.NonTrivial()
				}
			}
			return nil
		},
	})
}

// stored is the content a document with a defect would have if it was stored
// after all.
func (d BadDoc) stored() kit.Doc {
	e := d.Doc
	p, _ := kit.Clone(e.Props).(map[string]interface{})
	switch d.Bad {
	case "noindex":
		delete(p, "title")
	case "wrongtype":
		p["title"] = []interface{}{"x"}
	case "numtype":
		p["year"] = "later"
	}
	e.Props = p
	return e
}

func auditBad(ctx *kit.Ctx, cl *document.Client, c BadCase, good, maybe map[string]kit.Doc) error {
	all := map[string]kit.Doc{}
	var ids []string
	vecs := 0
	for id, d := range maybe {
		all[id] = d
	}
	for id, d := range good {
		all[id] = d
		ids = append(ids, id)
		if d.Vec != nil {
			vecs++
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		d := good[id]
		raw, err := cl.GetDocument("docs", "id", id)
		if err != nil {
			return fmt.Errorf("good document %q is not stored: %w", id, err)
		}
		if err := kit.SameContent(raw, d); err != nil {
			return err
		}
		if c.Idx {
			for _, p := range []string{"title", "year"} {
				raw, err := cl.GetDocument("docs", p, fmt.Sprint(d.Props[p]))
				if err != nil {
					return fmt.Errorf("good document %q is not found by %s=%v: %w", id, p, d.Props[p], err)
				}
				if err := kit.SameContent(raw, d); err != nil {
					return fmt.Errorf("lookup by %s: %w", p, err)
				}
			}
		}
	}
	if vecs == 0 {
		return nil
	}
	for i, id := range ids {
		q := good[id].Vec
		if q == nil {
			q = kit.ManyVecs(int64(i), 1, c.Dim, 1)[0]
		}
		docs, dists, err := cl.GetNearDocumentsByVector("docs", append([]float32{}, q...), 3, 0)
		if err != nil {
			return fmt.Errorf("search over %d good vectors: %w", vecs, err)
		}
		hits, err := kit.CheckSound(docs, dists, all, q, 3, 0)
		if err != nil {
			return err
		}
		// documents with a defect do not count
		n := 0
		for _, h := range hits {
			if _, ok := good[h.ID]; ok {
				n++
			}
		}
		if n != vecs {
			return fmt.Errorf("search without bound finds %d of %d good documents with a vector", n, vecs)
		}
	}
	return nil
}
