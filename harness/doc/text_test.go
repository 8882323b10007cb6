package doc

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"pgregory.net/rapid"
	"verifharness/kit"
)

// TextCase is a history of text documents and text searches.
type TextCase struct {
	Dim  int      `json:"dim"`
	Ops  []TextOp `json:"ops"`
	Rand int64    `json:"rand"`
}

// TextOp adds documents (with the properties to vectorize) or searches a text.
type TextOp struct {
	K     string    `json:"k"`
	Props []string  `json:"props,omitempty"`
	Docs  []kit.Doc `json:"docs,omitempty"`
	Text  string    `json:"text,omitempty"`
	Dist  float32   `json:"dist,omitempty"`
	Limit int       `json:"limit,omitempty"`
}

var textWords = []string{"red", "fox", "jumps", "over", "lazy", "dog", "blue", "sky", "Fox", "Ünï", "42", "a", "the"}

func sentence(t *rapid.T, label string) string {
	n := rapid.IntRange(1, 4).Draw(t, label+"n")
	var w []string
	for i := 0; i < n; i++ {
		w = append(w, rapid.SampledFrom(textWords).Draw(t, label))
	}
	s := strings.Join(w, rapid.SampledFrom([]string{" ", " ", "  ", "\n", "\t"}).Draw(t, label+"sep"))
	switch rapid.IntRange(0, 7).Draw(t, label+"pad") {
	case 1:
		s = " " + s
	case 2:
		s += "\n"
	}
	return s
}

func genText(t *rapid.T) TextCase {
	c := TextCase{Dim: rapid.SampledFrom([]int{3, 5, 8, 16}).Draw(t, "dim"), Rand: rapid.Int64Range(1, 1<<30).Draw(t, "rand")}
	n := rapid.IntRange(2, 9).Draw(t, "ops")
	id, vecs := 0, 0
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 4).Draw(t, "k") {
		case 0, 1:
			op := TextOp{K: "add"}
			props := rapid.Permutation([]string{"title", "body", "note", "missing"}).Draw(t, "props")
			op.Props = append([]string{}, props[:rapid.IntRange(0, 4).Draw(t, "np")]...)
			k := rapid.IntRange(1, 5).Draw(t, "batch")
			for j := 0; j < k && vecs < 28; j++ {
				id++
				d := kit.Doc{ID: fmt.Sprintf("t%d", id), Props: map[string]interface{}{}}
				for _, p := range []string{"title", "body", "note", "extra"} {
					if rapid.IntRange(0, 3).Draw(t, "has") > 0 {
						d.Props[p] = sentence(t, p)
					}
				}
				if rapid.IntRange(0, 5).Draw(t, "own") == 0 {
					d.Vec = kit.Vec(t, c.Dim, 1)
				}
				if rapid.IntRange(0, 7).Draw(t, "known") == 7 {
					d.Stale = rapid.IntRange(1, 3).Draw(t, "stale")
				}
				vecs++
				op.Docs = append(op.Docs, d)
			}
			if len(op.Docs) > 0 {
				c.Ops = append(c.Ops, op)
			}
		case 2, 3:
			c.Ops = append(c.Ops, TextOp{K: "search", Text: sentence(t, "text"),
				Dist:  rapid.SampledFrom([]float32{0, 0.1, 0.5, 1, 1.5, 2, 3}).Draw(t, "dist"),
				Limit: rapid.SampledFrom([]int{0, 1, 2, 5, 100}).Draw(t, "limit")})
		default:
			c.Ops = append(c.Ops, TextOp{K: "restart"})
		}
	}
	return c
}

// textOf is what the chosen properties of a document say, as words.
func textOf(d kit.Doc, props []string) []string {
	var words []string
	for _, p := range props {
		if s, ok := d.Props[p].(string); ok {
			words = append(words, strings.Fields(s)...)
		}
	}
	return words
}

func TestP10(t *testing.T) {
	kit.Run(t, kit.Prop[TextCase]{
		ID: "P10", Quick: 400, Thorough: 10000,
		Rule: "distinct histories with at least one text document and one text search that returns something",
		Gen:  genText,
		Check: func(ctx *kit.Ctx, c TextCase) error {
			f := kit.NewFakeVectorizer(c.Dim)
			defer f.Close()
			kit.SeedGlobalRand(c.Rand)
			w := kit.NewWorld()
			w.VectorizerURL = f.URL()
			cl, err := w.Client()
			if err != nil {
				return err
			}
			if err := cl.CreateCollection(&document.Collection{Name: "docs"}); err != nil {
				return err
			}
			model := map[string]kit.Doc{}
			texts := 0
			ops := append([]TextOp{}, c.Ops...)
			ops = append(ops, TextOp{K: "search", Text: "red fox", Dist: 3}, TextOp{K: "restart"}, TextOp{K: "search", Text: "blue dog", Dist: 3, Limit: 3})
			for i, op := range ops {
				switch op.K {
				case "restart":
					if cl, err = w.Client(); err != nil {
						return err
					}
				case "add":
					before := f.Requests()
					want := 0
					if err := cl.AddDocuments("docs", append([]string{}, op.Props...), kit.BuildAll(op.Docs)...); err != nil {
						return fmt.Errorf("step %d: add: %w", i, err)
					}
					for _, d := range op.Docs {
						if d.Vec == nil {
							if words := textOf(d, op.Props); len(words) > 0 {
								d.Vec = kit.TextVec(words, c.Dim)
								want++
								texts++
							}
						}
						model[d.ID] = d
					}
					if f.Requests() < before+want && want > 0 && f.Requests() == before {
						return fmt.Errorf("step %d: %d documents were to be vectorized, the vectorizer saw no request", i, want)
					}
				case "search":
					n, err := textSearch(ctx, cl, c, op, model)
					if err != nil {
						return fmt.Errorf("step %d: search %q (distance %v, limit %d): %w", i, op.Text, op.Dist, op.Limit, err)
					}
					if n > 0 && texts > 0 {
						ctx.NonTrivial()
					}
				}
			}
			for id, d := range model {
				raw, err := cl.GetDocument("docs", "id", id)
				if err != nil {
					return fmt.Errorf("document %q is not stored: %w", id, err)
				}
				if err := kit.SameContent(raw, d); err != nil {
					return err
				}
			}
			return nil
		},
	})
}

func textSearch(ctx *kit.Ctx, cl *document.Client, c TextCase, op TextOp, model map[string]kit.Doc) (int, error) {
	q := kit.TextVec(strings.Fields(op.Text), c.Dim)
	vecs := 0
	for _, d := range model {
		if d.Vec != nil {
			vecs++
		}
	}
	docs, dists, err := cl.GetNearDocuments("docs", op.Text, op.Dist, op.Limit)
	if vecs == 0 {
		if len(docs) > 0 {
			return 0, fmt.Errorf("%d results although nothing was vectorized", len(docs))
		}
		return 0, nil
	}
	if err != nil {
		return 0, err
	}
	hits, err := kit.CheckSound(docs, dists, model, q, op.Dist, op.Limit)
	if err != nil {
		return 0, err
	}
	if err := kit.CheckExact(hits, model, q, op.Dist, op.Limit); err != nil {
		return 0, err
	}
	vdocs, vdists, err := cl.GetNearDocumentsByVector("docs", q, op.Dist, op.Limit)
	if err != nil {
		return 0, fmt.Errorf("vector search: %w", err)
	}
	if len(vdocs) != len(docs) {
		return 0, fmt.Errorf("text search gave %d results, the vector search of the same text %d", len(docs), len(vdocs))
	}
	for i := range vdists {
		if math.Abs(float64(vdists[i]-dists[i])) > 1e-5 {
			return 0, fmt.Errorf("text search gave distance %v for result %d, the vector search %v", dists[i], i, vdists[i])
		}
	}
	ctx.Class("results %s", bucket(len(hits)))
	return len(hits), nil
}
