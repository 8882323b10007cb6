package vec

import (
	"fmt"
	"strings"
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"pgregory.net/rapid"
	"verifharness/kit"
)

// ClientCase is a history of text documents and searches of one client, while
// the service fails for some of the texts.
type ClientCase struct {
	Dim int        `json:"dim"`
	Ops []ClientOp `json:"ops"`
}

// ClientOp adds one document or searches.
type ClientOp struct {
	K    string `json:"k"`
	Text string `json:"text"`
	Bad  string `json:"bad,omitempty"` // word that makes the service fail
}

func genClient(t *rapid.T) ClientCase {
	c := ClientCase{Dim: rapid.SampledFrom([]int{2, 3, 8}).Draw(t, "dim")}
	n := rapid.IntRange(2, 10).Draw(t, "ops")
	for i := 0; i < n; i++ {
		o := ClientOp{K: rapid.SampledFrom([]string{"add", "search"}).Draw(t, "k")}
		for j := rapid.IntRange(1, 3).Draw(t, "words"); j > 0; j-- {
			o.Text += " " + rapid.SampledFrom([]string{"red", "fox", "jumps", "over", "lazy", "dog", "blue", "sky"}).Draw(t, "w")
		}
		o.Text = strings.TrimSpace(o.Text)
		if rapid.IntRange(0, 2).Draw(t, "bad") == 1 {
			o.Bad = rapid.SampledFrom([]string{kit.WordFail, kit.WordBad, kit.WordDrop, kit.WordEmpty}).Draw(t, "word")
			o.Text += " " + o.Bad
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func TestP11_client(t *testing.T) {
	kit.Run(t, kit.Prop[ClientCase]{
		ID: "P11", Sub: "client", Quick: 240, Thorough: 6000,
		Rule: "distinct histories with a failing and a later good search",
		Gen:  genClient,
		Check: func(ctx *kit.Ctx, c ClientCase) error {
			f := kit.NewFakeVectorizer(c.Dim)
			defer f.Close()
			w := kit.NewWorld()
			w.VectorizerURL = f.URL()
			cl, err := w.Client()
			if err != nil {
				return err
			}
			if err := cl.CreateCollection(&document.Collection{Name: "docs"}); err != nil {
				return err
			}
			model := map[string]kit.Doc{}
			failed := false
			for i, o := range c.Ops {
				switch o.K {
				case "add":
					d := kit.Doc{ID: fmt.Sprintf("d%d", i), Props: map[string]interface{}{"text": o.Text}}
					err := cl.AddDocuments("docs", []string{"text"}, d.Build())
					if o.Bad != "" {
						if err == nil {
							return fmt.Errorf("step %d: the vectorizer failed (%s), adding the document gave no error", i, o.Bad)
						}
						continue
					}
					if err != nil {
						return fmt.Errorf("step %d: add: %w", i, err)
					}
					d.Vec = kit.TextVec(strings.Fields(o.Text), c.Dim)
					model[d.ID] = d
				default:
					docs, dists, err := cl.GetNearDocuments("docs", o.Text, 3, 5)
					if o.Bad != "" {
						failed = true
						if err == nil {
							return fmt.Errorf("step %d: the vectorizer failed (%s), the search gave %d results and no error", i, o.Bad, len(docs))
						}
						continue
					}
					if len(model) == 0 {
						if len(docs) > 0 {
							return fmt.Errorf("step %d: %d results from an empty collection", i, len(docs))
						}
						continue
					}
					if err != nil {
						return fmt.Errorf("step %d: search: %w", i, err)
					}
					q := kit.TextVec(strings.Fields(o.Text), c.Dim)
					hits, err := kit.CheckSound(docs, dists, model, q, 3, 5)
					if err == nil {
						err = kit.CheckExact(hits, model, q, 3, 5)
					}
					if err != nil {
						return fmt.Errorf("step %d: %w", i, err)
					}
					if failed {
						ctx.NonTrivial()
					}
				}
			}
			return nil
		},
	})
}
