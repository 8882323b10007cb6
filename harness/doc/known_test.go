package doc

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
	"verifharness/kit"
)

// The known findings are fixed histories that the unchanged tree gets wrong
// (all of them in the storage library it uses). Each is run on its own, so
// that the generators of the properties can stay clear of exactly these
// inputs. A finding is reported only while it still fails.
type finding struct {
	prop, id string
	run      func(ctx *kit.Ctx) error // an error: the finding is met
}

func v2(x, y float32) []float32 { return []float32{x, y, 0.5} }

func sdoc(id, prop string, val interface{}, vec []float32) kit.Doc {
	p := map[string]interface{}{}
	if prop != "" {
		p[prop] = val
	}
	return kit.Doc{ID: id, Props: p, Vec: vec}
}

func fixed(ops ...Op) func(*kit.Ctx) error {
	return func(ctx *kit.Ctx) error {
		return exec(ctx, History{Names: []string{"docs", "docs1"}, Dims: []int{3, 3}, Ops: ops, Rand: 7}, true)
	}
}

func many(n int) []kit.Doc {
	var out []kit.Doc
	for i, v := range kit.ManyVecs(5, n, 3, 1) {
		out = append(out, kit.Doc{ID: fmt.Sprintf("m%d", i), Props: map[string]interface{}{}, Vec: v})
	}
	return out
}

var findings = []finding{
	{"P05", "shared-value", fixed(
		Op{K: "create", Idx: map[string]string{"title": "string"}},
		Op{K: "add", Docs: []kit.Doc{sdoc("a", "title", "same", v2(1, 0)), sdoc("b", "title", "same", v2(0, 1))}},
		Op{K: "add", Docs: []kit.Doc{sdoc("a", "title", "other", v2(1, 1))}},
		Op{K: "get", P: "title", V: "same"})},
	{"P05", "no-vector", fixed(
		Op{K: "create", Idx: map[string]string{}},
		Op{K: "add", Docs: []kit.Doc{sdoc("a", "", nil, nil), sdoc("b", "", nil, nil)}},
		Op{K: "add", Docs: []kit.Doc{sdoc("a", "", nil, v2(1, 1))}},
		Op{K: "add", Docs: []kit.Doc{sdoc("b", "", nil, v2(1, 2))}})},
	{"P05", "list-entry", fixed(
		Op{K: "create", Idx: map[string]string{"tags": "list"}},
		Op{K: "add", Docs: []kit.Doc{sdoc("a", "tags", []interface{}{"old"}, v2(1, 0))}},
		Op{K: "add", Docs: []kit.Doc{sdoc("a", "tags", []interface{}{"new"}, v2(1, 1))}},
		Op{K: "get", P: "tags", V: "old"})},
	{"P05", "prefix-value", fixed(
		Op{K: "create", Idx: map[string]string{"title": "string"}},
		Op{K: "add", Docs: []kit.Doc{sdoc("a", "title", "one", v2(1, 0)), sdoc("b", "title", "ones", v2(0, 1))}},
		Op{K: "add", Docs: []kit.Doc{sdoc("b", "title", "two", v2(1, 1))}},
		Op{K: "add", Docs: []kit.Doc{sdoc("a", "title", "three", v2(2, 1))}})},
	{"P03", "rune-prefix", fixed(
		Op{K: "create", Idx: map[string]string{"title": "string"}},
		Op{K: "add", Docs: []kit.Doc{sdoc("a", "title", "Ä 7", v2(1, 0)), sdoc("b", "title", "été 8", v2(0, 1))}},
		Op{K: "get", P: "title", V: "Ä 7"}, Op{K: "get", P: "title", V: "été 8"})},
	{"P03", "large-number", fixed(
		Op{K: "create", Idx: map[string]string{"year": "number"}},
		Op{K: "add", Docs: []kit.Doc{sdoc("a", "year", float64(12345678), v2(1, 0))}},
		Op{K: "get", P: "year", V: "12345678"})},
	{"P03", "fraction", fixed(
		Op{K: "create", Idx: map[string]string{"year": "number"}},
		Op{K: "add", Docs: []kit.Doc{sdoc("a", "year", 7.5, v2(1, 0))}},
		Op{K: "get", P: "year", V: "7.5"})},
	{"P03", "pattern-value", fixed(
		Op{K: "create", Idx: map[string]string{"title": "string"}},
		Op{K: "add", Docs: []kit.Doc{sdoc("a", "title", "c++", v2(1, 0))}},
		Op{K: "get", P: "title", V: "c++"})},
	{"P03", "operator-value", fixed(
		Op{K: "create", Idx: map[string]string{"title": "string"}},
		Op{K: "add", Docs: []kit.Doc{sdoc("a", "title", "a>b", v2(1, 0))}},
		Op{K: "get", P: "title", V: "a>b"})},
	{"P06", "digit-names", fixed(
		Op{K: "create", Idx: map[string]string{}},
		Op{K: "create", C: 1, Idx: map[string]string{}},
		Op{K: "add", C: 1, Docs: many(3)},
		Op{K: "add", Docs: many(15)},
		Op{K: "add", C: 1, Docs: many(5)},
		Op{K: "restart"})},
}

func knownProp(t *testing.T, id string) {
	kit.Run(t, kit.Prop[int]{
		ID: id, Sub: "known", Quick: 1, Thorough: 1,
		Rule: "the fixed histories of the known findings (none counts as non-trivial)",
		Gen:  func(t *rapid.T) int { return rapid.IntRange(0, 0).Draw(t, "unused") },
		Check: func(ctx *kit.Ctx, _ int) error {
			for _, f := range findings {
				if f.prop != id {
					continue
				}
				c := kit.NewCtx()
				if err := f.run(c); err != nil {
					ctx.Known[f.id] = true
					ctx.Class("known %s", f.id)
				}
			}
			return nil
		},
	})
}

func TestP03_known(t *testing.T) { knownProp(t, "P03") }
func TestP05_known(t *testing.T) { knownProp(t, "P05") }
func TestP06_known(t *testing.T) { knownProp(t, "P06") }
