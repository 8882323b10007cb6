package rest

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"pgregory.net/rapid"
	"verifharness/kit"
)

// Op is one request (or a restart of the server).
type Op struct {
	K     string            `json:"k"`
	C     string            `json:"c,omitempty"`
	Idx   map[string]string `json:"idx,omitempty"`
	Docs  []kit.Doc         `json:"docs,omitempty"`
	Props []string          `json:"props,omitempty"`
	P     string            `json:"p,omitempty"`
	V     string            `json:"v,omitempty"`
	Text  string            `json:"text,omitempty"`
	Q     []float32         `json:"q,omitempty"`
	Dist  float32           `json:"dist,omitempty"`
	Limit int               `json:"limit,omitempty"`
	Lack  string            `json:"lack,omitempty"`
}

// Case is a history of requests.
type Case struct {
	Dim  int   `json:"dim"`
	Ops  []Op  `json:"ops"`
	Rand int64 `json:"rand"`
}

var names = []string{"docs", "Docs", "my collection", "a_b", "é", "a-b", "docs/x", "100%", "q?x=1&y"}

var fields = map[string]string{"title": "string", "year": "number", "tags": "list", "attrs": "map", "Lang": "string"}

var lacks = []string{"create:name", "create:blank", "create:indexes", "create:type", "add:name", "add:blank", "add:documents", "add:properties", "add:null", "add:noobject", "add:id",
	"text:name", "text:text", "text:blank", "vec:name", "vec:vector", "get:collection", "get:property", "get:value", "add:unknown", "vec:unknown", "get:unknown"}

var textWords = []string{"red", "fox", "jumps", "over", "lazy", "dog", "blue", "sky", "Fox", "42"}

func sentence(t *rapid.T, label string) string {
	var w []string
	for n := rapid.IntRange(1, 4).Draw(t, label+"n"); n > 0; n-- {
		w = append(w, rapid.SampledFrom(textWords).Draw(t, label))
	}
	return strings.Join(w, " ")
}

func genCase(t *rapid.T) Case {
	c := Case{Dim: rapid.SampledFrom([]int{1, 2, 3, 4, 8, 16}).Draw(t, "dim"), Rand: rapid.Int64Range(1, 1<<30).Draw(t, "rand")}
	idx := map[string]map[string]string{}
	vecs := map[string][][]float32{}
	ids := map[string][]string{}
	vals := map[string][][2]string{}
	n := rapid.IntRange(2, 14).Draw(t, "ops")
	nextID := 0
	for i := 0; i < n; i++ {
		name := rapid.SampledFrom(names).Draw(t, "c")
		var have []string
		for k := range idx {
			have = append(have, k)
		}
		sort.Strings(have)
		if len(have) > 0 && rapid.IntRange(0, 7).Draw(t, "known") > 0 {
			name = rapid.SampledFrom(have).Draw(t, "c")
		}
		k := rapid.SampledFrom([]string{"create", "add", "add", "add", "get", "get", "vec", "vec", "vec", "text", "text", "list", "lack", "lack", "restart", "delete"}).Draw(t, "k")
		if len(have) == 0 {
			k = "create"
		}
		if k == "delete" && rapid.IntRange(0, 2).Draw(t, "really") > 0 {
			k = "list"
		}
		o := Op{K: k, C: name}
		switch k {
		case "create":
			o.Idx = map[string]string{}
			for _, f := range []string{"title", "year", "tags", "attrs", "Lang"} {
				if rapid.Bool().Draw(t, "ix") {
					o.Idx[f] = fields[f]
				}
			}
			if idx[name] == nil {
				idx[name] = o.Idx
			}
		case "add":
			props := rapid.Permutation([]string{"title", "body", "Lang"}).Draw(t, "props")
			o.Props = append([]string{}, props[:rapid.IntRange(0, 3).Draw(t, "np")]...)
			for j := rapid.SampledFrom([]int{1, 2, 3, 4, 1, 2, 3, 9, 28}).Draw(t, "batch"); j > 0 && len(vecs[name]) < 28; j-- {
				nextID++
				d := kit.Doc{ID: fmt.Sprintf("%08x-1234-4abc-8def-%012x", rapid.Uint32().Draw(t, "idhi"), nextID), Props: map[string]interface{}{}}
				if rapid.IntRange(0, 5).Draw(t, "upper") == 5 {
					d.ID = strings.ToUpper(d.ID)
				}
				for _, f := range []string{"title", "year", "tags", "attrs", "Lang"} {
					typ := idx[name][f]
					if typ == "" && rapid.IntRange(0, 2).Draw(t, "has") == 0 {
						typ = fields[f]
					}
					switch typ {
					case "string":
						d.Props[f] = sentence(t, f)
						vals[name] = append(vals[name], [2]string{f, d.Props[f].(string)})
					case "number":
						y := rapid.SampledFrom([]int{0, 1, 7, 10, 99, 1999, 2023, 999999}).Draw(t, f)
						d.Props[f] = float64(y)
						vals[name] = append(vals[name], [2]string{f, fmt.Sprint(y)})
					case "list":
						l := []interface{}{}
						seen := map[string]bool{}
						for q := rapid.IntRange(0, 2).Draw(t, "tags"); q > 0; q-- {
							s := kit.Word(t, f)
							if !seen[s] {
								l = append(l, s)
								vals[name] = append(vals[name], [2]string{f, s})
							}
							seen[s] = true
						}
						d.Props[f] = l
					case "map":
						m := map[string]interface{}{}
						for q := rapid.IntRange(0, 2).Draw(t, "attrs"); q > 0; q-- {
							key := rapid.SampledFrom([]string{"color", "size"}).Draw(t, "mk")
							m[key] = kit.Word(t, f)
						}
						for _, key := range []string{"color", "size"} {
							if m[key] != nil {
								vals[name] = append(vals[name], [2]string{f, key + ":" + m[key].(string)})
							}
						}
						d.Props[f] = m
					}
				}
				if rapid.Bool().Draw(t, "body") {
					d.Props["body"] = sentence(t, "body")
				}
				if rapid.Bool().Draw(t, "rich") {
					d.Props["extra"] = kit.JSONValue(t, "extra", 2)
				}
				if rapid.IntRange(0, 3).Draw(t, "own") > 0 {
					d.Vec = kit.Vec(t, c.Dim, rapid.IntRange(0, 1).Draw(t, "vk"))
					vecs[name] = append(vecs[name], d.Vec)
				} else {
					vecs[name] = append(vecs[name], kit.NonZero(make([]float32, c.Dim)))
				}
				ids[name] = append(ids[name], d.ID)
				if rapid.IntRange(0, 7).Draw(t, "known") == 7 {
					d.Stale = rapid.IntRange(1, 3).Draw(t, "stale")
				}
				o.Docs = append(o.Docs, d)
			}
			if len(o.Docs) == 0 {
				continue
			}
			if idx[name] == nil {
				ids[name], vecs[name], vals[name] = nil, nil, nil
			}
		case "get":
			o.P, o.V = "id", "00000000-0000-4000-8000-000000000000"
			if len(ids[name]) > 0 && rapid.IntRange(0, 4).Draw(t, "gi") > 0 {
				o.V = rapid.SampledFrom(ids[name]).Draw(t, "gid")
			}
			if len(vals[name]) > 0 && rapid.Bool().Draw(t, "gp") {
				x := rapid.SampledFrom(vals[name]).Draw(t, "gv")
				o.P, o.V = x[0], x[1]
			} else if rapid.IntRange(0, 3).Draw(t, "gother") == 0 {
				o.P, o.V = rapid.SampledFrom([]string{"title", "Lang"}).Draw(t, "gprop"), sentence(t, "gv")
			}
		case "vec":
			o.Q = kit.Query(t, vecs[name], c.Dim, 1)
		case "text":
			o.Text = sentence(t, "text")
		case "lack":
			o.Lack = rapid.SampledFrom(lacks).Draw(t, "lack")
		case "delete":
			idx[name], ids[name], vecs[name], vals[name] = nil, nil, nil, nil
			delete(idx, name)
		}
		if k == "vec" || k == "text" {
			o.Dist = rapid.SampledFrom([]float32{0, 0.1, 0.5, 1, 1.5, 2, 3}).Draw(t, "dist")
			o.Limit = rapid.SampledFrom([]int{0, 1, 2, 3, 10, 100, 257, 1<<16 + 1, 1<<32 + 1}).Draw(t, "limit")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

type col struct {
	idx  map[string]string
	docs map[string]kit.Doc
}

type run struct {
	ctx  *kit.Ctx
	c    Case
	s    *Server
	cols map[string]*col
	hits int
	last []float32 // the distances of the last search
}

func obj(kv ...interface{}) map[string]interface{} {
	m := map[string]interface{}{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	return m
}

func docBody(d kit.Doc) map[string]interface{} {
	p, _ := kit.Clone(d.Props).(map[string]interface{})
	if p == nil {
		p = map[string]interface{}{}
	}
	if d.Vec != nil {
		p["vector"] = d.Vec
	}
	if d.Stale&1 != 0 {
		p["id"] = "stale"
	}
	if d.Stale&2 != 0 {
		p["hnswId"] = float64(len(d.ID) % 3)
	}
	return obj("id", d.ID, "properties", p)
}

func docsBody(ds []kit.Doc) []interface{} {
	l := []interface{}{}
	for _, d := range ds {
		l = append(l, docBody(d))
	}
	return l
}

func idxBody(idx map[string]string) []interface{} {
	l := []interface{}{}
	var ks []string
	for k := range idx {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		l = append(l, obj("fieldName", k, "fieldType", idx[k]))
	}
	return l
}

// content turns a document of the API back into the stored form, and takes the
// distance out.
func content(m map[string]interface{}) ([]byte, interface{}, error) {
	id, ok := m["id"].(string)
	if !ok {
		return nil, nil, fmt.Errorf("a document without id: %v", m)
	}
	props, ok := m["properties"].(map[string]interface{})
	if !ok {
		return nil, nil, fmt.Errorf("a document without properties: %v", m)
	}
	if props["id"] != nil || props["vector"] != nil {
		return nil, nil, fmt.Errorf("properties have an id or a vector: %v", props)
	}
	dist := props["distance"]
	delete(props, "distance")
	props["id"] = id
	b, err := json.Marshal(props)
	return b, dist, err
}

func get(p, v, c string) string {
	return "/v1/documents?property=" + url.QueryEscape(p) + "&value=" + url.QueryEscape(v) + "&collection=" + url.QueryEscape(c)
}

func (r *run) step(o Op) error {
	m := r.cols[o.C]
	switch o.K {
	case "create":
		resp, err := r.s.call("POST", "/v1/collections", obj("name", o.C, "indexes", idxBody(o.Idx)))
		if err != nil {
			return err
		}
		if resp.Status != http.StatusOK {
			return fmt.Errorf("answered %s", resp)
		}
		if m == nil {
			r.cols[o.C] = &col{o.Idx, map[string]kit.Doc{}}
		}
	case "delete":
		resp, err := r.s.call("DELETE", "/v1/collections/"+url.PathEscape(o.C), nil)
		if err != nil {
			return err
		}
		if err := wellFormed(resp, false); err != nil {
			return err
		}
		if m != nil && resp.Status != http.StatusOK {
			return fmt.Errorf("answered %s", resp)
		}
		delete(r.cols, o.C)
	case "add":
		props := o.Props
		if props == nil {
			props = []string{}
		}
		resp, err := r.s.call("POST", "/v1/documents", obj("name", o.C, "propertiesToVectorize", props, "documents", docsBody(o.Docs)))
		if err != nil {
			return err
		}
		if m == nil {
			return refused(resp)
		}
		if resp.Status != http.StatusOK {
			return fmt.Errorf("answered %s", resp)
		}
		for _, d := range o.Docs {
			if d.Vec == nil {
				var words []string
				for _, p := range o.Props {
					if s, ok := d.Props[p].(string); ok {
						words = append(words, strings.Fields(s)...)
					}
				}
				if len(words) > 0 {
					d.Vec = kit.TextVec(words, r.c.Dim)
				}
			}
			m.docs[d.ID] = d
		}
	case "get":
		return r.get(o.C, o.P, o.V)
	case "vec", "text":
		return r.search(o)
	case "list":
		return r.list()
	case "restart":
	}
	return nil
}

func refused(resp *Response) error {
	if err := wellFormed(resp, false); err != nil {
		return err
	}
	if resp.Status < 400 {
		return fmt.Errorf("was not refused: %s", resp)
	}
	return nil
}

func (r *run) get(c, p, v string) error {
	resp, err := r.s.call("GET", get(p, v, c), nil)
	if err != nil {
		return err
	}
	m := r.cols[c]
	if m == nil {
		return refused(resp)
	}
	var want []string
	for id, d := range m.docs {
		if p == "id" && id == v || p != "id" && has(d.Props[p], v) {
			want = append(want, id)
		}
	}
	sort.Strings(want)
	indexed := p == "id" || m.idx[p] != ""
	if resp.Status != http.StatusOK {
		if indexed && len(want) > 0 {
			return fmt.Errorf("%s=%s: answered %s although %v has it", p, v, resp, want)
		}
		r.ctx.Class("get: nothing")
		return refused(resp)
	}
	var d map[string]interface{}
	if err := json.Unmarshal(resp.Body, &d); err != nil {
		return fmt.Errorf("%s=%s: answered %s", p, v, resp)
	}
	raw, _, err := content(d)
	if err != nil {
		return err
	}
	for _, w := range want {
		if w == d["id"] {
			r.ctx.Class("get: %s", p)
			return kit.SameContent(raw, m.docs[w])
		}
	}
	return fmt.Errorf("%s=%s: answered %s; documents with that value: %v", p, v, resp, want)
}

func has(x interface{}, v string) bool {
	switch x := x.(type) {
	case string:
		return x == v
	case float64:
		return fmt.Sprint(int64(x)) == v
	case []interface{}:
		for _, e := range x {
			if e == v {
				return true
			}
		}
	case map[string]interface{}:
		for k, e := range x {
			if s, ok := e.(string); ok && k+":"+s == v {
				return true
			}
		}
	}
	return false
}

func (r *run) search(o Op) error {
	m := r.cols[o.C]
	body, route, q := obj("name", o.C, "distance", o.Dist, "limit", o.Limit), "/v1/nearest-documents-by-vector", o.Q
	if o.K == "text" {
		route = "/v1/nearest-documents"
		body["text"] = o.Text
		q = kit.TextVec(strings.Fields(o.Text), r.c.Dim)
	} else {
		body["vector"] = o.Q
	}
	resp, err := r.s.call("POST", route, body)
	if err != nil {
		return err
	}
	if m == nil {
		return refused(resp)
	}
	vecs := 0
	for _, d := range m.docs {
		if d.Vec != nil {
			vecs++
		}
	}
	if err := wellFormed(resp, false); err != nil {
		return err
	}
	var got struct {
		Name      string                   `json:"name"`
		Documents []map[string]interface{} `json:"documents"`
	}
	if resp.Status == http.StatusOK {
		if err := json.Unmarshal(resp.Body, &got); err != nil {
			return fmt.Errorf("answered %s", resp)
		}
	}
	if vecs == 0 {
		if len(got.Documents) > 0 {
			return fmt.Errorf("%d results although nothing has a vector", len(got.Documents))
		}
		return nil
	}
	if resp.Status != http.StatusOK {
		return fmt.Errorf("answered %s", resp)
	}
	if got.Name != o.C {
		return fmt.Errorf("the answer is for collection %q", got.Name)
	}
	var docs [][]byte
	var dists []float32
	for _, d := range got.Documents {
		raw, dist, err := content(d)
		if err != nil {
			return err
		}
		f, ok := dist.(float64)
		if !ok {
			return fmt.Errorf("document %v has no distance", d["id"])
		}
		docs = append(docs, raw)
		dists = append(dists, float32(f))
	}
	hits, err := kit.CheckSound(docs, dists, m.docs, q, o.Dist, o.Limit)
	if err == nil {
		err = kit.CheckExact(hits, m.docs, q, o.Dist, o.Limit)
	}
	r.hits += len(hits)
	r.last = dists
	r.ctx.Class("%s search", o.K)
	return err
}

func (r *run) list() error {
	resp, err := r.s.call("GET", "/v1/collections", nil)
	if err != nil {
		return err
	}
	var got []struct {
		Name    string `json:"name"`
		Indexes []struct{ FieldName, FieldType string }
	}
	if resp.Status != http.StatusOK || json.Unmarshal(resp.Body, &got) != nil {
		return fmt.Errorf("answered %s", resp)
	}
	seen := map[string]bool{}
	for _, g := range got {
		m := r.cols[g.Name]
		if m == nil {
			return fmt.Errorf("collection %q is listed but does not exist", g.Name)
		}
		if seen[g.Name] {
			return fmt.Errorf("collection %q is listed twice", g.Name)
		}
		seen[g.Name] = true
		fs := map[string]bool{}
		for _, i := range g.Indexes {
			if fs[i.FieldName] {
				return fmt.Errorf("collection %q lists index %q twice", g.Name, i.FieldName)
			}
			fs[i.FieldName] = true
			if want := m.idx[i.FieldName]; want != i.FieldType && i.FieldName != "id" && i.FieldName != "hnswId" {
				return fmt.Errorf("collection %q lists index %q as %q, was created as %q", g.Name, i.FieldName, i.FieldType, want)
			}
		}
		for f := range m.idx {
			if !fs[f] {
				return fmt.Errorf("collection %q does not list its index %q", g.Name, f)
			}
		}
	}
	for n := range r.cols {
		if !seen[n] {
			return fmt.Errorf("collection %q is not listed", n)
		}
	}
	return nil
}

// lack sends a request that lacks something.
func (r *run) lack(o Op, vec []float32) error {
	d := obj("id", "ffffffff-0000-4000-8000-000000000001", "properties", obj("title", "never", "year", 1, "tags", []string{}, "attrs", obj(), "Lang", "x", "vector", vec))
	blank := ""
	method, path := "POST", ""
	var b map[string]interface{}
	switch kind := strings.SplitN(o.Lack, ":", 2); kind[0] {
	case "create":
		path, b = "/v1/collections", obj("name", "neverCreated", "indexes", []interface{}{})
		switch kind[1] {
		case "name":
			delete(b, "name")
		case "blank":
			b["name"] = blank
		case "indexes":
			delete(b, "indexes")
		case "type":
			b["indexes"] = []interface{}{obj("fieldName", "x", "fieldType", "date")}
		}
	case "add":
		path, b = "/v1/documents", obj("name", o.C, "documents", []interface{}{d}, "propertiesToVectorize", []string{})
		switch kind[1] {
		case "name":
			delete(b, "name")
		case "blank":
			b["name"] = blank
		case "documents":
			delete(b, "documents")
		case "properties":
			delete(b, "propertiesToVectorize")
		case "null":
			b["documents"] = []interface{}{nil}
		case "noobject":
			d["properties"] = []interface{}{1}
		case "id":
			d["id"] = "not-a-uuid"
		case "unknown":
			b["name"] = "no such collection"
		}
	case "text":
		path, b = "/v1/nearest-documents", obj("name", o.C, "text", "red fox", "distance", 1, "limit", 3)
		switch kind[1] {
		case "name":
			delete(b, "name")
		case "text":
			delete(b, "text")
		case "blank":
			b["text"] = blank
		}
	case "vec":
		path, b = "/v1/nearest-documents-by-vector", obj("name", o.C, "vector", vec, "distance", 1, "limit", 3)
		switch kind[1] {
		case "name":
			delete(b, "name")
		case "vector":
			delete(b, "vector")
		case "unknown":
			b["name"] = "no such collection"
		}
	case "get":
		method = "GET"
		q := url.Values{"property": {"title"}, "value": {"red"}, "collection": {o.C}}
		if kind[1] == "unknown" {
			q["collection"] = []string{"no such collection"}
		} else {
			q.Del(kind[1])
		}
		path = "/v1/documents?" + q.Encode()
	}
	var body interface{}
	if b != nil {
		body = b
	}
	resp, err := r.s.call(method, path, body)
	if err != nil {
		return err
	}
	r.ctx.Class("refused")
	return refused(resp)
}

func (r *run) audit(cl *document.Client) error {
	if err := r.list(); err != nil {
		return err
	}
	var ns []string
	for n := range r.cols {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		m := r.cols[n]
		var q []float32
		for id, d := range m.docs {
			if err := r.get(n, "id", id); err != nil {
				return fmt.Errorf("collection %q: %w", n, err)
			}
			if d.Vec != nil && q == nil {
				q = d.Vec
			}
		}
		if q == nil {
			q = kit.NonZero(make([]float32, r.c.Dim))
		}
		r.last = nil
		if err := r.search(Op{K: "vec", C: n, Q: q, Dist: 3, Limit: 0}); err != nil {
			return fmt.Errorf("collection %q: search without limit: %w", n, err)
		}
		if len(r.last) == 0 {
			continue
		}
		_, dists, err := cl.GetNearDocumentsByVector(n, q, 3, 0)
		if err != nil {
			return fmt.Errorf("collection %q: search by the client: %w", n, err)
		}
		if fmt.Sprint(dists) != fmt.Sprint(r.last) {
			return fmt.Errorf("collection %q: the search over HTTP gives the distances %v, the search behind it %v", n, r.last, dists)
		}
	}
	return nil
}

func TestP09(t *testing.T) {
	kit.Run(t, kit.Prop[Case]{
		ID: "P09", Quick: 900, Thorough: 10000,
		Rule: "distinct histories with at least one search that returns a document",
		Gen:  genCase,
		Check: func(ctx *kit.Ctx, c Case) error {
			f := kit.NewFakeVectorizer(c.Dim)
			defer f.Close()
			kit.SeedGlobalRand(c.Rand)
			w := kit.NewWorld()
			w.VectorizerURL = f.URL()
			s, err := start(w)
			if err != nil {
				return err
			}
			r := &run{ctx: ctx, c: c, s: s, cols: map[string]*col{}}
			defer func() { r.s.close() }()
			vec := kit.NonZero(make([]float32, c.Dim))
			for i, o := range c.Ops {
				var err error
				switch o.K {
				case "restart":
					r.s.close()
					var s *Server
					if s, err = start(w); err == nil {
						r.s = s
					}
				case "lack":
					err = r.lack(o, vec)
				default:
					err = r.step(o)
				}
				if err != nil {
					return fmt.Errorf("step %d (%s%s on %q): %w", i, o.K, o.Lack, o.C, err)
				}
			}
			cl, err := w.Client()
			if err != nil {
				return err
			}
			if err := r.audit(cl); err != nil {
				return fmt.Errorf("at the end: %w", err)
			}
			if r.hits > 0 {
				ctx.NonTrivial()
			}
			return nil
		},
	})
}
