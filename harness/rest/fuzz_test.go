package rest

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verifharness/kit"
)

// Req is one request of a generated sequence.
type Req struct {
	M    string            `json:"m"`
	Path string            `json:"path"`
	H    map[string]string `json:"h,omitempty"`
	Body string            `json:"body,omitempty"`
	Raw  []byte            `json:"raw,omitempty"` // a body that is no text
	Bad  bool              `json:"bad,omitempty"` // has to be refused
	Re   bool              `json:"re,omitempty"`  // restart before it
}

// FuzzCase is a sequence of requests to a server that holds some documents.
type FuzzCase struct {
	Dim  int       `json:"dim"`
	Docs []kit.Doc `json:"docs"`
	Idx  bool      `json:"idx"`
	Reqs []Req     `json:"reqs"`
	Rand int64     `json:"rand"`
}

// the name "docs" is the collection whose documents have to stay right
var oddNames = []string{"docs", "docs", "docs", "nope", "other", "", " ", "a/b", "../docs", "..", ".", "\x00", "docs\x00", "é", "docs ", "Docs", "docs1", "%2e", "fave_docs", "null", strings.Repeat("n", 300), "a\nb", "🦊", "docs?", "a=b", "*", "(", "\\"}

func oddName(t *rapid.T) string {
	if rapid.Bool().Draw(t, "watched") {
		return "docs"
	}
	return rapid.SampledFrom(oddNames).Draw(t, "name")
}

func oddJSON(t *rapid.T, depth int) interface{} {
	switch rapid.IntRange(0, 13).Draw(t, "odd") {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(t, "b")
	case 2:
		return json.Number(rapid.SampledFrom([]string{"0", "-0", "1", "-1", "0.5", "1e2", "1e38", "1e39", "-1e39", "1e308", "1e309", "1e400", "1e-400", "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551616", "123456789012345678901234567890", "2147483648", "4294967296", "3.4028236e38", "1000000000000"}).Draw(t, "n"))
	case 3:
		return float64(rapid.IntRange(-3, 1000).Draw(t, "i"))
	case 4:
		return rapid.SampledFrom([]string{"", " ", "x", "true", "null", "1", "-1", "NaN", "\x00", "é", "\u2028", "😀", "a=b", "title=red", "(", "[", "*", ".*", "^$", "\\", "'", "\"", ">=", "${x}", "<script>", strings.Repeat("long ", 500), "0000-00", "vector", "id"}).Draw(t, "s")
	case 5:
		return rapid.String().Draw(t, "str")
	case 6, 7:
		l := []interface{}{}
		if depth > 0 {
			for n := rapid.IntRange(0, 3).Draw(t, "ln"); n > 0; n-- {
				l = append(l, oddJSON(t, depth-1))
			}
		}
		return l
	case 8, 9:
		m := map[string]interface{}{}
		if depth > 0 {
			for n := rapid.IntRange(0, 3).Draw(t, "mn"); n > 0; n-- {
				m[rapid.SampledFrom([]string{"", "a", "id", "vector", "distance", "hnswId", "title", "name", "properties", "x y", "é", "_id", "$ref", "\x00", "a.b"}).Draw(t, "mk")] = oddJSON(t, depth-1)
			}
		}
		return m
	case 10:
		// a vector
		l := []interface{}{}
		for n := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 8, 2000}).Draw(t, "vn"); n > 0; n-- {
			l = append(l, float64(n%5)-2)
		}
		return l
	case 11:
		// deep nesting
		var v interface{} = 1
		for n := rapid.SampledFrom([]int{5, 50, 500}).Draw(t, "deep"); n > 0; n-- {
			v = []interface{}{v}
		}
		return v
	case 12:
		return oddName(t)
	}
	return rapid.SampledFrom([]string{"string", "number", "map", "list", "bytes", "String", "vector", "text"}).Draw(t, "kw")
}

// mutate changes one place of a JSON tree.
func mutate(t *rapid.T, v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		if len(x) > 0 && rapid.IntRange(0, 5).Draw(t, "here") > 0 {
			ks := keys(x)
			k := rapid.SampledFrom(ks).Draw(t, "key")
			switch rapid.IntRange(0, 9).Draw(t, "how") {
			case 0:
				delete(x, k)
			case 1:
				x[strings.ToUpper(k)] = x[k]
			case 2:
				x[rapid.SampledFrom([]string{"extra", "", "vector", "id", "hnswId", "distance"}).Draw(t, "nk")] = oddJSON(t, 2)
			case 3:
				x[k] = oddJSON(t, 2)
			default:
				x[k] = mutate(t, x[k])
			}
			return x
		}
	case []interface{}:
		if len(x) > 0 && rapid.IntRange(0, 4).Draw(t, "here") > 0 {
			i := rapid.IntRange(0, len(x)-1).Draw(t, "i")
			switch rapid.IntRange(0, 4).Draw(t, "how") {
			case 0:
				return append(x[:i:i], x[i+1:]...)
			case 1:
				return append(x, kit.Clone(x[i]))
			case 2:
				return append(x, oddJSON(t, 2))
			default:
				x[i] = mutate(t, x[i])
			}
			return x
		}
	}
	return oddJSON(t, 2)
}

func keys(m map[string]interface{}) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

var routes = []string{"/v1/collections", "/v1/documents", "/v1/nearest-documents", "/v1/nearest-documents-by-vector"}

func genReq(t *rapid.T, dim, i int) Req {
	route := rapid.SampledFrom(routes).Draw(t, "route")
	r := Req{M: "POST", Path: route, H: map[string]string{"Content-Type": "application/json"}}
	r.Re = rapid.IntRange(0, 15).Draw(t, "re") == 11
	name := oddName(t)
	var body interface{}
	switch route {
	case "/v1/collections":
		body = obj("name", name, "indexes", []interface{}{obj("fieldName", "title", "fieldType", "string"), obj("fieldName", "year", "fieldType", rapid.SampledFrom([]string{"number", "list", "map", "bytes"}).Draw(t, "ft"))})
	case "/v1/documents":
		d := obj("id", fmt.Sprintf("eeeeeeee-0000-4000-8000-%012x", i), "properties", obj("title", sentence(t, "title"), "year", 7, "vector", toAny(kit.Vec(t, dim, 1))))
		d2 := obj("id", fmt.Sprintf("dddddddd-0000-4000-8000-%012x", i), "properties", obj("title", "zz", "year", 8, "body", sentence(t, "body")))
		body = obj("name", name, "documents", []interface{}{d, d2}, "propertiesToVectorize", []interface{}{"body"})
	case "/v1/nearest-documents":
		body = obj("name", name, "text", sentence(t, "text"), "distance", 1.5, "limit", 3)
	default:
		body = obj("name", name, "vector", toAny(kit.Vec(t, dim, 1)), "distance", 1.5, "limit", 3)
	}
	body = kit.Norm(body)
	switch rapid.IntRange(0, 13).Draw(t, "kind") {
	case 0: // query route
		q := url.Values{}
		for _, k := range []string{"property", "value", "collection"} {
			for n := rapid.SampledFrom([]int{0, 1, 1, 1, 1, 2}).Draw(t, "qn"); n > 0; n-- {
				switch k {
				case "collection":
					q.Add(k, oddName(t))
				case "property":
					q.Add(k, rapid.SampledFrom([]string{"id", "title", "year", "tags", "", "hnswId", "nope", "vector", "=", "id=x", "é", "(", "id\x00", "title>", "year<", "title=", "a b"}).Draw(t, "qp"))
				default:
					q.Add(k, rapid.SampledFrom([]string{"", "x", "red", "7", "-1", "1e400", "99999999999999999999", ">=", "a=b", "(", "[a", "*", ".*", "é", "\x00", "red fox", ":", "a:b", "a:", "NaN", "0x10", " ", "%", "=", "=1", ">1", strings.Repeat("v", 2000)}).Draw(t, "qv"))
				}
			}
		}
		r = Req{M: "GET", Path: "/v1/documents?" + q.Encode()}
	case 1: // path route
		n := oddName(t)
		if n == "docs" {
			n = "docsx"
		}
		r = Req{M: "DELETE", Path: "/v1/collections/" + url.PathEscape(n)}
	case 2: // other methods and paths
		r.M = rapid.SampledFrom([]string{"GET", "PUT", "PATCH", "HEAD", "OPTIONS", "DELETE", "FOO", "POST"}).Draw(t, "m")
		r.Path = rapid.SampledFrom([]string{"/", "/v1", "/v1/", "/v2/documents", "/v1/documents/", "/v1/Documents", "/v1/collections/", "/v1//collections", "/v1/collections/a/b", "/v1/%00", "/v1/nearest-documents/x", "/v1/documents?x", "/v1/documents?property=%zz", "/v1/swagger.json", "/.well-known", "/v1/collections?x=1", "//", "/v1/../v1/collections", "/v1/nope"}).Draw(t, "path")
		if rapid.Bool().Draw(t, "docroute") {
			r.Path = route
		}
		if r.M == "DELETE" && strings.HasPrefix(r.Path, "/v1/collections/docs") {
			r.M = "GET"
		}
	case 3: // broken bodies
		b, _ := json.Marshal(body)
		switch rapid.IntRange(0, 4).Draw(t, "broken") {
		case 0:
			r.Body = string(b[:rapid.IntRange(1, len(b)-1).Draw(t, "cut")])
			r.Bad = true
		case 1:
			r.Body = rapid.SampledFrom([]string{"{", "[", "\"", "{]", "nul", "{\"name\":}", "{'name':'docs'}", "<x/>", "name=docs", "{\"name\":\"docs\",}", "\xff\xfe", "{\"name\":\"docs\" \"text\":\"x\"}"}).Draw(t, "bb")
			r.Bad = true
		case 2:
			r.Raw = rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(t, "raw")
		case 3:
			r.Body = ""
			r.Bad = true
		default:
			p := rapid.IntRange(0, len(b)-1).Draw(t, "at")
			b[p] = rapid.Byte().Draw(t, "byte")
			r.Raw = b
		}
	case 4: // headers
		b, _ := json.Marshal(body)
		r.Body = string(b)
		switch rapid.IntRange(0, 3).Draw(t, "hdr") {
		case 0:
			r.H["Content-Type"] = rapid.SampledFrom([]string{"", "text/plain", "application/xml", "application/json; charset=latin1", "application/x-www-form-urlencoded", "multipart/form-data", "garbage", "application/json;", "*/*", "application/problem+json"}).Draw(t, "ct")
		case 1:
			r.H["Accept"] = rapid.SampledFrom([]string{"", "text/html", "application/xml", "*/*", "garbage", "application/json;q=0", "text/*"}).Draw(t, "acc")
		case 2:
			r.H["Authorization"] = "Bearer x"
			r.H["Cookie"] = "a=b; c"
		default:
			r.H["X-Long"] = strings.Repeat("y", 5000)
			r.H["Accept-Encoding"] = "gzip"
		}
	case 6: // vectors and numbers of odd sizes
		x := json.Number(rapid.SampledFrom([]string{"1e38", "3e38", "1e39", "-1e39", "1e300", "1e309", "1e-46", "0", "1e-20", "1e20"}).Draw(t, "x"))
		v := toAny(kit.Vec(t, dim, 1))
		if rapid.Bool().Draw(t, "all") {
			for i := range v {
				v[i] = x
			}
		} else {
			v[rapid.IntRange(0, dim-1).Draw(t, "i")] = x
		}
		b := body.(map[string]interface{})
		switch route {
		case "/v1/documents":
			b["documents"].([]interface{})[0].(map[string]interface{})["properties"].(map[string]interface{})["vector"] = v
		case "/v1/nearest-documents-by-vector":
			b["vector"] = v
		case "/v1/nearest-documents":
			b["distance"] = x
		}
		o, _ := json.Marshal(b)
		r.Body = string(o)
	case 5: // a body that is no object
		b, _ := json.Marshal(oddJSON(t, 2))
		r.Body = string(b)
	default:
		for n := rapid.SampledFrom([]int{0, 1, 1, 1, 1, 2, 3}).Draw(t, "mutations"); n > 0; n-- {
			body = mutate(t, body)
		}
		b, err := json.Marshal(body)
		if err != nil {
			b = []byte("{}")
		}
		r.Body = string(b)
	}
	return r
}

func toAny(v []float32) []interface{} {
	l := make([]interface{}, len(v))
	for i, f := range v {
		l[i] = f
	}
	return l
}

func genFuzz(t *rapid.T) FuzzCase {
	c := FuzzCase{Dim: rapid.SampledFrom([]int{1, 2, 3, 8}).Draw(t, "dim"), Idx: rapid.Bool().Draw(t, "idx"), Rand: rapid.Int64Range(1, 1<<30).Draw(t, "rand")}
	for n := rapid.IntRange(0, 5).Draw(t, "docs"); n > 0; n-- {
		c.Docs = append(c.Docs, kit.Doc{ID: fmt.Sprintf("aaaaaaaa-0000-4000-8000-%012x", n), Props: obj("title", sentence(t, "title"), "year", float64(n)), Vec: kit.Vec(t, c.Dim, 1)})
	}
	for n := rapid.IntRange(1, 12).Draw(t, "reqs"); n > 0; n-- {
		c.Reqs = append(c.Reqs, genReq(t, c.Dim, n))
	}
	return c
}

// fits tells whether a body replaces one of the documents under watch.
func (r Req) touches(docs []kit.Doc) bool {
	s := r.Body + string(r.Raw)
	for _, d := range docs {
		if strings.Contains(s, d.ID) {
			return true
		}
	}
	return false
}

func TestP08(t *testing.T) {
	kit.Run(t, kit.Prop[FuzzCase]{
		ID: "P08", Quick: 640, Thorough: 16000,
		Rule: "distinct request sequences in which a request was refused, on a server that holds documents",
		Gen:  genFuzz,
		Check: func(ctx *kit.Ctx, c FuzzCase) error {
			f := kit.NewFakeVectorizer(c.Dim)
			defer f.Close()
			kit.SeedGlobalRand(c.Rand)
			w := kit.NewWorld()
			w.VectorizerURL = f.URL()
			s, err := start(w)
			if err != nil {
				return err
			}
			defer func() { s.close() }()
			idx := map[string]string{}
			if c.Idx {
				idx["title"] = "string"
			}
			r := &run{ctx: kit.NewCtx(), c: Case{Dim: c.Dim}, s: s, cols: map[string]*col{}}
			if err := r.step(Op{K: "create", C: "docs", Idx: idx}); err != nil {
				return err
			}
			if len(c.Docs) > 0 {
				if err := r.step(Op{K: "add", C: "docs", Docs: c.Docs}); err != nil {
					return err
				}
			}
			for i, q := range c.Reqs {
				if q.touches(c.Docs) {
					continue
				}
				if q.Re {
					s.close()
					if s, err = start(w); err != nil {
						return fmt.Errorf("before request %d: %w", i, err)
					}
					r.s = s
				}
				body := []byte(q.Body)
				if q.Raw != nil {
					body = q.Raw
				}
				resp, err := s.do(q.M, q.Path, q.H, body)
				if err != nil {
					return fmt.Errorf("request %d: %w", i, err)
				}
				if resp == nil {
					ctx.Class("not expressible")
					continue
				}
				ctx.Class("%s %d", q.M, resp.Status)
				err = wellFormed(resp, q.M == "HEAD")
				if err == nil && q.Bad && resp.Status < 400 {
					err = fmt.Errorf("a broken body was answered with %s", resp)
				}
				if err != nil {
					return fmt.Errorf("request %d (%s %s %s): %w", i, q.M, q.Path, show(body), err)
				}
				if resp.Status >= 400 && len(c.Docs) > 0 {
					ctx.NonTrivial()
				}
			}
			for k := 0; k < 2; k++ {
				if err := still(r, c); err != nil {
					return fmt.Errorf("after the requests: %w", err)
				}
				if k == 0 {
					s.close()
					if s, err = start(w); err != nil {
						return err
					}
					r.s = s
				}
			}
			return nil
		},
	})
}

func show(b []byte) string {
	if len(b) > 600 {
		return fmt.Sprintf("%q...", b[:600])
	}
	return fmt.Sprintf("%q", b)
}

// still checks that the documents under watch are found with their content and
// their distances; the requests may have added others.
func still(r *run, c FuzzCase) error {
	for _, d := range c.Docs {
		if err := r.get("docs", "id", d.ID); err != nil {
			return err
		}
		resp, err := r.s.call("POST", "/v1/nearest-documents-by-vector", obj("name", "docs", "vector", d.Vec, "distance", 3, "limit", 0))
		if err != nil {
			return err
		}
		var got struct {
			Documents []map[string]interface{} `json:"documents"`
		}
		if resp.Status != http.StatusOK || json.Unmarshal(resp.Body, &got) != nil {
			return fmt.Errorf("search with the vector of %s: answered %s", d.ID, resp)
		}
		seen := map[string]bool{}
		last := -1.0
		for _, g := range got.Documents {
			raw, dist, err := content(g)
			if err != nil {
				return err
			}
			x, ok := dist.(float64)
			if !ok {
				return fmt.Errorf("document %v has no distance", g["id"])
			}
			if x < last {
				return fmt.Errorf("distances are not ascending: %v after %v", x, last)
			}
			last = x
			id, _ := g["id"].(string)
			if e, ok := r.cols["docs"].docs[id]; ok {
				if seen[id] {
					return fmt.Errorf("document %s is returned twice", id)
				}
				seen[id] = true
				if err := kit.SameContent(raw, e); err != nil {
					return err
				}
				if want := kit.CosDist(d.Vec, e.Vec); want-x > kit.Tol || x-want > kit.Tol {
					return fmt.Errorf("document %s is reported at distance %v, its vector is at %v", id, x, want)
				}
			}
		}
		for _, e := range c.Docs {
			if !seen[e.ID] {
				return fmt.Errorf("search with the vector of %s does not return %s (%d results)", d.ID, e.ID, len(got.Documents))
			}
		}
	}
	// and the collection takes new ones
	if len(c.Docs) > 0 {
		d := kit.Doc{ID: "bbbbbbbb-0000-4000-8000-000000000001", Props: obj("title", "last one", "year", 2024.0)}
		resp, err := r.s.call("POST", "/v1/documents", obj("name", "docs", "documents", docsBody([]kit.Doc{d}), "propertiesToVectorize", []string{}))
		if err != nil {
			return err
		}
		if resp.Status != http.StatusOK {
			return fmt.Errorf("adding a document: answered %s", resp)
		}
	}
	return nil
}
