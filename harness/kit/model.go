package kit

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"

	"github.com/fairDataSociety/FaVe/pkg/document"
)

// Doc is a document of a generated case, in JSON-stable form.
type Doc struct {
	ID    string                 `json:"id"`
	Props map[string]interface{} `json:"props"`
	Vec   []float32              `json:"vec,omitempty"`
	// Form says how the vector is handed over: 0 []float32, 1 []interface{} of
	// float64, 2 of float32, 3 of json.Number, 4 a mix.
	Form int `json:"form,omitempty"`
	// Stale says which of the properties that the store sets itself are already
	// there, as in a document that was fetched and is added again: 1 the id, 2
	// the number of the vector, 3 both.
	Stale int `json:"stale,omitempty"`
}

// Clone copies a JSON-like value.
func Clone(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		m := make(map[string]interface{}, len(x))
		for k, e := range x {
			m[k] = Clone(e)
		}
		return m
	case []interface{}:
		l := make([]interface{}, len(x))
		for i, e := range x {
			l[i] = Clone(e)
		}
		return l
	}
	return v
}

// VecValue renders a vector in one of the accepted forms.
func VecValue(vec []float32, form int) interface{} {
	if form == 0 {
		return append([]float32{}, vec...)
	}
	l := make([]interface{}, len(vec))
	for i, f := range vec {
		k := form
		if form == 4 {
			k = 1 + i%3
		}
		switch k {
		case 1:
			l[i] = float64(f)
		case 2:
			l[i] = f
		default:
			b, _ := json.Marshal(f)
			l[i] = json.Number(b)
		}
	}
	return l
}

// Build returns a fresh document for one call.
func (d Doc) Build() *document.Document {
	p, _ := Clone(d.Props).(map[string]interface{})
	if p == nil {
		p = map[string]interface{}{}
	}
	if d.Vec != nil {
		p["vector"] = VecValue(d.Vec, d.Form)
	}
	if d.Stale&1 != 0 {
		p["id"] = "stale"
	}
	if d.Stale&2 != 0 {
		p["hnswId"] = float64(len(d.ID) % 3)
	}
	return &document.Document{ID: d.ID, Properties: p}
}

// BuildAll builds a batch.
func BuildAll(ds []Doc) []*document.Document {
	out := make([]*document.Document, len(ds))
	for i, d := range ds {
		out[i] = d.Build()
	}
	return out
}

// Norm brings a JSON-like value into the form json.Unmarshal gives.
func Norm(v interface{}) interface{} {
	b, err := json.Marshal(v)
	Abort(err)
	var out interface{}
	Abort(json.Unmarshal(b, &out))
	return out
}

// SameContent compares a stored document with what was added.
func SameContent(raw []byte, d Doc) error {
	var got map[string]interface{}
	if err := json.Unmarshal(raw, &got); err != nil {
		return fmt.Errorf("stored document is not JSON: %q", raw)
	}
	delete(got, "hnswId")
	want, _ := Norm(d.Props).(map[string]interface{})
	if want == nil {
		want = map[string]interface{}{}
	}
	want["id"] = d.ID
	if !reflect.DeepEqual(got, want) {
		g, _ := json.Marshal(got)
		w, _ := json.Marshal(want)
		return fmt.Errorf("document %q has content %s, was added as %s", d.ID, g, w)
	}
	return nil
}

// IDOf reads the id of a stored document.
func IDOf(raw []byte) (string, error) {
	var got struct {
		ID *string `json:"id"`
	}
	if err := json.Unmarshal(raw, &got); err != nil || got.ID == nil {
		return "", fmt.Errorf("result %q is no document with an id", raw)
	}
	return *got.ID, nil
}

// CosDist is the reference cosine distance.
func CosDist(a, b []float32) float64 {
	var d, na, nb float64
	for i := range a {
		d += float64(a[i]) * float64(b[i])
		na += float64(a[i]) * float64(a[i])
		nb += float64(b[i]) * float64(b[i])
	}
	if na == 0 || nb == 0 {
		return 1
	}
	return 1 - d/math.Sqrt(na*nb)
}

// Tol is the tolerance on reported cosine distances.
const Tol = 2e-5

// Hit is one search result.
type Hit struct {
	ID   string
	Dist float32
}

// CheckSound verifies what every search result must satisfy: known current
// documents of the collection, no duplicates, right content and distances,
// ascending, within the bound, at most limit.
func CheckSound(docs [][]byte, dists []float32, model map[string]Doc, q []float32, bound float32, limit int) ([]Hit, error) {
	if len(docs) != len(dists) {
		return nil, fmt.Errorf("search returned %d documents but %d distances", len(docs), len(dists))
	}
	if limit > 0 && len(docs) > limit {
		return nil, fmt.Errorf("search returned %d documents, limit was %d", len(docs), limit)
	}
	var hits []Hit
	seen := map[string]bool{}
	for i, raw := range docs {
		id, err := IDOf(raw)
		if err != nil {
			return nil, err
		}
		d, ok := model[id]
		if !ok {
			return nil, fmt.Errorf("search returned document %q that is not in the collection", id)
		}
		if seen[id] {
			return nil, fmt.Errorf("search returned document %q twice", id)
		}
		seen[id] = true
		if d.Vec == nil {
			return nil, fmt.Errorf("search returned document %q, which has no vector", id)
		}
		if err := SameContent(raw, d); err != nil {
			return nil, err
		}
		want := CosDist(q, d.Vec)
		if !(math.Abs(float64(dists[i])-want) <= Tol) {
			return nil, fmt.Errorf("search reported distance %v for document %q, its vector is at %v", dists[i], id, want)
		}
		if float64(dists[i]) > float64(bound)+1e-6 {
			return nil, fmt.Errorf("search returned document %q at distance %v beyond the bound %v", id, dists[i], bound)
		}
		if i > 0 && dists[i] < dists[i-1] {
			return nil, fmt.Errorf("distances are not ascending: %v after %v", dists[i], dists[i-1])
		}
		hits = append(hits, Hit{id, dists[i]})
	}
	return hits, nil
}

// CheckExact verifies that sound hits are exactly the nearest documents within
// the bound, cut at the limit; documents within tol of the cut may go either
// way.
func CheckExact(hits []Hit, model map[string]Doc, q []float32, bound float32, limit int) error {
	got := map[string]bool{}
	for _, h := range hits {
		got[h.ID] = true
	}
	type cand struct {
		id string
		d  float64
	}
	var sure, maybe []cand
	for id, d := range model {
		if d.Vec == nil {
			continue
		}
		dist := CosDist(q, d.Vec)
		if dist <= float64(bound)-Tol {
			sure = append(sure, cand{id, dist})
		} else if dist <= float64(bound)+Tol {
			maybe = append(maybe, cand{id, dist})
		}
	}
	sort.Slice(sure, func(i, j int) bool { return sure[i].d < sure[j].d })
	want := len(sure)
	if limit > 0 && want > limit {
		want = limit
	}
	if len(hits) < want {
		return fmt.Errorf("search found %d documents, %d lie within %v (limit %d)%s", len(hits), want, bound, limit, missing(got, func(f func(string, float64)) {
			for _, c := range sure {
				f(c.id, c.d)
			}
		}))
	}
	if len(hits) > len(sure)+len(maybe) {
		return fmt.Errorf("search found %d documents, at most %d lie within %v", len(hits), len(sure)+len(maybe), bound)
	}
	if len(hits) == 0 {
		return nil
	}
	// every document clearly nearer than the last hit must be among the hits;
	// without a cut by the limit, every one clearly within the bound
	last := float64(bound)
	if limit > 0 && len(hits) == limit {
		last = float64(hits[len(hits)-1].Dist)
	}
	for _, c := range sure {
		if c.d < last-2*Tol && !got[c.id] {
			return fmt.Errorf("search missed document %q at distance %v although the last of %d results is at %v (bound %v, limit %d)", c.id, c.d, len(hits), hits[len(hits)-1].Dist, bound, limit)
		}
	}
	return nil
}

func missing(got map[string]bool, each func(func(string, float64))) string {
	s := ""
	n := 0
	each(func(id string, d float64) {
		if !got[id] && n < 3 {
			s += fmt.Sprintf("; missing %q at %v", id, d)
			n++
		}
	})
	return s
}
