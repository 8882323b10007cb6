package kit

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
)

// FakeVectorizer is a vectorizer service with a known answer for every text.
type FakeVectorizer struct {
	Dim int
	srv *httptest.Server
	mu  sync.Mutex
	log [][]string // words of the requests
}

// NewFakeVectorizer starts the service.
func NewFakeVectorizer(dim int) *FakeVectorizer {
	f := &FakeVectorizer{Dim: dim}
	f.srv = httptest.NewServer(http.HandlerFunc(f.serve))
	return f
}

// URL of the service.
func (f *FakeVectorizer) URL() string { return f.srv.URL }

// Close stops the service.
func (f *FakeVectorizer) Close() { f.srv.CloseClientConnections(); f.srv.Close() }

// Requests returns how many texts were vectorized.
func (f *FakeVectorizer) Requests() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return len(f.log)
}

// TextVec is the vector of a sequence of words; it depends on their order but
// not on the white space around them.
func TextVec(words []string, dim int) []float32 {
	v := make([]float32, dim)
	for p, w := range words {
		h := sha256.Sum256([]byte(w))
		for i := range v {
			x := binary.LittleEndian.Uint16(h[(i*2)%32:])
			s := float32(int(x)%2001-1000) / 1000
			v[i] += s / float32(p+1)
		}
	}
	return NonZero(v)
}

// Words that make the service misbehave.
const (
	WordFail  = "vfail500"
	WordBad   = "vbadjson"
	WordDim   = "vwrongdim"
	WordDrop  = "vdropconn"
	WordEmpty = "vnovector"
)

func (f *FakeVectorizer) serve(w http.ResponseWriter, r *http.Request) {
	if strings.Contains(r.URL.Path, "health") {
		w.WriteHeader(http.StatusOK)
		return
	}
	var body struct {
		Query []string `json:"query"`
	}
	if err := json.NewDecoder(r.Body).Decode(&body); err != nil {
		w.WriteHeader(http.StatusBadRequest)
		return
	}
	words := strings.Fields(strings.Join(body.Query, " "))
	f.mu.Lock()
	f.log = append(f.log, words)
	f.mu.Unlock()
	vec := TextVec(words, f.Dim)
	for _, x := range words {
		switch x {
		case WordFail:
			w.WriteHeader(http.StatusInternalServerError)
			_, _ = w.Write([]byte(`{"detail":"boom"}`))
			return
		case WordBad:
			_, _ = w.Write([]byte(`{"vector":[1,2`))
			return
		case WordEmpty:
			_, _ = w.Write([]byte(`{"result":"ok"}`))
			return
		case WordDim:
			vec = append(vec, 0.5, 0.25)
		case WordDrop:
			if hj, ok := w.(http.Hijacker); ok {
				if c, _, err := hj.Hijack(); err == nil {
					_ = c.Close()
				}
			}
			return
		}
	}
	_ = json.NewEncoder(w).Encode(map[string]interface{}{"vector": vec})
}
