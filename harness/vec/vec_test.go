// Package vec checks the client of the vectorizer service (P11).
package vec

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/pkg/vectorizer/rest"
	"pgregory.net/rapid"
	"verifharness/kit"
)

// Answer is what the service does with one request.
type Answer struct {
	K      string    `json:"k"`
	Status int       `json:"status,omitempty"`
	Vec    []float64 `json:"vec,omitempty"`
	Body   string    `json:"body,omitempty"`
	Cut    int       `json:"cut,omitempty"`
	Chunks int       `json:"chunks,omitempty"`
}

// Call is one vectorization.
type Call struct {
	Texts []string `json:"texts"`
	A     Answer   `json:"a"`
}

// Case is a sequence of calls of one vectorizer.
type Case struct {
	Health int    `json:"health"` // status of the health answer; 0 drops the connection, 1 nobody listens
	Calls  []Call `json:"calls"`
}

var badBodies = []string{"", "null", "[]", "{}", "true", "0", `"x"`, "[1,2,3]", `{"vector":null}`, `{"vector":[]}`, `{"vector":"1,2"}`, `{"vector":[1,"a"]}`,
	`{"vector":{"0":1}}`, `{"vector":[[1,2]]}`, `{"vector":true}`, `{"result":[1,2]}`, `<html><body>502 Bad Gateway</body></html>`, "not json", `{"error":"boom"}`, `{"vector":[1,2,}`, `{"vector":[1 2]}`, `{vector:[1]}`}

func genVec(t *rapid.T) []float64 {
	n := rapid.SampledFrom([]int{1, 2, 3, 4, 8, 50, 300, 3000}).Draw(t, "dim")
	r := rand.New(rand.NewSource(rapid.Int64Range(0, 1<<40).Draw(t, "vseed")))
	v := make([]float64, n)
	for i := range v {
		switch r.Intn(6) {
		case 0:
			v[i] = float64(r.Intn(5) - 2)
		case 1:
			v[i] = r.NormFloat64() * 1e-6
		case 2:
			v[i] = r.NormFloat64() * 1e6
		default:
			v[i] = r.NormFloat64()
		}
	}
	return v
}

func genText(t *rapid.T) string {
	switch rapid.IntRange(0, 3).Draw(t, "tk") {
	case 0:
		return rapid.SampledFrom([]string{"", " ", "a", "red fox", "\"quoted\"", "line\nbreak", "<b>&amp;</b>", "é 😀", "\\u0041", "{\"query\":[]}", "\u2028"}).Draw(t, "text")
	case 1:
		return rapid.String().Draw(t, "text")
	}
	return rapid.StringMatching(`[a-z ]{0,30}`).Draw(t, "text")
}

func genCase(t *rapid.T) Case {
	c := Case{Health: 200}
	if rapid.IntRange(0, 5).Draw(t, "h") == 4 {
		c.Health = rapid.SampledFrom([]int{0, 1, 500, 503, 404, 401, 429, 201, 202, 204, 400, 502, 418}).Draw(t, "health")
		return c
	}
	n := rapid.IntRange(1, 8).Draw(t, "calls")
	for i := 0; i < n; i++ {
		var k Call
		for j := rapid.IntRange(0, 4).Draw(t, "texts"); j > 0; j-- {
			k.Texts = append(k.Texts, genText(t))
		}
		k.A.K = rapid.SampledFrom([]string{"good", "good", "good", "status", "body", "cut", "short", "drop"}).Draw(t, "k")
		k.A.Vec = genVec(t)
		switch k.A.K {
		case "good":
			k.A.Chunks = rapid.IntRange(0, 3).Draw(t, "chunks")
		case "status":
			k.A.Status = rapid.SampledFrom([]int{201, 202, 203, 204, 206, 304, 400, 401, 403, 404, 408, 413, 422, 429, 500, 501, 502, 503, 504, 599}).Draw(t, "status")
			if rapid.IntRange(0, 2).Draw(t, "withbody") == 0 {
				k.A.Vec = nil
				k.A.Body = rapid.SampledFrom(badBodies).Draw(t, "sbody")
			}
		case "body":
			k.A.Body = rapid.SampledFrom(badBodies).Draw(t, "body")
			k.A.Vec = nil
		case "cut", "short":
			b, _ := json.Marshal(map[string]interface{}{"vector": k.A.Vec})
			k.A.Cut = rapid.IntRange(0, len(b)-1).Draw(t, "cut")
		case "drop":
			k.A.Vec = nil
		}
		c.Calls = append(c.Calls, k)
	}
	return c
}

type seen struct {
	method, path, ctype string
	body                []byte
}

type service struct {
	mu     sync.Mutex
	health int
	next   Answer
	got    []seen
}

func drop(w http.ResponseWriter) {
	if hj, ok := w.(http.Hijacker); ok {
		if c, _, err := hj.Hijack(); err == nil {
			_ = c.Close()
		}
	}
}

func (s *service) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if strings.Contains(r.URL.Path, "health") {
		if s.health == 0 {
			drop(w)
			return
		}
		w.WriteHeader(s.health)
		return
	}
	b, _ := io.ReadAll(r.Body)
	s.got = append(s.got, seen{r.Method, r.URL.Path, r.Header.Get("Content-Type"), b})
	a := s.next
	body := []byte(a.Body)
	if a.Vec != nil {
		body, _ = json.Marshal(map[string]interface{}{"vector": a.Vec})
	}
	switch a.K {
	case "drop":
		drop(w)
	case "status":
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(a.Status)
		if a.Status != 204 && a.Status != 304 {
			_, _ = w.Write(body)
		}
	case "cut":
		_, _ = w.Write(body[:a.Cut])
	case "short":
		// the connection breaks in the middle of the body
		if hj, ok := w.(http.Hijacker); ok {
			if c, _, err := hj.Hijack(); err == nil {
				fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", len(body), body[:a.Cut])
				_ = c.Close()
			}
		}
	default:
		w.Header().Set("Content-Type", "application/json")
		n := len(body)/(a.Chunks+1) + 1
		for len(body) > 0 {
			if n > len(body) {
				n = len(body)
			}
			_, _ = w.Write(body[:n])
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
			body = body[n:]
		}
	}
}

func TestP11(t *testing.T) {
	kit.Run(t, kit.Prop[Case]{
		ID: "P11", Quick: 4000, Thorough: 120000,
		Rule: "distinct cases with an unhealthy service, or with both a failing and a later good answer",
		Gen:  genCase,
		Check: func(ctx *kit.Ctx, c Case) error {
			s := &service{health: c.Health}
			srv := httptest.NewServer(s)
			url := srv.URL
			defer func() { srv.CloseClientConnections(); srv.Close() }()
			if c.Health == 1 {
				// a port that is taken, so that nobody else gets it, but on which
				// nobody listens
				fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
				kit.Abort(err)
				defer syscall.Close(fd)
				kit.Abort(syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}))
				sa, err := syscall.Getsockname(fd)
				kit.Abort(err)
				url = fmt.Sprintf("http://127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
			}
			v, err := rest.NewVectorizer(url)
			if c.Health != 200 {
				ctx.NonTrivial()
				ctx.Class("unhealthy")
				if err == nil {
					return fmt.Errorf("a vectorizer was created although the service answers its health check with %d", c.Health)
				}
				// and no client without a healthy service
				if _, err := document.New(document.Config{VectorizerUrl: url}, kit.NewWorld().API()); err == nil {
					return fmt.Errorf("a client was created although the service answers its health check with %d", c.Health)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("the service is healthy, creating the vectorizer failed: %w", err)
			}
			failed := false
			for i, k := range c.Calls {
				s.mu.Lock()
				s.next, s.got = k.A, nil
				s.mu.Unlock()
				texts := append([]string{}, k.Texts...)
				vec, err := v.Corpi(texts)
				s.mu.Lock()
				got := s.got
				s.mu.Unlock()
				ctx.Class("%s", k.A.K)
				if len(got) == 0 {
					return fmt.Errorf("call %d: the service saw no request", i)
				}
				for _, g := range got {
					if err := checkRequest(g, k.Texts); err != nil {
						return fmt.Errorf("call %d: %w", i, err)
					}
				}
				if k.A.K != "good" {
					failed = true
					if err == nil {
						return fmt.Errorf("call %d: the service answered %s (status %d, body %q, cut at %d), the call gave a vector of length %d and no error", i, k.A.K, k.A.Status, k.A.Body, k.A.Cut, vec.Len())
					}
					continue
				}
				if err != nil {
					return fmt.Errorf("call %d: the service answered with a vector, the call failed: %w", i, err)
				}
				want := make([]float32, len(k.A.Vec))
				for j, x := range k.A.Vec {
					want[j] = float32(x)
				}
				if vec == nil || !reflect.DeepEqual(vec.ToArray(), want) {
					return fmt.Errorf("call %d: the vector is not the one that was sent", i)
				}
				if vec.Len() != len(want) {
					return fmt.Errorf("call %d: length %d, sent were %d", i, vec.Len(), len(want))
				}
				if failed {
					ctx.NonTrivial()
				}
			}
			return nil
		},
	})
}

func checkRequest(g seen, texts []string) error {
	if g.method != http.MethodPost || g.path != "/vectorize" {
		return fmt.Errorf("request was %s %s", g.method, g.path)
	}
	if !strings.HasPrefix(g.ctype, "application/json") {
		return fmt.Errorf("content type %q", g.ctype)
	}
	var body struct {
		Query []string `json:"query"`
	}
	if err := json.Unmarshal(g.body, &body); err != nil {
		return fmt.Errorf("request body %q: %w", g.body, err)
	}
	if len(body.Query) != len(texts) {
		return fmt.Errorf("%d texts were sent, given were %d", len(body.Query), len(texts))
	}
	for i := range texts {
		// JSON has no way to carry bytes that are no UTF-8
		if body.Query[i] != strings.ToValidUTF8(texts[i], "\uFFFD") && strings.ToValidUTF8(texts[i], "") == texts[i] {
			return fmt.Errorf("text %d was sent as %q, given was %q", i, body.Query[i], texts[i])
		}
	}
	return nil
}
