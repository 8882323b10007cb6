// Package rest checks the HTTP API (P08, P09): the server is started by its own
// start-up code, over an in-memory Swarm node.
package rest

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/fairDataSociety/FaVe/adapters/handlers"
	"github.com/fairDataSociety/FaVe/restapi"
	"github.com/fairDataSociety/FaVe/restapi/operations"
	"github.com/go-openapi/loads"
	"verifharness/kit"
)

// Server is a running FaVe server.
type Server struct {
	srv    *httptest.Server
	client *http.Client
	errs   *lockedBuf
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}
func (l *lockedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

// start starts a server on the data of the world.
func start(w *kit.World) (*Server, error) {
	w.Connect()
	// the server ends the process if it cannot start, so see first whether it can
	if _, err := handlers.NewHandler(context.Background(), &handlers.HandlerConfig{}); err != nil {
		return nil, fmt.Errorf("the server does not start: %w", err)
	}
	spec, err := loads.Embedded(restapi.SwaggerJSON, restapi.FlatSwaggerJSON)
	if err != nil {
		return nil, fmt.Errorf("the server does not start: %w", err)
	}
	api := operations.NewFaveAPI(spec)
	api.Logger = func(string, ...interface{}) {}
	server := restapi.NewServer(api)
	server.ConfigureAPI()
	s := &Server{errs: &lockedBuf{}}
	s.srv = httptest.NewUnstartedServer(server.GetHandler())
	s.srv.Config.ErrorLog = log.New(s.errs, "", 0)
	s.srv.Start()
	s.client = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DisableCompression: true},
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	return s, nil
}

func (s *Server) close() {
	s.client.CloseIdleConnections()
	s.srv.CloseClientConnections()
	s.srv.Close()
}

// Response is what came back.
type Response struct {
	Status int
	Type   string
	Body   []byte
}

func (r *Response) String() string {
	b := string(r.Body)
	if len(b) > 400 {
		b = b[:400] + "..."
	}
	return fmt.Sprintf("%d %s", r.Status, b)
}

// do sends a request; not getting an answer is a violation.
func (s *Server) do(method, path string, header map[string]string, body []byte) (*Response, error) {
	req, err := http.NewRequest(method, s.srv.URL+path, bytes.NewReader(body))
	if err != nil {
		return nil, nil // not expressible as a request
	}
	for k, v := range header {
		if v == "" {
			req.Header.Del(k)
			continue
		}
		req.Header.Set(k, v)
	}
	resp, err := s.client.Do(req)
	if err != nil {
		e := s.errs.String()
		if i := strings.Index(e, "panic"); i >= 0 {
			e = e[i:]
			if len(e) > 2000 {
				e = e[:2000]
			}
			return nil, fmt.Errorf("%s %s: no answer, the handler crashed: %s", method, path, e)
		}
		return nil, fmt.Errorf("%s %s: no answer: %w", method, path, err)
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, fmt.Errorf("%s %s: the answer broke off: %w", method, path, err)
	}
	return &Response{resp.StatusCode, resp.Header.Get("Content-Type"), b}, nil
}

// call sends a JSON request.
func (s *Server) call(method, path string, body interface{}) (*Response, error) {
	var b []byte
	h := map[string]string{"Accept": "application/json"}
	if body != nil {
		var err error
		b, err = json.Marshal(body)
		kit.Abort(err)
		h["Content-Type"] = "application/json"
	}
	r, err := s.do(method, path, h, b)
	if err == nil && r == nil {
		kit.Abort(fmt.Errorf("bad request %s %s", method, path))
	}
	return r, err
}

// wellFormed checks an answer of one of the documented routes.
func wellFormed(r *Response, head bool) error {
	if r.Status >= 500 {
		return fmt.Errorf("answered %s", r)
	}
	if r.Status < 200 || head {
		return nil
	}
	if r.Status >= 400 {
		var m map[string]interface{}
		if err := json.Unmarshal(r.Body, &m); err != nil {
			return fmt.Errorf("the error body is no JSON object: %s", r)
		}
		if m["error"] == nil && m["message"] == nil {
			return fmt.Errorf("the error body says nothing: %s", r)
		}
	}
	return nil
}

func init() {
	// the server prints every added document
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && os.Getenv("VERIF_OUT") != "" {
		os.Stdout = null
	}
}
