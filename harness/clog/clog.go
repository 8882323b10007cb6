// Package clog checks the commit logs of pkg/hnsw: logging, replaying torn
// and complete logs, condensing, combining and crash recovery, against a model
// of the logged operations.
package clog

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/sirupsen/logrus"
	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/commitlog"
	"github.com/weaviate/weaviate/adapters/repos/db/vector/ssdhelpers"
	"github.com/weaviate/weaviate/entities/cyclemanager"
	"pgregory.net/rapid"

	"verifharness/kit"
)

var quiet = func() logrus.FieldLogger {
	l := logrus.New()
	l.SetOutput(io.Discard)
	l.SetLevel(logrus.PanicLevel)
	return l
}()

// Op is one logged operation or a control step.
type Op struct {
	K  string   `json:"k"` // node ep link links replace tomb untomb clear clearat delete reset pq | switch maybe reopen flush
	ID uint64   `json:"id,omitempty"`
	L  int      `json:"l,omitempty"`
	Ts []uint64 `json:"ts,omitempty"`
	PQ *PQ      `json:"pq,omitempty"`
}

// PQ describes a quantizer record.
type PQ struct {
	Tile bool  `json:"tile"`
	M    int   `json:"m"`
	DS   int   `json:"ds"`
	Ks   int   `json:"ks"`
	Bits bool  `json:"bits"`
	Dist byte  `json:"dist"`
	Seed int64 `json:"seed"`
}

func (p PQ) data() ssdhelpers.PQData {
	r := rand.New(rand.NewSource(p.Seed))
	d := ssdhelpers.PQData{Ks: uint16(p.Ks), M: uint16(p.M), Dimensions: uint16(p.M * p.DS), EncoderDistribution: p.Dist, UseBitsEncoding: p.Bits}
	if p.Tile {
		d.EncoderType = ssdhelpers.UseTileEncoder
		for i := 0; i < p.M; i++ {
			d.Encoders = append(d.Encoders, ssdhelpers.RestoreTileEncoder(float64(p.Ks), r.NormFloat64(), math.Abs(r.NormFloat64())+0.1, r.Float64()*100, r.NormFloat64(), r.NormFloat64(), uint16(i), p.Dist))
		}
		return d
	}
	d.EncoderType = ssdhelpers.UseKMeansEncoder
	for i := 0; i < p.M; i++ {
		var cs [][]float32
		for k := 0; k < p.Ks; k++ {
			c := make([]float32, p.DS)
			for j := range c {
				c[j] = float32(r.NormFloat64())
			}
			cs = append(cs, c)
		}
		d.Encoders = append(d.Encoders, ssdhelpers.NewKMeansWithCenters(p.Ks, p.DS, i, cs))
	}
	return d
}

func renderPQ(d ssdhelpers.PQData) string {
	var b strings.Builder
	fmt.Fprintf(&b, "dims %d type %v ks %d m %d dist %d bits %v", d.Dimensions, d.EncoderType, d.Ks, d.M, d.EncoderDistribution, d.UseBitsEncoding)
	for _, e := range d.Encoders {
		fmt.Fprintf(&b, " %x", e.ExposeDataForRestore())
	}
	return b.String()
}

// Node is a node of the model.
type Node struct {
	Level int
	Links [][]uint64
}

// State is what a log says.
type State struct {
	Nodes map[uint64]*Node
	EP    uint64
	EPL   int
	Tomb  map[uint64]bool
	PQ    string
}

func newState() *State { return &State{Nodes: map[uint64]*Node{}, Tomb: map[uint64]bool{}} }

func (s *State) clone() *State {
	o := newState()
	for id, n := range s.Nodes {
		c := &Node{Level: n.Level}
		for _, l := range n.Links {
			c.Links = append(c.Links, append([]uint64(nil), l...))
		}
		o.Nodes[id] = c
	}
	for id := range s.Tomb {
		o.Tomb[id] = true
	}
	o.EP, o.EPL, o.PQ = s.EP, s.EPL, s.PQ
	return o
}

func (s *State) at(id uint64, level int) *Node {
	n := s.Nodes[id]
	if n == nil {
		n = &Node{}
		s.Nodes[id] = n
	}
	for len(n.Links) <= level {
		n.Links = append(n.Links, nil)
	}
	return n
}

// apply is the meaning of an operation.
func (s *State) apply(o Op) {
	switch o.K {
	case "node":
		s.at(o.ID, o.L).Level = o.L
	case "ep":
		s.EP, s.EPL = o.ID, o.L
	case "link", "links":
		n := s.at(o.ID, o.L)
		n.Links[o.L] = append(n.Links[o.L], o.Ts...)
	case "replace":
		n := s.at(o.ID, o.L)
		n.Links[o.L] = append([]uint64(nil), o.Ts...)
	case "tomb":
		s.Tomb[o.ID] = true
	case "untomb":
		delete(s.Tomb, o.ID)
	case "clear":
		if n := s.Nodes[o.ID]; n != nil {
			n.Links = make([][]uint64, len(n.Links))
		}
	case "clearat":
		if s.Nodes[o.ID] != nil {
			s.at(o.ID, o.L).Links[o.L] = nil
		}
	case "delete":
		delete(s.Nodes, o.ID)
	case "reset":
		s.Nodes = map[uint64]*Node{}
		s.EP, s.EPL = 0, 0
	case "pq":
		s.PQ = renderPQ(o.PQ.data())
	}
}

func stateOf(r *hnsw.DeserializationResult) *State {
	s := newState()
	for i, n := range r.Nodes {
		if n == nil {
			continue
		}
		c := &Node{Level: n.Level}
		for _, l := range n.Connections {
			c.Links = append(c.Links, append([]uint64(nil), l...))
		}
		s.Nodes[uint64(i)] = c
	}
	for id := range r.Tombstones {
		s.Tomb[id] = true
	}
	s.EP, s.EPL = r.Entrypoint, int(r.Level)
	if r.Compressed {
		s.PQ = renderPQ(r.PQData)
	}
	return s
}

const (
	ordered  = iota // links in the logged order
	multiset        // links in any order
	set             // links in any order, repeated ones count once
)

func norm(l []uint64, how int) []uint64 {
	o := append([]uint64{}, l...)
	if how == ordered {
		return o
	}
	sort.Slice(o, func(a, b int) bool { return o[a] < o[b] })
	if how == multiset {
		return o
	}
	u := o[:0]
	for i, x := range o {
		if i == 0 || x != u[len(u)-1] {
			u = append(u, x)
		}
	}
	return u
}

// diff tells how got differs from want.
func diff(got, want *State, how int) error {
	for id, w := range want.Nodes {
		g := got.Nodes[id]
		if g == nil {
			return fmt.Errorf("node %d is missing", id)
		}
		if g.Level != w.Level {
			return fmt.Errorf("node %d has level %d, logged was %d", id, g.Level, w.Level)
		}
		for l := 0; l < len(g.Links) || l < len(w.Links); l++ {
			var gl, wl []uint64
			if l < len(g.Links) {
				gl = g.Links[l]
			}
			if l < len(w.Links) {
				wl = w.Links[l]
			}
			if !reflect.DeepEqual(norm(gl, how), norm(wl, how)) {
				return fmt.Errorf("node %d has links %s on layer %d, logged was %s", id, short(gl), l, short(wl))
			}
		}
	}
	for id := range got.Nodes {
		if want.Nodes[id] == nil {
			return fmt.Errorf("node %d should not exist", id)
		}
	}
	if got.EP != want.EP || got.EPL != want.EPL {
		return fmt.Errorf("entry point %d at level %d, logged was %d at %d", got.EP, got.EPL, want.EP, want.EPL)
	}
	if !reflect.DeepEqual(got.Tomb, want.Tomb) {
		return fmt.Errorf("tombstones %v, logged was %v", keys(got.Tomb), keys(want.Tomb))
	}
	if got.PQ != want.PQ {
		return fmt.Errorf("quantizer %q, logged was %q", cut(got.PQ), cut(want.PQ))
	}
	return nil
}

func short(l []uint64) string {
	if len(l) > 12 {
		return fmt.Sprintf("%v... (%d)", l[:12], len(l))
	}
	return fmt.Sprint(l)
}

func cut(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func keys(m map[uint64]bool) []uint64 {
	o := []uint64{}
	for k := range m {
		o = append(o, k)
	}
	sort.Slice(o, func(a, b int) bool { return o[a] < o[b] })
	return o
}

// Logger is what the checks use of the commit logger.
type Logger interface {
	AddPQ(ssdhelpers.PQData) error
	SetEntryPointWithMaxLayer(id uint64, level int) error
	ReplaceLinksAtLevel(nodeid uint64, level int, targets []uint64) error
	AddLinkAtLevel(nodeid uint64, level int, target uint64) error
	AddTombstone(nodeid uint64) error
	RemoveTombstone(nodeid uint64) error
	ClearLinks(nodeid uint64) error
	ClearLinksAtLevel(nodeid uint64, level uint16) error
	DeleteNode(nodeid uint64) error
	Reset() error
	Flush() error
	SwitchCommitLogs(force bool) error
	Shutdown(ctx context.Context) error
}

// addNode calls the logger's AddNode, whose argument type has no public name.
func addNode[T any](f func(*T) error, id uint64, level int) error {
	n := new(T)
	v := reflect.ValueOf(n).Elem()
	v.FieldByName("Id").SetUint(id)
	v.FieldByName("Level").SetInt(int64(level))
	return f(n)
}

const indexName = "main"

// logs is a log directory with the logger that writes to it.
type logs struct {
	root    string
	log     Logger
	node    func(id uint64, level int) error
	opts    []hnsw.CommitlogOption
	tickers []*ticker
}

func (g *logs) dir() string { return filepath.Join(g.root, indexName+".hnsw.commitlog.d") }

func openLogs(opts ...hnsw.CommitlogOption) *logs {
	root, err := os.MkdirTemp("", "clog")
	kit.Abort(err)
	g := &logs{root: root, opts: opts}
	g.open()
	return g
}

func (g *logs) open() {
	opts := append([]hnsw.CommitlogOption{hnsw.WithCommitlogCycleTicker(func() cyclemanager.CycleTicker { return cyclemanager.NewNoopTicker() })}, g.opts...)
	l, err := hnsw.NewCommitLogger(g.root, indexName, quiet, opts...)
	if err != nil {
		panic(fmt.Errorf("NewCommitLogger: %v", err))
	}
	g.log = l
	g.node = func(id uint64, level int) error { return addNode(l.AddNode, id, level) }
}

func (g *logs) remove() {
	if g.log != nil {
		_ = g.log.Flush()
		_ = g.log.Shutdown(context.Background())
	}
	_ = os.RemoveAll(g.root)
}

func stamp(name string) (int64, bool) {
	t, err := strconv.ParseInt(strings.TrimSuffix(name, ".condensed"), 10, 64)
	return t, err == nil
}

// names are the log files in the order of their time.
func names(dir string) []string {
	es, err := os.ReadDir(dir)
	kit.Abort(err)
	var out []string
	for _, e := range es {
		if _, ok := stamp(e.Name()); ok {
			out = append(out, e.Name())
		}
	}
	sort.SliceStable(out, func(a, b int) bool {
		x, _ := stamp(out[a])
		y, _ := stamp(out[b])
		return x < y
	})
	return out
}

// write logs an operation or does a control step.
func (g *logs) write(o Op) error {
	switch o.K {
	case "switch":
		return g.log.SwitchCommitLogs(true)
	case "maybe":
		return g.log.SwitchCommitLogs(false)
	case "flush":
		return g.log.Flush()
	case "reopen":
		if err := g.log.Flush(); err != nil {
			return err
		}
		if err := g.log.Shutdown(context.Background()); err != nil {
			return err
		}
		g.open()
		return nil
	case "node":
		return g.node(o.ID, o.L)
	case "ep":
		return g.log.SetEntryPointWithMaxLayer(o.ID, o.L)
	case "link":
		return g.log.AddLinkAtLevel(o.ID, o.L, o.Ts[0])
	case "replace":
		return g.log.ReplaceLinksAtLevel(o.ID, o.L, o.Ts)
	case "tomb":
		return g.log.AddTombstone(o.ID)
	case "untomb":
		return g.log.RemoveTombstone(o.ID)
	case "clear":
		return g.log.ClearLinks(o.ID)
	case "clearat":
		return g.log.ClearLinksAtLevel(o.ID, uint16(o.L))
	case "delete":
		return g.log.DeleteNode(o.ID)
	case "reset":
		return g.log.Reset()
	case "pq":
		return g.log.AddPQ(o.PQ.data())
	}
	kit.Abort(fmt.Errorf("unknown step %q", o.K))
	return nil
}

// writeRaw logs with the library's logger, which also knows batches of links
// (only condensing writes those).
func writeRaw(l *commitlog.Logger, o Op) error {
	switch o.K {
	case "node":
		return l.AddNode(o.ID, o.L)
	case "ep":
		return l.SetEntryPointWithMaxLayer(o.ID, o.L)
	case "link":
		return l.AddLinkAtLevel(o.ID, o.L, o.Ts[0])
	case "links":
		return l.AddLinksAtLevel(o.ID, o.L, o.Ts)
	case "replace":
		return l.ReplaceLinksAtLevel(o.ID, o.L, o.Ts)
	case "tomb":
		return l.AddTombstone(o.ID)
	case "untomb":
		return l.RemoveTombstone(o.ID)
	case "clear":
		return l.ClearLinks(o.ID)
	case "clearat":
		return l.ClearLinksAtLevel(o.ID, uint16(o.L))
	case "delete":
		return l.DeleteNode(o.ID)
	case "reset":
		return l.Reset()
	case "pq":
		return l.AddPQ(o.PQ.data())
	}
	return nil
}

// replay reads all logs of a directory in order and checks their valid length.
func replay(dir string, sharedReader bool) (*State, error) {
	d := hnsw.NewDeserializer(quiet)
	var res *hnsw.DeserializationResult
	for _, n := range names(dir) {
		b, err := os.ReadFile(filepath.Join(dir, n))
		kit.Abort(err)
		if !sharedReader {
			d = hnsw.NewDeserializer(quiet)
		}
		r, valid, err := d.Do(bufio.NewReaderSize(bytes.NewReader(b), 256), res, false)
		if err != nil {
			return nil, fmt.Errorf("reading log %s: %v", n, err)
		}
		if valid != len(b) {
			return nil, fmt.Errorf("log %s has %d bytes, %d are reported as valid", n, len(b), valid)
		}
		res = r
	}
	if res == nil {
		return newState(), nil
	}
	return stateOf(res), nil
}

func isEOF(err error) bool { return errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) }

// ticker is a cycle ticker that ticks when told to.
type ticker struct {
	c    chan time.Time
	done chan bool
}

func (t *ticker) Start()               {}
func (t *ticker) Stop()                {}
func (t *ticker) C() <-chan time.Time  { return t.c }
func (t *ticker) CycleExecuted(x bool) { t.done <- x }

// tick runs one maintenance cycle and tells whether it did something.
func (t *ticker) tick() bool {
	t.c <- time.Time{}
	return <-t.done
}

// offer runs one maintenance cycle if maintenance takes the tick.
func (t *ticker) offer() bool {
	select {
	case t.c <- time.Time{}:
	case <-time.After(4 * time.Millisecond):
		return false
	}
	select {
	case <-t.done:
	case <-time.After(5 * time.Second):
	}
	return true
}

type tickers struct {
	mu sync.Mutex
	ts []*ticker
}

func (x *tickers) make() cyclemanager.CycleTicker {
	x.mu.Lock()
	defer x.mu.Unlock()
	t := &ticker{c: make(chan time.Time), done: make(chan bool, 1)}
	x.ts = append(x.ts, t)
	return t
}

// genOps draws logged operations. safe: only what an index can log, given the
// state so far (model is advanced).
func genOps(t *rapid.T, model *State, n int, safe bool, big int, allowPQ bool) []Op {
	kinds := []string{"node", "node", "node", "node", "link", "link", "link", "link", "replace", "replace", "replace", "clearat", "clearat", "ep", "ep", "tomb", "untomb", "clear", "delete", "delete"}
	var ops []Op
	var used []uint64
	ids := rapid.SampledFrom([]string{"few", "few", "some", "large"}).Draw(t, "ids")
	genID := func() uint64 {
		if len(used) > 0 && rapid.IntRange(0, 3).Draw(t, "known") > 0 {
			return rapid.SampledFrom(used).Draw(t, "id")
		}
		var id uint64
		switch ids {
		case "few":
			id = rapid.Uint64Range(0, 5).Draw(t, "id")
		case "some":
			id = rapid.Uint64Range(0, 60).Draw(t, "id")
		default:
			id = rapid.SampledFrom([]uint64{0, 1, 255, 256, 24999, 25000, 25001, 26999, 27000, 31250, 40000, 70000}).Draw(t, "id")
		}
		used = append(used, id)
		return id
	}
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(kinds).Draw(t, "k")
		switch rapid.IntRange(0, 60).Draw(t, "rare") {
		case 37:
			k = "reset"
		case 53, 59:
			if allowPQ {
				k = "pq"
			}
		}
		o := Op{K: k}
		switch k {
		case "reset":
		case "pq":
			o.PQ = &PQ{Tile: rapid.Bool().Draw(t, "tile"), M: rapid.IntRange(1, 4).Draw(t, "m"), DS: rapid.IntRange(1, 3).Draw(t, "ds"),
				Ks: rapid.IntRange(1, 5).Draw(t, "ks"), Bits: rapid.Bool().Draw(t, "bits"), Dist: byte(rapid.IntRange(0, 1).Draw(t, "dist")), Seed: rapid.Int64Range(1, 1000).Draw(t, "pqseed")}
		default:
			o.ID = genID()
		}
		switch k {
		case "node", "ep", "link", "replace", "clearat":
			o.L = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 2, 3, 7}).Draw(t, "l")
		}
		if rapid.IntRange(0, 15).Draw(t, "far") == 9 {
			// sizes that do not fit a byte, or a half word
			switch k {
			case "node", "link", "replace":
				o.L = rapid.SampledFrom([]int{15, 16, 127, 128, 255, 256, 300}).Draw(t, "l")
			case "ep":
				o.L = rapid.SampledFrom([]int{15, 127, 128, 255, 256, 32767, 32768, 65535}).Draw(t, "l")
				o.ID = rapid.SampledFrom([]uint64{65535, 65536, 1 << 31, 1 << 32, 1<<40 + 7, 1<<62 + 1}).Draw(t, "id")
			case "tomb", "untomb":
				o.ID = rapid.SampledFrom([]uint64{65535, 65536, 1 << 31, 1 << 32, 1<<40 + 7, 1<<62 + 1}).Draw(t, "id")
			}
		}
		switch k {
		case "link":
			o.Ts = []uint64{rapid.Uint64Range(0, 99).Draw(t, "t")}
			if rapid.IntRange(0, 15).Draw(t, "fart") == 9 {
				o.Ts[0] = rapid.SampledFrom([]uint64{255, 256, 65535, 65536, 1 << 31, 1 << 32, 1<<40 + 7, 1<<63 + 1}).Draw(t, "t")
			}
		case "replace":
			m := rapid.SampledFrom([]int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24}).Draw(t, "nt")
			if big > 0 {
				m = big
			}
			from := rapid.Uint64Range(0, 1<<40).Draw(t, "from")
			o.Ts = make([]uint64, m)
			for j := range o.Ts {
				o.Ts[j] = from + uint64(j)*uint64(j+1)
			}
		}
		if safe {
			nd := model.Nodes[o.ID]
			switch k {
			case "node":
				if nd != nil {
					o.L = nd.Level
					if o.L == 0 && len(nd.Links) > 1 {
						o.L = len(nd.Links) - 1
					}
				}
			case "clearat":
				if nd == nil {
					continue
				}
			}
		}
		model.apply(o)
		ops = append(ops, o)
	}
	return ops
}
