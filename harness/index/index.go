// Package index checks the vector index of pkg/hnsw directly: generated
// histories of insertions, flushes, reloads, deletions and searches against a
// brute-force model.
package index

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	fave "github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"

	"verifharness/kit"
)

// Index is what the checks use of *hnsw.
type Index interface {
	Add(id uint64, vector []float32) error
	Delete(ids ...uint64) error
	Flush(docCount uint64) error
	GetDocCount() (uint64, error)
	LoadEntrypoint() error
	Entrypoint() uint64
	SearchByVector(vector []float32, k int, allowList helpers.AllowList) ([]uint64, []float32, error)
	SearchByVectorDistance(vector []float32, targetDistance float32, maxLimit int64, allowList helpers.AllowList) ([]uint64, []float32, error)
	KnnSearchByVectorMaxDist(query []float32, dist float32, ef int, allowList helpers.AllowList) ([]uint64, []float32, error)
	ValidateBeforeInsert(vector []float32) error
	Drop(ctx context.Context) error
	Shutdown(ctx context.Context) error
	PauseMaintenance(ctx context.Context) error
	SwitchCommitLogs(ctx context.Context) error
	ListFiles(ctx context.Context) ([]string, error)
	ResumeMaintenance(ctx context.Context) error
}

// store is a key-value store shared by the cases of one process.
type store struct {
	mu   sync.Mutex
	w    *kit.World
	used int
}

var shared store
var tables int64

// table makes a fresh table and returns the store and its name, plus a
// function that opens the store again as a new process would.
func table() (kv *collection.KeyValue, name string, reopen func() *collection.KeyValue) {
	shared.mu.Lock()
	defer shared.mu.Unlock()
	if shared.w == nil || shared.used > 150 {
		shared.w, shared.used = kit.NewWorld(), 0
	}
	shared.used++
	w := shared.w
	name = fmt.Sprintf("t%06xq", atomic.AddInt64(&tables, 1))
	var commit func()
	open := func(create bool) *collection.KeyValue {
		api := w.API()
		u, p := kit.Credentials()
		lr, err := api.LoginUserV2(u, p, "")
		kit.Abort(err)
		sess := lr.UserInfo.GetSessionId()
		pi, err := api.OpenPod(kit.Pod, sess)
		if err != nil && create {
			pi, err = api.CreatePod(kit.Pod, sess)
			kit.Abort(err)
			kit.Abort(api.CommitPodFeeds(kit.Pod, sess))
		}
		kit.Abort(err)
		kv := pi.GetKVStore()
		if create {
			kit.Abort(kv.CreateKVTable(name, pi.GetPodPassword(), collection.StringIndex))
		}
		kit.Abort(kv.OpenKVTable(name, pi.GetPodPassword()))
		commit = func() { kit.Abort(api.CommitPodFeeds(kit.Pod, sess)) }
		return kv
	}
	return open(true), name, func() *collection.KeyValue { commit(); return open(false) }
}

// Conf is the configuration of a generated index.
type Conf struct {
	Metric   string `json:"metric"`
	MaxConn  int    `json:"maxConn"`
	EFC      int    `json:"efc"`
	EF       int    `json:"ef"`
	EFMin    int    `json:"efMin"`
	EFMax    int    `json:"efMax"`
	EFFactor int    `json:"efFactor"`
	Cutoff   int    `json:"cutoff"`
	CacheMax int    `json:"cacheMax"`
	Seed     int64  `json:"seed"`
}

func (c Conf) provider() distancer.Provider {
	switch c.Metric {
	case "l2":
		return distancer.NewL2SquaredProvider()
	case "dot":
		return distancer.NewDotProductProvider()
	case "manhattan":
		return distancer.NewManhattanProvider()
	}
	return fave.NewCosineDistanceProvider()
}

// dist is the reference distance and the tolerance that goes with it.
func (c Conf) dist(a, b []float32) (float64, float64) {
	var d, s float64
	switch c.Metric {
	case "l2":
		for i := range a {
			x := float64(a[i]) - float64(b[i])
			d += x * x
		}
		return d, 1e-5 + 1e-5*math.Abs(d)
	case "manhattan":
		for i := range a {
			d += math.Abs(float64(a[i]) - float64(b[i]))
		}
		return d, 1e-5 + 1e-5*math.Abs(d)
	case "dot":
		for i := range a {
			d -= float64(a[i]) * float64(b[i])
			s += math.Abs(float64(a[i]) * float64(b[i]))
		}
		return d, 1e-5 + 1e-5*s
	}
	return kit.CosDist(a, b), kit.Tol
}

func (c Conf) open(kv *collection.KeyValue, name string) Index {
	return c.openLogged(kv, name, hnsw.MakeNoopCommitLogger)
}

func (c Conf) openLogged(kv *collection.KeyValue, name string, log hnsw.MakeCommitLogger) Index {
	ix, err := hnsw.New(hnsw.Config{
		RootPath: "not-used", ID: "not-used",
		MakeCommitLoggerThunk: log,
		DistanceProvider:      c.provider(),
		VectorForIDThunk: func(context.Context, uint64) ([]float32, error) {
			return nil, errors.New("document not found")
		},
		ClassName: name,
	}, hnsw.UserConfig{
		MaxConnections: c.MaxConn, EFConstruction: c.EFC, EF: c.EF,
		DynamicEFMin: c.EFMin, DynamicEFMax: c.EFMax, DynamicEFFactor: c.EFFactor,
		FlatSearchCutoff: c.Cutoff, VectorCacheMaxObjects: c.CacheMax,
	}, kv)
	kit.Abort(err)
	return ix
}

// closeIndex stops the background goroutines of an index (best effort; only
// to save memory).
func closeIndex(ix Index) {
	_ = ix.Drop(context.Background())
	defer func() { _ = recover() }()
	v := reflect.ValueOf(ix).Elem().FieldByName("compressedVectorsCache")
	if !v.IsValid() || v.IsNil() {
		return
	}
	ch := v.Elem().Elem().FieldByName("cancel")
	if !ch.IsValid() || ch.Kind() != reflect.Chan {
		return
	}
	c := *(*chan bool)(unsafe.Pointer(ch.UnsafeAddr()))
	go func() { c <- true }()
}

// node is a stored node.
type node struct {
	ID          uint64     `json:"_id"`
	Level       int        `json:"level"`
	Connections [][]uint64 `json:"connections"`
	Vector      []float32  `json:"vector"`
}

// graph checks the stored graph: everything the search relies on.
func (c Conf) graph(kv *collection.KeyValue, name string, model map[uint64][]float32, count uint64, reloaded bool) error {
	nodes := map[uint64]*node{}
	top := 0
	for id := range model {
		_, raw, err := kv.KVGet(name, fmt.Sprintf("%d", id))
		if err != nil {
			return fmt.Errorf("vector %d is not stored: %v", id, err)
		}
		var n node
		if err := json.Unmarshal(raw, &n); err != nil {
			return fmt.Errorf("stored node %d is broken: %v", id, err)
		}
		nodes[id] = &n
		if n.Level > top {
			top = n.Level
		}
	}
	for id, n := range nodes {
		if n.ID != id {
			return fmt.Errorf("node %d is stored with the id %d", id, n.ID)
		}
		v := model[id]
		if len(n.Vector) != len(v) {
			return fmt.Errorf("node %d is stored with %d components, was added with %d", id, len(n.Vector), len(v))
		}
		if c.Metric == "cosine" {
			if d := kit.CosDist(n.Vector, v); d > 1e-5 {
				return fmt.Errorf("node %d is stored with another vector (at distance %v)", id, d)
			}
		} else if !reflect.DeepEqual(n.Vector, v) {
			return fmt.Errorf("node %d is stored with vector %v, was added with %v", id, n.Vector, v)
		}
		if len(n.Connections) != n.Level+1 {
			return fmt.Errorf("node %d has level %d but %d layers of links", id, n.Level, len(n.Connections))
		}
		for l, conns := range n.Connections {
			max := c.MaxConn
			if l == 0 {
				max *= 2
			}
			if len(conns) > max {
				return fmt.Errorf("node %d has %d links on layer %d, at most %d are configured", id, len(conns), l, max)
			}
			seen := map[uint64]bool{}
			for _, o := range conns {
				on := nodes[o]
				switch {
				case o == id:
					return fmt.Errorf("node %d is linked to itself on layer %d", id, l)
				case seen[o]:
					return fmt.Errorf("node %d is linked twice to %d on layer %d", id, o, l)
				case on == nil:
					return fmt.Errorf("node %d is linked to %d, which is not stored", id, o)
				case on.Level < l:
					return fmt.Errorf("node %d is linked on layer %d to %d, whose level is %d", id, l, o, on.Level)
				}
				seen[o] = true
			}
		}
	}
	if len(model) == 0 {
		return nil
	}
	var ep struct {
		ID *uint64 `json:"id"`
	}
	_, raw, err := kv.KVGet(name, "entrypoint")
	if err != nil || json.Unmarshal(raw, &ep) != nil || ep.ID == nil {
		return fmt.Errorf("no entry point is stored (%q, %v)", raw, err)
	}
	en := nodes[*ep.ID]
	if en == nil {
		return fmt.Errorf("the stored entry point %d is no node", *ep.ID)
	}
	if !reloaded && en.Level != top {
		return fmt.Errorf("the entry point %d has level %d, the highest level is %d", *ep.ID, en.Level, top)
	}
	var cnt struct {
		Count *uint64 `json:"count"`
	}
	_, raw, err = kv.KVGet(name, "count")
	if err != nil || json.Unmarshal(raw, &cnt) != nil || cnt.Count == nil || *cnt.Count != count {
		return fmt.Errorf("the stored count is %q (%v), flushed was %d", raw, err, count)
	}
	if len(model) < c.MaxConn && len(model) <= c.EFC {
		seen := map[uint64]bool{*ep.ID: true}
		todo := []uint64{*ep.ID}
		for len(todo) > 0 {
			n := nodes[todo[0]]
			todo = todo[1:]
			for _, o := range n.Connections[0] {
				if !seen[o] {
					seen[o] = true
					todo = append(todo, o)
				}
			}
		}
		for id := range nodes {
			if !seen[id] {
				return fmt.Errorf("node %d cannot be reached from the entry point %d (%d nodes)", id, *ep.ID, len(nodes))
			}
		}
	}
	return nil
}

// res is what a search may and must return.
type query struct {
	q     []float32
	bound float64 // +Inf: none
	limit int     // <0: none
	allow map[uint64]bool
	exact bool
}

// check compares an answer with brute force.
func (c Conf) check(model map[uint64][]float32, ids []uint64, dists []float32, s query) error {
	if len(ids) != len(dists) {
		return fmt.Errorf("%d ids but %d distances", len(ids), len(dists))
	}
	if s.limit >= 0 && len(ids) > s.limit {
		return fmt.Errorf("%d results, limit %d", len(ids), s.limit)
	}
	seen := map[uint64]bool{}
	for i, id := range ids {
		v, ok := model[id]
		if !ok {
			return fmt.Errorf("result %d is not in the index", id)
		}
		if seen[id] {
			return fmt.Errorf("result %d twice", id)
		}
		seen[id] = true
		if s.allow != nil && !s.allow[id] {
			return fmt.Errorf("result %d is not on the allow list", id)
		}
		want, tol := c.dist(s.q, v)
		if !(math.Abs(float64(dists[i])-want) <= tol) {
			return fmt.Errorf("distance of %d is reported as %v, is %v", id, dists[i], want)
		}
		if float64(dists[i]) > s.bound+2e-6+1e-6*math.Abs(s.bound) {
			return fmt.Errorf("result %d at %v is beyond the bound %v", id, dists[i], s.bound)
		}
		if i > 0 && dists[i] < dists[i-1] {
			return fmt.Errorf("distances are not ascending: %v after %v", dists[i], dists[i-1])
		}
	}
	if !s.exact {
		return nil
	}
	type cand struct {
		id     uint64
		d, tol float64
	}
	var sure []cand
	for id, v := range model {
		if s.allow != nil && !s.allow[id] {
			continue
		}
		if d, tol := c.dist(s.q, v); d <= s.bound-tol {
			sure = append(sure, cand{id, d, tol})
		}
	}
	sort.Slice(sure, func(i, j int) bool { return sure[i].d < sure[j].d })
	want := len(sure)
	if s.limit >= 0 && want > s.limit {
		want = s.limit
	}
	cut := math.Inf(1)
	if s.limit >= 0 && len(ids) == s.limit && s.limit > 0 {
		cut = float64(dists[len(dists)-1])
	}
	for _, x := range sure {
		if s.limit == 0 {
			break
		}
		if !seen[x.id] && x.d < cut-2*x.tol {
			return fmt.Errorf("missed %d at %v; %d results, %d are wanted (bound %v, limit %d)", x.id, x.d, len(ids), want, s.bound, s.limit)
		}
	}
	if len(ids) < want {
		return fmt.Errorf("%d results, %d are wanted (bound %v, limit %d)", len(ids), want, s.bound, s.limit)
	}
	return nil
}

func allowOf(ids []uint64) (helpers.AllowList, map[uint64]bool) {
	if ids == nil {
		return nil, nil
	}
	m := map[uint64]bool{}
	for _, id := range ids {
		m[id] = true
	}
	return helpers.NewAllowList(ids...), m
}
