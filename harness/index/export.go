package index

import (
	"encoding/json"
	"fmt"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	"pgregory.net/rapid"

	"verifharness/kit"
)

// GenLogged draws a history of insertions and flushes.
func GenLogged(t *rapid.T) History { return genLogged(t, []string{"flush", "flush", "knn"}) }

// GenBackups draws a history of insertions, deletions, maintenance and backups.
func GenBackups(t *rapid.T) History {
	h := genLogged(t, []string{"flush", "knn", "del", "backup", "backup", "tick", "tick"})
	h.Ops = append(h.Ops, Op{K: "backup"})
	return h
}

func genLogged(t *rapid.T, kinds []string) History {
	h := History{Conf: genConf(t, rapid.Bool().Draw(t, "tight"))}
	genOps(t, &h, rapid.SampledFrom([]int{3, 12, 40, 80}).Draw(t, "max"), kinds)
	return h
}

// StoredNode is a node as the table has it.
type StoredNode struct {
	Level int
	Links [][]uint64
}

// Logged is an index that writes a commit log.
type Logged struct {
	*run
}

// OpenLogged opens an index that writes a commit log.
func OpenLogged(ctx *kit.Ctx, h History, log hnsw.MakeCommitLogger) Logged {
	r := &run{h: h, ctx: ctx, model: map[uint64][]float32{}, stored: map[uint64][]float32{}, dead: map[uint64]bool{}}
	kit.SeedGlobalRand(h.Conf.Seed)
	r.kv, r.name, r.reopen = table()
	r.ix = h.Conf.openLogged(r.kv, r.name, log)
	return Logged{r}
}

// Index gives the index itself.
func (l Logged) Index() Index { return l.ix }

// Step does one step of the history.
func (l Logged) Step(o Op) error { return l.step(o) }

// Close removes the index.
func (l Logged) Close() { closeIndex(l.ix) }

// Dead are the deleted ids.
func (l Logged) Dead() map[uint64]bool { return l.dead }

// Stored flushes the index and reads what the table has.
func (l Logged) Stored() (map[uint64]StoredNode, uint64, error) {
	r := l.run
	if err := r.step(Op{K: "flush"}); err != nil {
		return nil, 0, err
	}
	nodes := map[uint64]StoredNode{}
	for id := range r.model {
		_, raw, err := r.kv.KVGet(r.name, fmt.Sprintf("%d", id))
		if err != nil {
			return nil, 0, fmt.Errorf("vector %d is not stored: %v", id, err)
		}
		var n node
		if err := json.Unmarshal(raw, &n); err != nil {
			return nil, 0, fmt.Errorf("stored node %d is broken: %v", id, err)
		}
		nodes[id] = StoredNode{n.Level, n.Connections}
	}
	return nodes, r.ix.Entrypoint(), nil
}
