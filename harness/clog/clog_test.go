package clog

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/commitlog"
	"github.com/weaviate/weaviate/entities/cyclemanager"
	"pgregory.net/rapid"

	"verifharness/index"
	"verifharness/kit"
)

// Log is a logged history.
type Log struct {
	Ops       []Op  `json:"ops"`
	Threshold int64 `json:"threshold"`
	Shared    bool  `json:"shared"`
}

func genLog(t *rapid.T) Log {
	c := Log{Shared: rapid.Bool().Draw(t, "shared"), Threshold: rapid.SampledFrom([]int64{0, 1, 100, 1 << 30}).Draw(t, "threshold")}
	model := newState()
	big := 0
	if rapid.IntRange(0, 60).Draw(t, "isbig") == 0 {
		big = rapid.SampledFrom([]int{500, 4000, 65535}).Draw(t, "big")
	}
	parts := rapid.IntRange(1, 5).Draw(t, "parts")
	for i := 0; i < parts; i++ {
		if i > 0 {
			c.Ops = append(c.Ops, Op{K: rapid.SampledFrom([]string{"switch", "switch", "switch", "reopen", "maybe", "flush"}).Draw(t, "control")})
		}
		c.Ops = append(c.Ops, genOps(t, model, rapid.IntRange(0, 30).Draw(t, "n"), false, big, true)...)
	}
	return c
}

func TestP19(t *testing.T) {
	kit.Run(t, kit.Prop[Log]{
		ID: "P19", Quick: 12000, Thorough: 400000,
		Rule: "a log of at least 5 operations of at least 3 kinds",
		Gen:  genLog,
		Check: func(ctx *kit.Ctx, c Log) error {
			g := openLogs(hnsw.WithCommitlogThreshold(c.Threshold))
			defer g.remove()
			model := newState()
			kinds := map[string]bool{}
			for i, o := range c.Ops {
				if err := g.write(o); err != nil {
					return fmt.Errorf("step %d (%s): %v", i, o.K, err)
				}
				model.apply(o)
				kinds[o.K] = true
			}
			if err := g.log.Flush(); err != nil {
				return fmt.Errorf("flush: %v", err)
			}
			for k := range kinds {
				ctx.Class("log with %s", k)
			}
			ctx.Class("files %d", len(names(g.dir())))
			if len(c.Ops) >= 5 && len(kinds) >= 3 {
				ctx.NonTrivial()
			}
			s, err := replay(g.dir(), c.Shared)
			if err != nil {
				return err
			}
			return diff(s, model, ordered)
		},
	})
}

func TestP19_graph(t *testing.T) {
	kit.Run(t, kit.Prop[index.History]{
		ID: "P19", Sub: "graph", Quick: 1200, Thorough: 30000,
		Rule: "an index of at least 5 vectors writes a commit log",
		Gen:  index.GenLogged,
		Check: func(ctx *kit.Ctx, h index.History) error {
			root, err := os.MkdirTemp("", "graph")
			kit.Abort(err)
			defer os.RemoveAll(root)
			g := &logs{root: root}
			thunk := func() (hnsw.CommitLogger, error) {
				return hnsw.NewCommitLogger(root, indexName, quiet, hnsw.WithCommitlogCycleTicker(func() cyclemanager.CycleTicker { return cyclemanager.NewNoopTicker() }))
			}
			x := index.OpenLogged(ctx, h, thunk)
			defer x.Close()
			for i, o := range h.Ops {
				if err := x.Step(o); err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
			}
			nodes, ep, err := x.Stored()
			if err != nil {
				return err
			}
			s, err := replay(g.dir(), false)
			if err != nil {
				return err
			}
			if len(nodes) >= 5 {
				ctx.NonTrivial()
			}
			if err := diff(s, graphState(nodes, ep), multiset); err != nil {
				return fmt.Errorf("the replayed log and the stored index (logged) differ: %v", err)
			}
			return nil
		},
	})
}

// graphState is the state that replays to a stored graph.
func graphState(nodes map[uint64]index.StoredNode, ep uint64) *State {
	want := newState()
	for id, n := range nodes {
		want.Nodes[id] = &Node{Level: n.Level, Links: n.Links}
	}
	want.EP, want.EPL = ep, nodes[ep].Level
	return want
}

// Torn is a log that is cut everywhere.
type Torn struct {
	First   []Op   `json:"first"` // complete log before it
	Ops     []Op   `json:"ops"`
	Raw     bool   `json:"raw"` // written record by record with the library's logger
	Buf     int    `json:"buf"`
	Unknown []byte `json:"unknown"` // types of unknown records, tried at every boundary
	Rest    []byte `json:"rest"`
}

func genTorn(t *rapid.T) Torn {
	c := Torn{Raw: rapid.Bool().Draw(t, "raw"), Buf: rapid.SampledFrom([]int{16, 17, 64, 4096}).Draw(t, "buf")}
	model := newState()
	if rapid.Bool().Draw(t, "chained") {
		c.First = genOps(t, model, rapid.IntRange(1, 15).Draw(t, "n0"), false, 0, true)
	}
	c.Ops = genOps(t, model, rapid.IntRange(1, 18).Draw(t, "n"), false, 0, true)
	if c.Raw {
		for i := range c.Ops {
			if c.Ops[i].K == "replace" && rapid.Bool().Draw(t, "links") {
				c.Ops[i].K = "links"
			}
		}
	}
	n := rapid.IntRange(0, 3).Draw(t, "nu")
	for i := 0; i < n; i++ {
		c.Unknown = append(c.Unknown, byte(rapid.IntRange(12, 255).Draw(t, "u")))
	}
	c.Rest = rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "rest")
	return c
}

func TestP20(t *testing.T) {
	kit.Run(t, kit.Prop[Torn]{
		ID: "P20", Quick: 2400, Thorough: 80000,
		Rule: "a log of at least 3 records, cut at every byte",
		Gen:  genTorn,
		Check: func(ctx *kit.Ctx, c Torn) error {
			// write, with the length after every record
			var content, first []byte
			var ends []int
			if c.Raw {
				dir, err := os.MkdirTemp("", "raw")
				kit.Abort(err)
				defer os.RemoveAll(dir)
				write := func(name string, ops []Op) []byte {
					f := filepath.Join(dir, name)
					l := commitlog.NewLogger(f)
					for _, o := range ops {
						kit.Abort(writeRaw(l, o))
						kit.Abort(l.Flush())
						if name == "b" {
							st, err := os.Stat(f)
							kit.Abort(err)
							ends = append(ends, int(st.Size()))
						}
					}
					kit.Abort(l.Close())
					b, err := os.ReadFile(f)
					kit.Abort(err)
					return b
				}
				first, content = write("a", c.First), write("b", c.Ops)
			} else {
				write := func(ops []Op, rec bool) ([]byte, error) {
					g := openLogs()
					defer g.remove()
					f := filepath.Join(g.dir(), names(g.dir())[0])
					for _, o := range ops {
						if err := g.write(o); err != nil {
							return nil, fmt.Errorf("%s: %v", o.K, err)
						}
						if err := g.log.Flush(); err != nil {
							return nil, fmt.Errorf("flush: %v", err)
						}
						if rec {
							st, err := os.Stat(f)
							kit.Abort(err)
							ends = append(ends, int(st.Size()))
						}
					}
					b, err := os.ReadFile(f)
					kit.Abort(err)
					return b, nil
				}
				var err error
				if first, err = write(c.First, false); err != nil {
					return err
				}
				if content, err = write(c.Ops, true); err != nil {
					return err
				}
			}
			base := newState()
			for _, o := range c.First {
				base.apply(o)
			}
			states := []*State{base}
			for _, o := range c.Ops {
				s := states[len(states)-1].clone()
				s.apply(o)
				states = append(states, s)
			}
			ends = append([]int{0}, ends...)
			if len(c.Ops) >= 3 {
				ctx.NonTrivial()
			}
			read := func(b []byte) (*State, int, error, error) {
				var res *hnsw.DeserializationResult
				if len(c.First) > 0 {
					r, n, err := hnsw.NewDeserializer(quiet).Do(bufio.NewReader(bytes.NewReader(first)), nil, false)
					if err != nil || n != len(first) {
						return nil, 0, nil, fmt.Errorf("the complete log before: %d of %d bytes, %v", n, len(first), err)
					}
					res = r
				}
				r, n, err := hnsw.NewDeserializer(quiet).Do(bufio.NewReaderSize(bytes.NewReader(b), c.Buf), res, false)
				if r == nil {
					return nil, n, err, fmt.Errorf("no state was recovered (%v)", err)
				}
				return stateOf(r), n, err, nil
			}
			step := 1
			if len(content) > 700 {
				step = 3
			}
			k := 0
			boundary := map[int]bool{}
			for _, e := range ends {
				boundary[e] = true
			}
			for p := 0; p <= len(content); p++ {
				for k+1 < len(ends) && ends[k+1] <= p {
					k++
				}
				if step > 1 && p%step != 0 && !boundary[p] && !boundary[p-1] && !boundary[p+1] {
					continue
				}
				s, n, err, bad := read(content[:p])
				if bad != nil {
					return fmt.Errorf("cut at %d of %d: %v", p, len(content), bad)
				}
				switch {
				case boundary[p] && err != nil:
					return fmt.Errorf("cut after record %d (byte %d): %v", k, p, err)
				case !boundary[p] && err == nil:
					return fmt.Errorf("cut at byte %d, inside record %d (%s): no error", p, k, c.Ops[k].K)
				case !boundary[p] && !isEOF(err):
					return fmt.Errorf("cut at byte %d, inside record %d (%s): not an end-of-file error: %v", p, k, c.Ops[k].K, err)
				case n != ends[k]:
					return fmt.Errorf("cut at byte %d: %d bytes are reported as valid, the complete records have %d", p, n, ends[k])
				}
				if err := diff(s, states[k], ordered); err != nil {
					return fmt.Errorf("cut at byte %d, after %d complete records: %v", p, k, err)
				}
				if !boundary[p] {
					ctx.Class("cut in %s", c.Ops[k].K)
				} else {
					ctx.Class("cut at a boundary")
				}
			}
			for i, u := range c.Unknown {
				at := (i * 7) % len(ends)
				b := append(append(append([]byte{}, content[:ends[at]]...), u), c.Rest...)
				s, n, err, bad := read(b)
				if bad != nil {
					return fmt.Errorf("unknown record %d after record %d: %v", u, at, bad)
				}
				if err == nil {
					return fmt.Errorf("unknown record %d after record %d: no error", u, at)
				}
				if isEOF(err) {
					return fmt.Errorf("unknown record %d after record %d is reported as a truncation: %v", u, at, err)
				}
				if n != ends[at] {
					return fmt.Errorf("unknown record %d after record %d: %d bytes are reported as valid, not %d", u, at, n, ends[at])
				}
				if err := diff(s, states[at], ordered); err != nil {
					return fmt.Errorf("unknown record %d after record %d: %v", u, at, err)
				}
				ctx.Class("unknown record")
			}
			return nil
		},
	})
}
