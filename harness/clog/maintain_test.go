package clog

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	"pgregory.net/rapid"

	"verifharness/kit"
)

// Maint is a log of several files and what is done with them.
type Maint struct {
	Parts [][]Op `json:"parts"`
	Steps []Step `json:"steps"`
	Crash bool   `json:"crash"`
	Cut   []int  `json:"cut"`
}

// Step is a maintenance step.
type Step struct {
	K string `json:"k"` // condense combine recover leftover
	I int    `json:"i,omitempty"`
	T int64  `json:"t,omitempty"`
}

func genParts(t *rapid.T, max int) [][]Op {
	model := newState()
	big := 0
	if rapid.IntRange(0, 80).Draw(t, "isbig") == 41 {
		big = rapid.SampledFrom([]int{500, 4000, 65000}).Draw(t, "big")
	}
	var out [][]Op
	n := rapid.IntRange(2, max).Draw(t, "parts")
	for i := 0; i < n; i++ {
		out = append(out, genOps(t, model, rapid.IntRange(0, 14).Draw(t, "n"), true, big, true))
	}
	return out
}

func genMaint(crash bool) func(t *rapid.T) Maint {
	return func(t *rapid.T) Maint {
		c := Maint{Parts: genParts(t, 5), Crash: crash}
		n := rapid.IntRange(1, 10).Draw(t, "steps")
		for i := 0; i < n; i++ {
			s := Step{K: rapid.SampledFrom([]string{"condense", "condense", "condense", "combine", "combine", "recover", "leftover"}).Draw(t, "step"),
				I: rapid.IntRange(0, 5).Draw(t, "i")}
			if s.K == "combine" {
				s.T = rapid.SampledFrom([]int64{0, 100, 400, 1 << 40, 1 << 40}).Draw(t, "t")
			}
			if s.K == "leftover" && crash {
				continue
			}
			c.Steps = append(c.Steps, s)
		}
		c.Cut = []int{rapid.IntRange(0, 1<<20).Draw(t, "cut1"), rapid.IntRange(0, 1<<20).Draw(t, "cut2")}
		return c
	}
}

// build writes the parts, a file each, and returns the root directory.
func build(parts [][]Op) (string, *State, error) {
	g := openLogs()
	model := newState()
	for i, p := range parts {
		if i > 0 {
			if err := g.write(Op{K: "switch"}); err != nil {
				g.remove()
				return "", nil, fmt.Errorf("switch: %v", err)
			}
		}
		for _, o := range p {
			if err := g.write(o); err != nil {
				g.remove()
				return "", nil, fmt.Errorf("%s: %v", o.K, err)
			}
			model.apply(o)
		}
	}
	err := g.log.Flush()
	g.log = nil
	return g.root, model, err
}

func (s Step) do(root string) (bool, error) {
	dir := (&logs{root: root}).dir()
	switch s.K {
	case "condense", "leftover":
		var todo []string
		ns := names(dir)
		for i, n := range ns {
			if i < len(ns)-1 && !strings.HasSuffix(n, ".condensed") {
				todo = append(todo, n)
			}
		}
		if len(todo) == 0 {
			return false, nil
		}
		n := todo[s.I%len(todo)]
		if s.K == "leftover" {
			// an earlier attempt left the beginning of a condensed log
			b, err := os.ReadFile(filepath.Join(dir, n))
			kit.Abort(err)
			kit.Abort(os.WriteFile(filepath.Join(dir, n+".condensed"), b[:len(b)*s.I/6], 0o666))
		}
		return true, hnsw.NewMemoryCondensor(quiet).Do(filepath.Join(dir, n))
	case "combine":
		return hnsw.NewCommitLogCombiner(root, indexName, s.T, quiet).Do()
	case "recover":
		return true, recover_(root)
	}
	return false, nil
}

// recover_ is what a start does before it reads the logs.
func recover_(root string) error {
	if _, err := hnsw.NewCommitLogCombiner(root, indexName, -1, quiet).Do(); err != nil {
		return fmt.Errorf("clean up: %v", err)
	}
	dir := (&logs{root: root}).dir()
	var files []string
	for _, n := range names(dir) {
		files = append(files, filepath.Join(dir, n))
	}
	kept, err := hnsw.NewCorruptedCommitLogFixer(quiet).Do(files)
	if err != nil {
		return fmt.Errorf("fixer: %v", err)
	}
	left := names(dir)
	if len(kept) != len(left) {
		return fmt.Errorf("the fixer keeps %v, the directory has %v", kept, left)
	}
	for i := range kept {
		if filepath.Base(kept[i]) != left[i] {
			return fmt.Errorf("the fixer keeps %v, the directory has %v", kept, left)
		}
	}
	return nil
}

func compare(root string, want *State, how int, what string) error {
	dir := (&logs{root: root}).dir()
	s, err := replay(dir, false)
	if err == nil {
		err = diff(s, want, how)
	}
	if err != nil {
		return fmt.Errorf("after %s (files %v): %v", what, names(dir), err)
	}
	return nil
}

// complete does all maintenance there is.
func complete(root string) error {
	for i := 0; i < 40; i++ {
		a, err := Step{K: "condense"}.do(root)
		if err != nil {
			return fmt.Errorf("condense: %v", err)
		}
		b, err := Step{K: "combine", T: 1 << 40}.do(root)
		if err != nil {
			return fmt.Errorf("combine: %v", err)
		}
		if !a && !b {
			return nil
		}
	}
	return fmt.Errorf("maintenance never ends (files %v)", names((&logs{root: root}).dir()))
}

func maintain(ctx *kit.Ctx, c Maint) error {
	root, want, err := build(c.Parts)
	if err != nil {
		return err
	}
	defer os.RemoveAll(root)
	if err := compare(root, want, ordered, "logging"); err != nil {
		return err
	}
	dir := (&logs{root: root}).dir()
	did := 0
	for i, s := range append(append([]Step{}, c.Steps...), Step{K: "complete"}) {
		what := fmt.Sprintf("step %d (%s)", i, s.K)
		run := func() error {
			if s.K == "complete" {
				return complete(root)
			}
			ok, err := s.do(root)
			if ok {
				did++
				ctx.Class("%s", s.K)
			}
			return err
		}
		if !c.Crash || s.K == "complete" || s.K == "recover" {
			if err := run(); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if err := compare(root, want, multiset, what); err != nil {
				return err
			}
			continue
		}
		before := snapshot(dir)
		var runErr error
		evs, ok := watch(dir, func() { runErr = run() })
		if runErr != nil {
			return fmt.Errorf("%s: %v", what, runErr)
		}
		if err := compare(root, want, multiset, what); err != nil {
			return err
		}
		if !ok {
			ctx.Class("not watched")
			continue
		}
		states := crashStates(before, snapshot(dir), evs, func(n int) []int {
			cs := []int{0}
			for _, x := range c.Cut {
				if n > 1 {
					cs = append(cs, x%n)
				}
			}
			if n > 1 {
				cs = append(cs, n-1)
			}
			return cs
		})
		for k, st := range states {
			if err := crashed(st, want); err != nil {
				return fmt.Errorf("%s interrupted at point %d of %d (%s): %v", what, k, len(states), describe(st), err)
			}
			ctx.Class("interrupted %s", s.K)
		}
	}
	if did >= 2 && len(want.Nodes) > 0 {
		ctx.NonTrivial()
	}
	return nil
}

func describe(st map[string][]byte) string {
	var o []string
	for n, b := range st {
		o = append(o, fmt.Sprintf("%s: %d bytes", n, len(b)))
	}
	return strings.Join(o, ", ")
}

// crashed starts from what an interrupted step left, twice: only reading, and
// with all the maintenance that follows.
func crashed(st map[string][]byte, want *State) error {
	root, err := os.MkdirTemp("", "crash")
	kit.Abort(err)
	defer os.RemoveAll(root)
	dir := (&logs{root: root}).dir()
	kit.Abort(os.Mkdir(dir, 0o777))
	for n, b := range st {
		kit.Abort(os.WriteFile(filepath.Join(dir, n), b, 0o666))
	}
	if err := recover_(root); err != nil {
		return err
	}
	if err := compare(root, want, set, "the next start"); err != nil {
		return err
	}
	if err := complete(root); err != nil {
		return err
	}
	return compare(root, want, set, "the next start and its maintenance")
}

func TestP21(t *testing.T) {
	kit.Run(t, kit.Prop[Maint]{
		ID: "P21", Quick: 6000, Thorough: 200000,
		Rule:  "at least 2 maintenance steps did something to a log that has nodes",
		Gen:   genMaint(false),
		Check: maintain,
	})
}

func TestP21_crash(t *testing.T) {
	kit.Run(t, kit.Prop[Maint]{
		ID: "P21", Sub: "crash", Quick: 1600, Thorough: 50000,
		Rule:  "at least 2 maintenance steps did something to a log that has nodes; each is interrupted at every file-system event",
		Gen:   genMaint(true),
		Check: maintain,
	})
}

// Cycle is a history with the logger's own background maintenance.
type Cycle struct {
	Parts     [][]Op `json:"parts"`
	Threshold int64  `json:"threshold"`
	Combine   int64  `json:"combine"`
	Par       bool   `json:"par"`
	Ticks     []int  `json:"ticks"`
}

func TestP21_cycle(t *testing.T) {
	kit.Run(t, kit.Prop[Cycle]{
		ID: "P21", Sub: "cycle", Quick: 3000, Thorough: 100000,
		Rule: "the logger's maintenance cycles did something at least twice",
		Gen: func(t *rapid.T) Cycle {
			c := Cycle{Parts: genParts(t, 6), Par: rapid.Bool().Draw(t, "par"),
				Threshold: rapid.SampledFrom([]int64{0, 0, 40, 200}).Draw(t, "threshold"),
				Combine:   rapid.SampledFrom([]int64{0, 100, 1 << 30, 1 << 30}).Draw(t, "combine")}
			for range c.Parts {
				c.Ticks = append(c.Ticks, rapid.IntRange(0, 4).Draw(t, "ticks"))
			}
			return c
		},
		Check: func(ctx *kit.Ctx, c Cycle) error {
			var ts tickers
			g := openLogs(hnsw.WithCommitlogThreshold(c.Threshold), hnsw.WithCommitlogThresholdForCombining(c.Combine), hnsw.WithCommitlogCycleTicker(ts.make))
			defer g.remove()
			model := newState()
			did := 0
			for i, p := range c.Parts {
				var wg sync.WaitGroup
				tick := func(n int) {
					for k := 0; k < n; k++ {
						for _, t := range ts.ts {
							if t.tick() {
								did++
							}
						}
					}
				}
				if c.Par {
					wg.Add(1)
					go func() { defer wg.Done(); tick(c.Ticks[i]) }()
				}
				for _, o := range p {
					if err := g.write(o); err != nil {
						wg.Wait()
						return fmt.Errorf("%s: %v", o.K, err)
					}
					model.apply(o)
				}
				wg.Wait()
				if err := g.log.Flush(); err != nil {
					return fmt.Errorf("flush: %v", err)
				}
				if !c.Par {
					tick(c.Ticks[i])
				}
				if err := g.log.Flush(); err != nil {
					return fmt.Errorf("flush: %v", err)
				}
				if err := compare(g.root, model, multiset, fmt.Sprintf("part %d", i)); err != nil {
					return err
				}
			}
			ctx.Class("files %d", len(names(g.dir())))
			ctx.Class("cycles that did something: %d", did)
			if did >= 2 {
				ctx.NonTrivial()
			}
			return nil
		},
	})
}
