package clog

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"

	"verifharness/index"
	"verifharness/kit"
)

// TestP25: the files listed for a backup.
func TestP25(t *testing.T) {
	kit.Run(t, kit.Prop[index.History]{
		ID: "P25", Quick: 1200, Thorough: 30000,
		Rule: "a backup of an index of at least 5 vectors was replayed",
		Gen:  index.GenBackups,
		Check: func(ctx *kit.Ctx, h index.History) error {
			root, err := os.MkdirTemp("", "backup")
			kit.Abort(err)
			defer os.RemoveAll(root)
			var ts tickers
			x := index.OpenLogged(ctx, h, func() (hnsw.CommitLogger, error) {
				return hnsw.NewCommitLogger(root, indexName, quiet, hnsw.WithCommitlogCycleTicker(ts.make), hnsw.WithCommitlogThreshold(1<<30), hnsw.WithCommitlogThresholdForCombining(1<<30))
			})
			defer x.Close()
			backups := 0
			for i := 0; i < len(h.Ops); i++ {
				o := h.Ops[i]
				switch o.K {
				case "tick":
					for _, t := range ts.ts {
						if t.tick() {
							ctx.Class("maintenance did something")
						}
					}
				case "backup":
					n := o.N
					if n > len(h.Ops)-i-1 {
						n = len(h.Ops) - i - 1
					}
					if err := backup(ctx, root, x, &ts, h.Ops[i+1:i+1+n]); err != nil {
						return fmt.Errorf("step %d, backup %d: %w", i, backups, err)
					}
					backups++
					i += n
				default:
					if err := x.Step(o); err != nil {
						return fmt.Errorf("step %d: %w", i, err)
					}
				}
			}
			ctx.Class("backups %d", backups)
			return nil
		},
	})
}

// backup makes a backup and replays it; meanwhile are steps that are done
// between the switch and the copy.
func backup(ctx *kit.Ctx, root string, x index.Logged, ts *tickers, meanwhile []index.Op) error {
	bg := context.Background()
	nodes, ep, err := x.Stored()
	if err != nil {
		return err
	}
	dead := map[uint64]bool{}
	for id := range x.Dead() {
		dead[id] = true
	}
	if err := x.Index().PauseMaintenance(bg); err != nil {
		return fmt.Errorf("pause: %v", err)
	}
	if err := x.Index().SwitchCommitLogs(bg); err != nil {
		return fmt.Errorf("switch: %v", err)
	}
	files, err := x.Index().ListFiles(bg)
	if err != nil {
		return fmt.Errorf("list: %v", err)
	}
	first := map[string][]byte{}
	for _, f := range files {
		if filepath.IsAbs(f) {
			return fmt.Errorf("file %s is not relative to the root", f)
		}
		if _, ok := first[f]; ok {
			return fmt.Errorf("file %s is listed twice", f)
		}
		b, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			return fmt.Errorf("listed file: %v", err)
		}
		if len(b) == 0 {
			return fmt.Errorf("file %s is empty", f)
		}
		first[f] = b
	}
	for _, o := range meanwhile {
		if o.K == "tick" || o.K == "backup" {
			continue
		}
		ctx.Class("step during a backup")
		if err := x.Step(o); err != nil {
			return fmt.Errorf("%s during a backup: %w", o.K, err)
		}
	}
	for _, t := range ts.ts {
		if t.offer() {
			ctx.Class("maintenance took a tick during a backup")
		}
	}
	again, err := x.Index().ListFiles(bg)
	if err != nil {
		return fmt.Errorf("list: %v", err)
	}
	sort.Strings(files)
	sort.Strings(again)
	if fmt.Sprint(files) != fmt.Sprint(again) {
		return fmt.Errorf("files %v became %v during the backup", files, again)
	}
	copied, err := os.MkdirTemp("", "copied")
	kit.Abort(err)
	defer os.RemoveAll(copied)
	for f, was := range first {
		b, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			return fmt.Errorf("listed file: %v", err)
		}
		if !bytes.Equal(b, was) {
			return fmt.Errorf("file %s changed during the backup", f)
		}
		p := filepath.Join(copied, f)
		kit.Abort(os.MkdirAll(filepath.Dir(p), 0o777))
		kit.Abort(os.WriteFile(p, b, 0o666))
	}
	if err := x.Index().ResumeMaintenance(bg); err != nil {
		return fmt.Errorf("resume: %v", err)
	}
	if len(nodes) == 0 {
		if len(files) > 0 {
			return fmt.Errorf("%v are listed for an empty index", files)
		}
		return nil
	}
	g := &logs{root: copied}
	if len(files) == 0 {
		return fmt.Errorf("no files are listed for an index of %d vectors", len(nodes))
	}
	s, err := replay(g.dir(), false)
	if err != nil {
		return err
	}
	for id := range s.Tomb {
		if !dead[id] {
			return fmt.Errorf("the backup has a tombstone for %d, which was not deleted", id)
		}
	}
	for id := range dead {
		if _, ok := nodes[id]; ok && !s.Tomb[id] {
			return fmt.Errorf("the backup has no tombstone for %d", id)
		}
	}
	want := graphState(nodes, ep)
	want.Tomb = s.Tomb
	if err := diff(s, want, multiset); err != nil {
		return fmt.Errorf("the backup and the index differ: %v", err)
	}
	if len(nodes) >= 5 {
		ctx.NonTrivial()
	}
	return nil
}
