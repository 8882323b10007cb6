// Package kit is the common runner of the property checks: it draws cases with
// rapid from a fixed seed, journals the running case (so that a crash of the
// process still leaves a replayable input), runs the oracle, keeps the shrunk
// failing case, and reports what was covered.
package kit

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx collects, during one case, what the case exercised.
type Ctx struct {
	mu         sync.Mutex
	classes    map[string]int
	nontrivial bool
	Tier       string
	Known      map[string]bool // known findings met in this case
}

// Class counts an event of a named class (used for the distribution report).
func (c *Ctx) Class(format string, a ...interface{}) {
	c.mu.Lock()
	c.classes[fmt.Sprintf(format, a...)]++
	c.mu.Unlock()
}

// NonTrivial marks the case as one that really exercised the property.
func (c *Ctx) NonTrivial() { c.mu.Lock(); c.nontrivial = true; c.mu.Unlock() }

// NewCtx is a context that is not reported (for runs within a case).
func NewCtx() *Ctx { return &Ctx{classes: map[string]int{}, Tier: Tier(), Known: map[string]bool{}} }

// HarnessError is an error of the machinery (not a violation).
type HarnessError struct{ Err error }

func (h HarnessError) Error() string { return "harness: " + h.Err.Error() }

// Abort stops the case because the machinery itself failed.
func Abort(err error) {
	if err != nil {
		panic(HarnessError{err})
	}
}

// Prop is one executable property.
type Prop[C any] struct {
	ID       string
	Sub      string // sub-check name, "" if single
	Rule     string // rule for counting a case as non-trivial
	Quick    int    // cases over all shards in the quick tier
	Thorough int
	// Shrink is the time allowed for shrinking
	Shrink  time.Duration
	Timeout time.Duration // watchdog per case
	Gen     func(*rapid.T) C
	Check   func(*Ctx, C) error
}

type violation struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	Seed     uint64          `json:"seed"`
	Source   string          `json:"source"`
}

type report struct {
	Property   string            `json:"property"`
	Sub        string            `json:"sub"`
	Rule       string            `json:"rule"`
	Evals      int               `json:"evaluations"`
	NonTrivial int               `json:"nontrivial"`
	Hashes     []string          `json:"hashes"`
	Classes    map[string]int    `json:"classes"`
	Samples    []json.RawMessage `json:"samples"`
	Skipped    int               `json:"skipped_deadline"`
	Violations []violation       `json:"violations"`
	Harness    []string          `json:"harness_errors"`
	Known      []string          `json:"known"`
	WallS      float64           `json:"wall_s"`
	Done       bool              `json:"done"`
}

func envInt(k string, d int) int {
	v, err := strconv.Atoi(os.Getenv(k))
	if err != nil {
		return d
	}
	return v
}

// Tier is "quick" or "thorough".
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func outDir() string {
	d := os.Getenv("VERIF_OUT")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

func short(b []byte, n int) []byte {
	if len(b) <= n {
		return b
	}
	s, _ := json.Marshal(string(b[:n]) + "...")
	return s
}

// Run executes the property: replay file, or corpus followed by generated
// cases.
func Run[C any](t *testing.T, p Prop[C]) {
	start := time.Now()
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	seedBase := envInt("VERIF_SEED", 1)
	tier := Tier()
	name := p.ID
	if p.Sub != "" {
		name += "_" + p.Sub
	}
	rep := &report{Property: p.ID, Sub: p.Sub, Rule: p.Rule, Classes: map[string]int{}}
	seen := map[string]bool{}
	known := map[string]bool{}
	repPath := filepath.Join(outDir(), fmt.Sprintf("report.%s.%d.json", name, shard))
	journal := filepath.Join(outDir(), fmt.Sprintf("journal.%s.%d.json", name, shard))
	write := func() {
		rep.WallS = time.Since(start).Seconds()
		for k := range seen {
			rep.Hashes = append(rep.Hashes, k)
		}
		rep.NonTrivial = len(seen)
		for k := range known {
			rep.Known = append(rep.Known, k)
		}
		sort.Strings(rep.Known)
		b, _ := json.Marshal(rep)
		_ = os.WriteFile(repPath, b, 0o644)
	}
	if p.Timeout == 0 {
		p.Timeout = 120 * time.Second
	}

	var last *violation
	var harnessErr error
	runCase := func(c C, seed uint64, source string) error {
		raw, err := json.Marshal(c)
		if err != nil {
			harnessErr = fmt.Errorf("marshal case: %w", err)
			return nil
		}
		jr, _ := json.Marshal(violation{Property: p.ID, Sub: p.Sub, Case: raw, Seed: seed, Source: source})
		_ = os.WriteFile(journal, jr, 0o644)
		ctx := &Ctx{classes: map[string]int{}, Tier: tier, Known: map[string]bool{}}
		wd := time.AfterFunc(p.Timeout, func() {
			buf := make([]byte, 8<<20)
			buf = buf[:runtime.Stack(buf, true)]
			_ = os.WriteFile(filepath.Join(outDir(), fmt.Sprintf("hang.%s.%d.txt", name, shard)), buf, 0o644)
			os.Exit(97)
		})
		err = safe(func() error { return p.Check(ctx, c) })
		wd.Stop()
		var he HarnessError
		if errors.As(err, &he) {
			harnessErr = err
			return nil
		}
		rep.Evals++
		for k, v := range ctx.classes {
			rep.Classes[k] += v
		}
		for k := range ctx.Known {
			known[k] = true
		}
		if ctx.nontrivial {
			h := sha256.Sum256(raw)
			hs := hex.EncodeToString(h[:8])
			if !seen[hs] {
				seen[hs] = true
				if len(rep.Samples) < 3 {
					rep.Samples = append(rep.Samples, short(raw, 1500))
				}
			}
		}
		if err != nil {
			last = &violation{Property: p.ID, Sub: p.Sub, Message: err.Error(), Case: raw, Seed: seed, Source: source}
		}
		return err
	}

	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		b, err := os.ReadFile(rp)
		if err != nil {
			t.Fatal(err)
		}
		var v violation
		if err := json.Unmarshal(b, &v); err != nil {
			t.Fatal(err)
		}
		if v.Property != p.ID || v.Sub != p.Sub {
			t.Skip("replay is for another property")
		}
		var c C
		if err := json.Unmarshal(v.Case, &c); err != nil {
			t.Fatal(err)
		}
		if err := runCase(c, v.Seed, "replay"); err != nil {
			rep.Violations = append(rep.Violations, *last)
		}
		if harnessErr != nil {
			rep.Harness = append(rep.Harness, harnessErr.Error())
		}
		rep.Done = true
		write()
		return
	}

	// corpus: fixed cases kept because they once failed or are hard to draw
	files, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_CORPUS"), name, "*.json"))
	sort.Strings(files)
	for i, f := range files {
		if i%shards != shard {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		var v violation
		var c C
		if err := json.Unmarshal(b, &v); err != nil {
			t.Fatal(err)
		}
		if err := json.Unmarshal(v.Case, &c); err != nil {
			t.Fatal(err)
		}
		if err := runCase(c, v.Seed, "corpus:"+filepath.Base(f)); err != nil {
			rep.Violations = append(rep.Violations, *last)
			rep.Done = true
			write()
			t.Fatalf("%s", last.Message)
		}
	}

	total := p.Quick
	if tier == "thorough" {
		total = p.Thorough
	}
	if m := os.Getenv("VERIF_CASES"); m != "" {
		total, _ = strconv.Atoi(m)
	}
	if m := os.Getenv("VERIF_SCALE"); m != "" {
		x, err := strconv.ParseFloat(m, 64)
		must(err)
		total = int(math.Ceil(float64(total) * x))
	}
	n := total / shards
	if shard < total%shards {
		n++
	}
	deadline := start.Add(time.Duration(envInt("VERIF_BUDGET_S", 480)) * time.Second)
	if n > 0 {
		seed := uint64(seedBase)*1000003 + uint64(shard)*7919 + hashName(name) + 1
		must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
		must(flag.Set("rapid.checks", strconv.Itoa(n)))
		must(flag.Set("rapid.nofailfile", "true"))
		if p.Shrink == 0 {
			p.Shrink = 25 * time.Second
		}
		if m := os.Getenv("VERIF_SHRINK"); m != "" {
			p.Shrink = time.Duration(envInt("VERIF_SHRINK", 25)) * time.Second
		}
		must(flag.Set("rapid.shrinktime", p.Shrink.String()))
		ok := t.Run("gen", func(t *testing.T) {
			rapid.Check(t, func(rt *rapid.T) {
				c := p.Gen(rt)
				if harnessErr != nil {
					return
				}
				if last == nil && time.Now().After(deadline) {
					rep.Skipped++
					return
				}
				if err := runCase(c, seed, "generated"); err != nil {
					rt.Fatalf("%v", err)
				}
			})
		})
		if !ok && last == nil && harnessErr == nil {
			harnessErr = fmt.Errorf("rapid failed without a failing case (generator error)")
		}
		if last != nil {
			rep.Violations = append(rep.Violations, *last)
		}
	}
	if harnessErr != nil {
		rep.Harness = append(rep.Harness, harnessErr.Error())
	}
	rep.Done = true
	write()
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func hashName(s string) uint64 {
	h := sha256.Sum256([]byte(s))
	return uint64(h[0])<<8 | uint64(h[1])
}

// safe turns a panic of the code under test into an error; a panic that never
// touched the repository is the harness's own.
func safe(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(HarnessError); ok {
				err = he
				return
			}
			st := string(debug.Stack())
			if strings.Contains(st, "/repo/") {
				err = fmt.Errorf("panic in the code under test: %v\n%s", r, trim(st))
				return
			}
			err = HarnessError{fmt.Errorf("panic: %v\n%s", r, trim(st))}
		}
	}()
	return f()
}

// Try calls f and converts a panic inside it into an error flagged as such.
func Try(f func() error) (err error, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(HarnessError); ok {
				panic(he)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trim(string(debug.Stack())))
			panicked = true
		}
	}()
	return f(), false
}

func trim(s string) string {
	lines := strings.Split(s, "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "FaVe") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 12 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// SeedGlobalRand fixes the process-wide math/rand sequence (the index draws
// its levels from it), so that a case replays.
func SeedGlobalRand(seed int64) { rand.Seed(seed) } //nolint:staticcheck
