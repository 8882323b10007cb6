// Package small checks the building blocks: queues, visited sets, settings and
// configuration.
package small

import (
	"fmt"
	"math/rand"
	"sort"
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/hnsw/priorityqueue"
	"pgregory.net/rapid"
	"verifharness/kit"
)

// QOp is one queue operation: "i"nsert, "p"op, "t"op, "r"eset, "c"ap reset.
type QOp struct {
	K   string  `json:"k"`
	ID  uint64  `json:"id,omitempty"`
	Ix  uint64  `json:"ix,omitempty"`
	D   float32 `json:"d,omitempty"`
	Cap int     `json:"cap,omitempty"`
}

// QCase is a sequence of operations on a new queue.
type QCase struct {
	Max   bool  `json:"max"`
	Index bool  `json:"index"`
	Cap   int   `json:"cap"`
	Ops   []QOp `json:"ops"`
}

type qitem struct {
	id, ix uint64
	d      float32
}

// q hides the two queue types.
type q struct {
	insert   func(qitem)
	pop, top func() qitem
	len, cap func() int
	reset    func()
	resetCap func(int)
}

func newQueue(c QCase) q {
	if c.Index {
		x := priorityqueue.NewMinWithIndex(c.Cap)
		if c.Max {
			x = priorityqueue.NewMaxWithIndex(c.Cap)
		}
		cv := func(i priorityqueue.ItemWithIndex) qitem { return qitem{i.ID, i.Index, i.Dist} }
		return q{func(i qitem) { x.Insert(i.id, i.ix, i.d) }, func() qitem { return cv(x.Pop()) }, func() qitem { return cv(x.Top()) }, x.Len, x.Cap, x.Reset, x.ResetCap}
	}
	x := priorityqueue.NewMin(c.Cap)
	if c.Max {
		x = priorityqueue.NewMax(c.Cap)
	}
	cv := func(i priorityqueue.Item) qitem { return qitem{id: i.ID, d: i.Dist} }
	return q{func(i qitem) { x.Insert(i.id, i.d) }, func() qitem { return cv(x.Pop()) }, func() qitem { return cv(x.Top()) }, x.Len, x.Cap, x.Reset, x.ResetCap}
}

func genQueue(t *rapid.T) QCase {
	c := QCase{Max: rapid.Bool().Draw(t, "max"), Index: rapid.Bool().Draw(t, "index"), Cap: rapid.SampledFrom([]int{0, 1, 2, 3, 6, 30}).Draw(t, "cap")}
	dist := rapid.Float32Range(-5, 5)
	switch rapid.IntRange(0, 2).Draw(t, "dist") {
	case 0:
		dist = rapid.SampledFrom([]float32{0, 0.5, 1, -1, 2})
	case 1:
		dist = rapid.Float32Range(0, 3e38)
	}
	grow := rapid.IntRange(1, 6).Draw(t, "grow")
	n := rapid.IntRange(1, rapid.SampledFrom([]int{12, 60, 250}).Draw(t, "max ops")).Draw(t, "n")
	for i := 0; i < n; i++ {
		k := rapid.IntRange(0, 9).Draw(t, "k")
		switch {
		case k < grow:
			c.Ops = append(c.Ops, QOp{K: "i", ID: rapid.Uint64Range(0, 400).Draw(t, "id") << rapid.SampledFrom([]uint{0, 0, 40}).Draw(t, "sh"), Ix: rapid.Uint64().Draw(t, "ix"), D: dist.Draw(t, "d")})
		case k == 9 && rapid.IntRange(0, 12).Draw(t, "rs") == 0:
			c.Ops = append(c.Ops, QOp{K: "r"})
		case k == 8 && rapid.IntRange(0, 12).Draw(t, "rs") == 0:
			c.Ops = append(c.Ops, QOp{K: "c", Cap: rapid.IntRange(0, 20).Draw(t, "nc")})
		case k == 7:
			c.Ops = append(c.Ops, QOp{K: "t"})
		default:
			c.Ops = append(c.Ops, QOp{K: "p"})
		}
	}
	return c
}

func checkQueue(ctx *kit.Ctx, c QCase) error {
	x := newQueue(c)
	model := map[qitem]int{}
	size, pops := 0, 0
	best := func() (float32, bool) {
		var b float32
		ok := false
		for i := range model {
			if !ok || (c.Max && i.d > b) || (!c.Max && i.d < b) {
				b, ok = i.d, true
			}
		}
		return b, ok
	}
	take := func(i qitem, step int, what string, remove bool) error {
		b, _ := best()
		if model[i] == 0 {
			return fmt.Errorf("step %d: %s gave id %d index %d distance %v, which is not in the queue", step, what, i.id, i.ix, i.d)
		}
		if i.d != b {
			return fmt.Errorf("step %d: %s gave distance %v, but the best of %d is %v", step, what, i.d, size, b)
		}
		if remove {
			if model[i]--; model[i] == 0 {
				delete(model, i)
			}
			size--
			pops++
		}
		return nil
	}
	for s, op := range c.Ops {
		switch op.K {
		case "i":
			i := qitem{op.ID, op.Ix, op.D}
			if !c.Index {
				i.ix = 0
			}
			x.insert(i)
			model[i]++
			size++
		case "p", "t":
			if size == 0 {
				continue
			}
			top := x.top()
			if err := take(top, s, "top", false); err != nil {
				return err
			}
			if op.K == "p" {
				got := x.pop()
				if got != top {
					return fmt.Errorf("step %d: top was %v, pop gave %v", s, top, got)
				}
				if err := take(got, s, "pop", true); err != nil {
					return err
				}
			}
		case "r":
			x.reset()
			model, size = map[qitem]int{}, 0
			ctx.Class("reset")
		case "c":
			x.resetCap(op.Cap)
			model, size = map[qitem]int{}, 0
		}
		if x.len() != size {
			return fmt.Errorf("step %d (%s): length %d, should be %d", s, op.K, x.len(), size)
		}
	}
	for size > 0 {
		if err := take(x.pop(), len(c.Ops), "final pop", true); err != nil {
			return err
		}
		if x.len() != size {
			return fmt.Errorf("final pops: length %d, should be %d", x.len(), size)
		}
	}
	if pops > 2 {
		ctx.NonTrivial()
	}
	return nil
}

func TestP16(t *testing.T) {
	kit.Run(t, kit.Prop[QCase]{
		ID: "P16", Quick: 160000, Thorough: 4000000,
		Rule:  "distinct operation sequences with more than two pops",
		Gen:   genQueue,
		Check: checkQueue,
	})
}

// Deep is a queue of many items, filled and emptied in turns.
type Deep struct {
	Seed  int64 `json:"seed"`
	Max   bool  `json:"max"`
	Index bool  `json:"index"`
	Cap   int   `json:"cap"`
	Ties  int   `json:"ties"`  // distances are whole numbers below this
	Turns []int `json:"turns"` // so many inserts, or pops if negative
}

func TestP16_deep(t *testing.T) {
	kit.Run(t, kit.Prop[Deep]{
		ID: "P16", Sub: "deep", Quick: 800, Thorough: 20000,
		Rule: "distinct sequences that fill a queue with more than 500 items",
		Gen: func(t *rapid.T) Deep {
			return Deep{rapid.Int64Range(1, 1<<40).Draw(t, "seed"), rapid.Bool().Draw(t, "max"), rapid.Bool().Draw(t, "index"), rapid.SampledFrom([]int{0, 1, 100, 1000, 1024, 1025, 5000}).Draw(t, "cap"),
				rapid.SampledFrom([]int{3, 100, 1 << 20}).Draw(t, "ties"), rapid.SliceOfN(rapid.SampledFrom([]int{10, 300, 1000, 1100, 2500, 5000, -5, -200, -900, -2000}), 1, 6).Draw(t, "turns")}
		},
		Check: func(ctx *kit.Ctx, c Deep) error {
			x := newQueue(QCase{Max: c.Max, Index: c.Index, Cap: c.Cap})
			r := rand.New(rand.NewSource(c.Seed))
			item := map[uint64]qitem{}
			count := map[float32]int{}
			var sorted []float32 // a heap-free reference: the distances, sorted when they are needed
			size, most := 0, 0
			next := uint64(0)
			pop := func(turn int) error {
				got := x.pop()
				want, ok := item[got.id]
				if !ok || want != got {
					return fmt.Errorf("turn %d: pop gave %v, which is not in the queue", turn, got)
				}
				for len(sorted) > 0 && count[sorted[len(sorted)-1]] == 0 {
					sorted = sorted[:len(sorted)-1]
				}
				if best := sorted[len(sorted)-1]; best != got.d {
					return fmt.Errorf("turn %d: pop gave distance %v, but the best of %d is %v", turn, got.d, size, best)
				}
				count[got.d]--
				delete(item, got.id)
				size--
				if x.len() != size {
					return fmt.Errorf("turn %d: length %d, should be %d", turn, x.len(), size)
				}
				return nil
			}
			for turn, n := range append(append([]int{}, c.Turns...), -1<<30) {
				for ; n > 0; n-- {
					i := qitem{next, next * 3, float32(r.Intn(c.Ties)) / 7}
					if !c.Index {
						i.ix = 0
					}
					next++
					x.insert(i)
					item[i.id] = i
					count[i.d]++
					size++
				}
				if size > most {
					most = size
				}
				sorted = sorted[:0]
				for d, k := range count {
					if k > 0 {
						sorted = append(sorted, d)
					}
				}
				sort.Slice(sorted, func(a, b int) bool { return (sorted[a] < sorted[b]) == c.Max })
				for ; n < 0 && size > 0; n++ {
					if err := pop(turn); err != nil {
						return err
					}
				}
			}
			if most > 500 {
				ctx.NonTrivial()
			}
			return nil
		},
	})
}
