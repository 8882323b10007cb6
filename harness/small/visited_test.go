package small

import (
	"fmt"
	"sync"
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/hnsw/visited"
	"pgregory.net/rapid"
	"verifharness/kit"
)

// VOp is an operation on a visited set: "v"isit, "q"uery, "r"eset N times.
type VOp struct {
	K string `json:"k"`
	N uint64 `json:"n"`
}

// VCase is a sequence on a new set of the given size.
type VCase struct {
	Size int   `json:"size"`
	Ops  []VOp `json:"ops"`
}

func nodeID(t *rapid.T, size int) uint64 {
	switch rapid.IntRange(0, 9).Draw(t, "nk") {
	case 0:
		return uint64(rapid.IntRange(0, 5).Draw(t, "n"))
	case 1, 2:
		// around the edge of the set
		n := size + rapid.IntRange(-2, 3).Draw(t, "n")
		if n < 0 {
			n = 0
		}
		return uint64(n)
	case 3:
		return uint64(rapid.IntRange(0, 3*size+40).Draw(t, "n"))
	case 4:
		return uint64(rapid.SampledFrom([]int{1022, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 12345}).Draw(t, "n"))
	case 5:
		if rapid.IntRange(0, 60).Draw(t, "huge") == 0 {
			return uint64(rapid.IntRange(1<<17, 1<<19).Draw(t, "n"))
		}
	}
	return uint64(rapid.IntRange(0, size+2).Draw(t, "n"))
}

func checkVisited(ctx *kit.Ctx, c VCase) error {
	l := visited.NewList(c.Size)
	model := map[uint64]bool{}
	asked := map[uint64]bool{}
	resets, hits := 0, 0
	check := func(s int, n uint64) error {
		if got := l.Visited(n); got != model[n] {
			return fmt.Errorf("step %d: node %d visited=%v, should be %v (after %d resets, length %d)", s, n, got, model[n], resets, l.Len())
		}
		return nil
	}
	for s, op := range c.Ops {
		switch op.K {
		case "v":
			l.Visit(op.N)
			model[op.N] = true
			asked[op.N] = true
			hits++
			// neighbours are not touched
			for _, n := range []uint64{op.N, op.N + 1} {
				if err := check(s, n); err != nil {
					return err
				}
			}
			if op.N > 0 {
				if err := check(s, op.N-1); err != nil {
					return err
				}
			}
		case "q":
			asked[op.N] = true
			if err := check(s, op.N); err != nil {
				return err
			}
		case "r":
			for i := uint64(0); i < op.N; i++ {
				l.Reset()
				resets++
				if len(model) > 0 {
					model = map[uint64]bool{}
				}
				for n := range asked {
					if l.Visited(n) {
						return fmt.Errorf("step %d: node %d still visited after reset %d", s, n, resets)
					}
					break
				}
			}
			if op.N > 200 {
				ctx.Class("more than 200 resets in a row")
			}
		}
		for n := range asked {
			if err := check(s, n); err != nil {
				return err
			}
		}
	}
	if hits > 0 && resets > 0 {
		ctx.NonTrivial()
	}
	return nil
}

func TestP17(t *testing.T) {
	kit.Run(t, kit.Prop[VCase]{
		ID: "P17", Quick: 80000, Thorough: 2000000,
		Rule: "distinct sequences with at least one visit and one reset",
		Gen: func(t *rapid.T) VCase {
			c := VCase{Size: rapid.SampledFrom([]int{0, 1, 2, 3, 8, 100, 1000, 2047, 2048, 3000}).Draw(t, "size")}
			n := rapid.IntRange(1, 40).Draw(t, "n")
			for i := 0; i < n; i++ {
				switch k := rapid.IntRange(0, 9).Draw(t, "k"); {
				case k < 5:
					c.Ops = append(c.Ops, VOp{"v", nodeID(t, c.Size)})
				case k < 7:
					c.Ops = append(c.Ops, VOp{"q", nodeID(t, c.Size)})
				default:
					c.Ops = append(c.Ops, VOp{"r", uint64(rapid.SampledFrom([]int{1, 1, 1, 2, 3, 100, 254, 255, 256, 257, 510, 520}).Draw(t, "r"))})
				}
			}
			return c
		},
		Check: checkVisited,
	})
}

// POp is an operation on a pool: "b"orrow, re"t"urn holder I, "v"isit N with
// holder I.
type POp struct {
	K string `json:"k"`
	I int    `json:"i"`
	N uint64 `json:"n"`
}

// PCase is a history on a pool.
type PCase struct {
	Size int   `json:"size"`
	List int   `json:"list"`
	Ops  []POp `json:"ops"`
}

type holder struct {
	l     visited.ListSet
	model map[uint64]bool
}

func TestP17_pool(t *testing.T) {
	kit.Run(t, kit.Prop[PCase]{
		ID: "P17", Sub: "pool", Quick: 80000, Thorough: 2000000,
		Rule: "distinct histories in which a returned set is borrowed again",
		Gen: func(t *rapid.T) PCase {
			c := PCase{Size: rapid.IntRange(0, 4).Draw(t, "size"), List: rapid.SampledFrom([]int{0, 1, 4, 20, 300}).Draw(t, "list")}
			n := rapid.IntRange(3, 60).Draw(t, "n")
			for i := 0; i < n; i++ {
				k := rapid.SampledFrom([]string{"b", "t", "v", "v", "v", "b", "t"}).Draw(t, "k")
				c.Ops = append(c.Ops, POp{k, rapid.IntRange(0, 5).Draw(t, "i"), nodeID(t, c.List)})
			}
			return c
		},
		Check: func(ctx *kit.Ctx, c PCase) error {
			p := visited.NewPool(c.Size, c.List)
			var held []*holder
			ever := map[uint64]bool{0: true}
			returned, again := 0, false
			for s, op := range c.Ops {
				switch op.K {
				case "b":
					h := &holder{p.Borrow(), map[uint64]bool{}}
					again = again || returned > 0
					held = append(held, h)
				case "t":
					if len(held) == 0 {
						continue
					}
					i := op.I % len(held)
					p.Return(held[i].l)
					held = append(held[:i:i], held[i+1:]...)
					returned++
				case "v":
					if len(held) == 0 {
						continue
					}
					h := held[op.I%len(held)]
					h.l.Visit(op.N)
					h.model[op.N] = true
					ever[op.N] = true
				}
				for i, h := range held {
					for n := range ever {
						if got := h.l.Visited(n); got != h.model[n] {
							return fmt.Errorf("step %d (%s): borrowed set %d says node %d visited=%v, should be %v", s, op.K, i, n, got, h.model[n])
						}
					}
				}
			}
			if again {
				ctx.NonTrivial()
			}
			p.Destroy()
			return nil
		},
	})
}

// Race is a number of goroutines that borrow and return.
type Race struct {
	Size, List, Workers, Rounds int
	Seed                        uint64
}

func TestP17_parallel(t *testing.T) {
	kit.Run(t, kit.Prop[Race]{
		ID: "P17", Sub: "parallel", Quick: 8000, Thorough: 100000,
		Rule: "distinct parameters; every case lets several goroutines borrow, use and return sets at the same time",
		Gen: func(t *rapid.T) Race {
			return Race{rapid.IntRange(0, 4).Draw(t, "size"), rapid.SampledFrom([]int{8, 64, 500}).Draw(t, "list"), rapid.IntRange(2, 8).Draw(t, "workers"), rapid.IntRange(5, 60).Draw(t, "rounds"), rapid.Uint64Range(1, 1<<40).Draw(t, "seed")}
		},
		Check: func(ctx *kit.Ctx, c Race) error {
			ctx.NonTrivial()
			p := visited.NewPool(c.Size, c.List)
			errs := make(chan error, c.Workers)
			var wg sync.WaitGroup
			for w := 0; w < c.Workers; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					x := c.Seed*31 + uint64(w)*7919
					for r := 0; r < c.Rounds; r++ {
						l := p.Borrow()
						for n := 0; n < c.List; n++ {
							if l.Visited(uint64(n)) {
								errs <- fmt.Errorf("worker %d round %d: node %d of a newly borrowed set is visited", w, r, n)
								return
							}
						}
						mine := map[uint64]bool{}
						for k := 0; k < 12; k++ {
							x = x*6364136223846793005 + 1442695040888963407
							n := (x >> 33) % uint64(c.List)
							l.Visit(n)
							mine[n] = true
						}
						for n := 0; n < c.List; n++ {
							if l.Visited(uint64(n)) != mine[uint64(n)] {
								errs <- fmt.Errorf("worker %d round %d: node %d visited=%v, should be %v", w, r, n, !mine[uint64(n)], mine[uint64(n)])
								return
							}
						}
						p.Return(l)
					}
				}(w)
			}
			wg.Wait()
			select {
			case err := <-errs:
				return err
			default:
				return nil
			}
		},
	})
}
