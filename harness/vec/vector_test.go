package vec

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/vectorizer"
	"pgregory.net/rapid"

	"verifharness/kit"
)

// Pair is two vectors; B is made from A by setting Diff components.
type Pair struct {
	A    []float32 `json:"a"`
	B    []float32 `json:"b"`
	Poke int       `json:"poke"`
}

func genFloat(t *rapid.T, label string) float32 {
	switch rapid.IntRange(0, 3).Draw(t, label+"k") {
	case 0:
		return rapid.SampledFrom([]float32{0, 1, -1, 0.5, 1e-6, -1e-7, 4.9999e-7, 1e6, 123.456789, -0.0000005, 16777216}).Draw(t, label)
	case 1:
		return float32(rapid.IntRange(-3, 3).Draw(t, label))
	}
	return float32(rapid.Float64Range(-100, 100).Draw(t, label))
}

func genPair(t *rapid.T) Pair {
	n := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33}).Draw(t, "n")
	p := Pair{A: []float32{}, B: []float32{}}
	for i := 0; i < n; i++ {
		p.A = append(p.A, genFloat(t, "a"))
	}
	p.B = append(p.B, p.A...)
	switch rapid.IntRange(0, 5).Draw(t, "kind") {
	case 0: // equal
	case 1, 2: // a few components differ
		for j := rapid.IntRange(1, 2).Draw(t, "diffs"); j > 0 && n > 0; j-- {
			p.B[rapid.IntRange(0, n-1).Draw(t, "at")] = genFloat(t, "b")
		}
	case 3: // another length
		if n > 0 && rapid.Bool().Draw(t, "shorter") {
			p.B = p.B[:n-1]
		} else {
			p.B = append(p.B, genFloat(t, "b"))
		}
	default:
		for i := range p.B {
			p.B[i] = genFloat(t, "b")
		}
	}
	p.Poke = rapid.IntRange(0, 40).Draw(t, "poke")
	return p
}

func sameFloats(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// TestP26: the vector type.
func TestP26(t *testing.T) {
	kit.Run(t, kit.Prop[Pair]{
		ID: "P26", Quick: 120000, Thorough: 4000000,
		Rule: "two vectors of the same length that are not equal",
		Gen:  genPair,
		Check: func(ctx *kit.Ctx, p Pair) error {
			in := append([]float32{}, p.A...)
			a, b := vectorizer.NewVector(in), vectorizer.NewVector(append([]float32{}, p.B...))
			if a.Len() != len(p.A) || b.Len() != len(p.B) {
				return fmt.Errorf("lengths %d and %d of vectors of %d and %d", a.Len(), b.Len(), len(p.A), len(p.B))
			}
			var parts []string
			for _, x := range p.A {
				parts = append(parts, fmt.Sprintf("%.6f", x))
			}
			if want := "[" + strings.Join(parts, ", ") + "]"; a.ToString() != want {
				return fmt.Errorf("%v is printed as %s", p.A, a.ToString())
			}
			arr := a.ToArray()
			if !sameFloats(arr, p.A) {
				return fmt.Errorf("the array of %v is %v", p.A, arr)
			}
			eq, err := a.Equal(&b)
			eq2, err2 := b.Equal(&a)
			d, derr := a.Distance(&b)
			d2, derr2 := b.Distance(&a)
			if len(p.A) != len(p.B) {
				ctx.Class("different lengths")
				if err == nil || err2 == nil || eq || eq2 {
					return fmt.Errorf("vectors of %d and %d components are compared: %v %v, %v %v", len(p.A), len(p.B), eq, err, eq2, err2)
				}
				if derr == nil || derr2 == nil {
					return fmt.Errorf("vectors of %d and %d components have a distance: %v %v", len(p.A), len(p.B), d, d2)
				}
				return nil
			}
			if err != nil || err2 != nil || derr != nil || derr2 != nil {
				return fmt.Errorf("vectors of the same length are refused: %v %v %v %v", err, err2, derr, derr2)
			}
			same := sameFloats(p.A, p.B)
			if eq != same || eq2 != same {
				return fmt.Errorf("%v and %v: equal is %v and %v", p.A, p.B, eq, eq2)
			}
			if !same {
				ctx.NonTrivial()
				ctx.Class("different vectors")
			} else {
				ctx.Class("equal vectors")
			}
			var want float64
			for i := range p.A {
				x := float64(p.A[i]) - float64(p.B[i])
				want += x * x
			}
			want = math.Sqrt(want)
			if d != d2 || math.Abs(float64(d)-want) > 1e-5*want+1e-18 {
				return fmt.Errorf("distance of %v and %v is %v and %v, should be %v", p.A, p.B, d, d2, want)
			}
			// the array belongs to the caller
			if len(arr) > 0 {
				arr[p.Poke%len(arr)]++
				arr = append(arr[:0], make([]float32, len(arr))...)
			}
			_ = arr
			if !sameFloats(a.ToArray(), p.A) {
				return fmt.Errorf("writing to the array of %v changed the vector to %v", p.A, a.ToArray())
			}
			return nil
		},
	})
}
