package kit

import (
	"fmt"
	"math/rand"
	"strings"

	"pgregory.net/rapid"
)

// Dim draws a vector dimension, biased to small ones and to the block sizes of
// the distance kernels.
func Dim(t *rapid.T) int {
	switch rapid.IntRange(0, 3).Draw(t, "dimkind") {
	case 0:
		return rapid.IntRange(1, 4).Draw(t, "dim")
	case 1:
		return rapid.IntRange(2, 10).Draw(t, "dim")
	case 2:
		return rapid.SampledFrom([]int{7, 8, 9, 15, 16, 17, 31, 32, 33, 40}).Draw(t, "dim")
	}
	return rapid.IntRange(2, 24).Draw(t, "dim")
}

// Vec draws a non-zero vector. kind 0: small integers (ties and duplicates are
// common), 1: scattered, 2: near a few cluster centres, 3: scattered with a
// large or small scale.
func Vec(t *rapid.T, dim, kind int) []float32 {
	v := make([]float32, dim)
	switch kind {
	case 0:
		for i := range v {
			v[i] = float32(rapid.IntRange(-2, 2).Draw(t, "x"))
		}
	default:
		r := rand.New(rand.NewSource(rapid.Int64Range(0, 1<<40).Draw(t, "vseed")))
		FillVec(r, v, kind)
	}
	return NonZero(v)
}

// FillVec fills v from r.
func FillVec(r *rand.Rand, v []float32, kind int) {
	switch kind {
	case 2:
		c := rand.New(rand.NewSource(int64(r.Intn(3))))
		for i := range v {
			v[i] = float32(c.NormFloat64()) + float32(r.NormFloat64())*0.02
		}
	case 3:
		s := []float64{1e-4, 1e-2, 1, 50, 1e4}[r.Intn(5)]
		for i := range v {
			v[i] = float32(r.NormFloat64() * s)
		}
	default:
		for i := range v {
			v[i] = float32(r.NormFloat64())
		}
	}
}

// NonZero makes sure the vector has a direction.
func NonZero(v []float32) []float32 {
	for _, x := range v {
		if x != 0 {
			return v
		}
	}
	if len(v) > 0 {
		v[0] = 1
	}
	return v
}

// Repeated is the kind of ManyVecs that has few different vectors.
const Repeated = 99

// ManyVecs makes n vectors from one seed.
func ManyVecs(seed int64, n, dim, kind int) [][]float32 {
	r := rand.New(rand.NewSource(seed))
	out := make([][]float32, n)
	pool := n
	if kind == Repeated {
		kind, pool = 1, 1+r.Intn(1+n/6)
	}
	for i := range out {
		out[i] = make([]float32, dim)
		if i >= pool {
			copy(out[i], out[r.Intn(pool)])
			continue
		}
		FillVec(r, out[i], kind)
		NonZero(out[i])
	}
	return out
}

// Query draws a query vector: a stored one, a scaled or perturbed stored one,
// or a fresh one.
func Query(t *rapid.T, stored [][]float32, dim, kind int) []float32 {
	if len(stored) > 0 {
		switch rapid.IntRange(0, 3).Draw(t, "qkind") {
		case 0:
			return append([]float32{}, rapid.SampledFrom(stored).Draw(t, "q")...)
		case 1:
			q := append([]float32{}, rapid.SampledFrom(stored).Draw(t, "q")...)
			f := rapid.SampledFrom([]float32{-1, 2, 0.5, 10}).Draw(t, "scale")
			for i := range q {
				q[i] *= f
			}
			return q
		}
	}
	return Vec(t, dim, kind)
}

var words = []string{"a", "ab", "abc", "alpha", "beta", "gamma", "delta", "b", "ba", "x1", "x12", "zz", "Alpha", "ALPHA", "0", "10", "100", "7", "true", "null"}

// Word draws a value safe for the lookup expression language of the store.
func Word(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 4).Draw(t, label+"kind") {
	case 0, 1:
		return rapid.SampledFrom(words).Draw(t, label)
	case 2:
		return rapid.SampledFrom(words).Draw(t, label) + " " + rapid.SampledFrom(words).Draw(t, label+"2")
	case 3:
		return Near(t, label+"near", rapid.SampledFrom(words).Draw(t, label))
	}
	return rapid.StringMatching(`[a-zA-Z0-9_]{1,12}`).Draw(t, label)
}

// Near draws a value that is easily taken for the given one.
func Near(t *rapid.T, label, s string) string {
	switch rapid.IntRange(0, 8).Draw(t, label) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.ToUpper(s[:1]) + s[1:]
	case 3:
		return s + " "
	case 4:
		return " " + s
	case 5:
		return s + rapid.SampledFrom([]string{"a", "0", "!", "-", ".", ",", "/", "_", "~"}).Draw(t, label+"c")
	case 6:
		if len(s) > 1 {
			return s[:len(s)-1]
		}
	case 7:
		return s + s
	}
	return s
}

// Text draws free text that is never looked up.
func Text(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 4).Draw(t, label+"kind") {
	case 0:
		return ""
	case 1:
		return rapid.SampledFrom([]string{"<a href=\"x\">&amp;</a>", "line1\nline2\t\"q\"", "\\", "\u2028", "emoji 😀", "{\"a\":1}", "a=b", "[x]"}).Draw(t, label)
	case 2:
		return rapid.StringN(0, 8, 24).Draw(t, label)
	}
	return Word(t, label)
}

// JSONValue draws a JSON value in the form json.Unmarshal gives.
func JSONValue(t *rapid.T, label string, depth int) interface{} {
	k := rapid.IntRange(0, 7).Draw(t, label+"k")
	if depth <= 0 && k > 5 {
		k = 1
	}
	switch k {
	case 0:
		return nil
	case 1, 2:
		return Text(t, label)
	case 3:
		return rapid.Bool().Draw(t, label)
	case 4:
		return float64(rapid.Int64Range(-(1<<53), 1<<53).Draw(t, label))
	case 5:
		return rapid.SampledFrom([]float64{0, 0.1, -1.5, 1e-7, 1e21, 1.7976931348623157e308, 5e-324, 3.141592653589793, 123456789.25, -0.0001}).Draw(t, label)
	case 6:
		n := rapid.IntRange(0, 3).Draw(t, label+"n")
		l := make([]interface{}, n)
		for i := range l {
			l[i] = JSONValue(t, fmt.Sprintf("%s%d", label, i), depth-1)
		}
		return l
	}
	n := rapid.IntRange(0, 3).Draw(t, label+"n")
	m := map[string]interface{}{}
	for i := 0; i < n; i++ {
		m[rapid.SampledFrom([]string{"k", "key", "K", "x y", "é", "id", "vector", ""}).Draw(t, label+"key")] = JSONValue(t, fmt.Sprintf("%s%d", label, i), depth-1)
	}
	return m
}

// Uniform draws an integer from lo to hi with little preference for small ones.
func Uniform(t *rapid.T, lo, hi int, label string) int {
	x := rapid.Uint64Range(0, 1<<40).Draw(t, label)
	return lo + int((x*0x9E3779B97F4A7C15>>33)%uint64(hi-lo+1))
}
