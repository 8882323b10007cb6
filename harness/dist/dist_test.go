// Package dist checks the distance functions against float64 definitions.
package dist

import (
	"fmt"
	"math"
	"math/rand"
	"testing"
	"unsafe"

	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer/asm"
	"github.com/fairDataSociety/FaVe/pkg/vectorizer"
	"pgregory.net/rapid"
	"verifharness/kit"
)

// Pair is two vectors made from a seed (so that long ones stay readable), with
// a few explicitly drawn elements on top.
type Pair struct {
	Seed int64       `json:"seed"`
	N    int         `json:"n"`
	M    int         `json:"m"` // length of the second vector, if different
	Kind int         `json:"kind"`
	Off  int         `json:"off"` // offset of the slices in their arrays
	Set  map[int]int `json:"set,omitempty"`
	A    []float32   `json:"a,omitempty"` // explicit vectors, if short
	B    []float32   `json:"b,omitempty"`
}

func genPair(t *rapid.T) Pair {
	p := Pair{
		Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed"),
		Kind: rapid.IntRange(0, 7).Draw(t, "kind"),
		Off:  rapid.IntRange(0, 9).Draw(t, "off"),
	}
	switch rapid.IntRange(0, 3).Draw(t, "len") {
	case 0:
		p.N = rapid.IntRange(0, 9).Draw(t, "n")
	case 1:
		p.N = rapid.IntRange(0, 70).Draw(t, "n")
	case 2:
		p.N = rapid.IntRange(0, 600).Draw(t, "n")
	default:
		p.N = rapid.SampledFrom([]int{8, 16, 31, 32, 33, 64, 96, 100, 127, 128, 129, 255, 256, 300, 384, 511, 512, 513, 768, 1024, 1536}).Draw(t, "n")
	}
	p.M = p.N
	if rapid.IntRange(0, 4).Draw(t, "mismatch") == 0 {
		p.M = rapid.IntRange(0, 80).Draw(t, "m")
		if rapid.Bool().Draw(t, "near") {
			p.M = p.N + rapid.SampledFrom([]int{-1, 1, 8, -8}).Draw(t, "d")
			if p.M < 0 {
				p.M = 0
			}
		}
	}
	if p.N <= 9 && p.M <= 9 && rapid.Bool().Draw(t, "explicit") {
		f := rapid.Custom(func(t *rapid.T) float32 {
			return float32(rapid.SampledFrom([]float64{0, 1, -1, 0.5, 2, -3, 1e-7, 1e7, 0.1, 123.456, -1e-3, float64(float32(math.Copysign(0, -1)))}).Draw(t, "f"))
		})
		p.A = rapid.SliceOfN(f, p.N, p.N).Draw(t, "a")
		p.B = rapid.SliceOfN(f, p.M, p.M).Draw(t, "b")
	}
	return p
}

func (p Pair) vectors() (a, b []float32) {
	mk := func(n int, r *rand.Rand, explicit []float32, off int) []float32 {
		buf := make([]float32, n+off+40)
		for i := range buf {
			buf[i] = 1e9 // values just outside the vector must not be used
		}
		v := buf[off : off+n : off+n]
		for i := range v {
			if explicit != nil {
				v[i] = explicit[i]
				continue
			}
			switch p.Kind {
			case 0:
				v[i] = r.Float32()
			case 1:
				v[i] = float32(r.NormFloat64())
			case 2:
				v[i] = float32(r.NormFloat64() * 1000)
			case 3:
				v[i] = float32(r.NormFloat64() * math.Pow(10, float64(r.Intn(9)-4)))
			case 4:
				v[i] = float32(r.Intn(3) - 1)
			case 5:
				v[i] = float32(r.NormFloat64() * 1e-5)
			case 6: // sparse
				if r.Intn(8) == 0 {
					v[i] = float32(r.NormFloat64())
				}
			default: // one large element
				v[i] = float32(r.NormFloat64())
				if i == n-1 {
					v[i] = 5000
				}
			}
		}
		return v
	}
	r := rand.New(rand.NewSource(p.Seed))
	a = mk(p.N, r, p.A, p.Off)
	b = mk(p.M, r, p.B, (p.Off*3)%10)
	if p.Kind == 4 && p.A == nil {
		for i := range b { // share many elements
			if i < len(a) && r.Intn(2) == 0 {
				b[i] = a[i]
			}
		}
	}
	return a, b
}

// metric is the definition of a distance in float64 with the size of its
// terms, which bounds the rounding error.
type metric struct {
	name string
	prov interface {
		SingleDist(a, b []float32) (float32, bool, error)
		Step(x, y []float32) float32
		Wrap(x float32) float32
		Type() string
	}
	dist  func(q []float32) func(b []float32) (float32, bool, error)
	exact func(a, b []float32) (val, terms float64)
}

func metrics() []metric {
	dot := func(a, b []float32) (float64, float64) {
		var s, t float64
		for i := range a {
			x := float64(a[i]) * float64(b[i])
			s += x
			t += math.Abs(x)
		}
		return s, t
	}
	cos, dp, l2, mh, hm := distancer.NewCosineDistanceProvider(), distancer.NewDotProductProvider(), distancer.NewL2SquaredProvider(), distancer.NewManhattanProvider(), distancer.NewHammingProvider()
	return []metric{
		{"cosine", cos, func(q []float32) func([]float32) (float32, bool, error) { return cos.New(q).Distance }, func(a, b []float32) (float64, float64) { s, t := dot(a, b); return 1 - s, 1 + t }},
		{"dot", dp, func(q []float32) func([]float32) (float32, bool, error) { return dp.New(q).Distance }, func(a, b []float32) (float64, float64) { s, t := dot(a, b); return -s, t }},
		{"l2", l2, func(q []float32) func([]float32) (float32, bool, error) { return l2.New(q).Distance }, func(a, b []float32) (float64, float64) {
			var s float64
			for i := range a {
				d := float64(a[i]) - float64(b[i])
				s += d * d
			}
			return s, s
		}},
		{"manhattan", mh, func(q []float32) func([]float32) (float32, bool, error) { return mh.New(q).Distance }, func(a, b []float32) (float64, float64) {
			var s float64
			for i := range a {
				s += math.Abs(float64(a[i]) - float64(b[i]))
			}
			return s, s
		}},
		{"hamming", hm, func(q []float32) func([]float32) (float32, bool, error) { return hm.New(q).Distance }, func(a, b []float32) (float64, float64) {
			var s float64
			for i := range a {
				if a[i] != b[i] {
					s++
				}
			}
			return s, 0
		}},
	}
}

func clone(v []float32) []float32 { return append([]float32{}, v...) }

func sameBits(a, b []float32) bool {
	for i := range a {
		if math.Float32bits(a[i]) != math.Float32bits(b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

func checkPair(ctx *kit.Ctx, p Pair) error {
	a, b := p.vectors()
	a0, b0 := clone(a), clone(b)
	ctx.Class("kind %d", p.Kind)
	if len(a) == 0 {
		ctx.Class("empty")
	}
	for _, m := range metrics() {
		if len(a) != len(b) {
			ctx.Class("different lengths")
			for _, x := range [][2][]float32{{a, b}, {b, a}} {
				if d, _, err := m.prov.SingleDist(x[0], x[1]); err == nil {
					return fmt.Errorf("%s: vectors of lengths %d and %d have the distance %v and no error", m.name, len(x[0]), len(x[1]), d)
				}
				if d, _, err := m.dist(x[0])(x[1]); err == nil {
					return fmt.Errorf("%s (prepared): vectors of lengths %d and %d have the distance %v and no error", m.name, len(x[0]), len(x[1]), d)
				}
			}
			continue
		}
		want, terms := m.exact(a, b)
		tol := terms*(float64(len(a))+8)*math.Pow(2, -23) + 1e-30
		if m.name == "l2" || m.name == "manhattan" {
			// the difference of each pair is itself rounded
			tol += terms * math.Pow(2, -20)
		}
		near := func(how string, got float32) error {
			if math.IsNaN(float64(got)) || math.Abs(float64(got)-want) > tol {
				return fmt.Errorf("%s distance (%s) of two vectors of length %d is %v, not %v (tolerance %g)", m.name, how, len(a), got, want, tol)
			}
			return nil
		}
		d, ok, err := m.prov.SingleDist(a, b)
		if err != nil || !ok {
			return fmt.Errorf("%s distance of two vectors of length %d: ok=%v err=%v", m.name, len(a), ok, err)
		}
		if err := near("direct", d); err != nil {
			return err
		}
		if d, _, err = m.prov.SingleDist(b, a); err != nil {
			return err
		}
		if err := near("swapped", d); err != nil {
			return err
		}
		f := m.dist(a)
		for i := 0; i < 2; i++ { // a prepared distance can be used repeatedly
			d, ok, err = f(b)
			if err != nil || !ok {
				return fmt.Errorf("%s prepared distance: ok=%v err=%v", m.name, ok, err)
			}
			if err := near("prepared", d); err != nil {
				return err
			}
			if _, _, err = f(a); err != nil {
				return err
			}
		}
		if err := near("step and wrap", m.prov.Wrap(m.prov.Step(a, b))); err != nil {
			return err
		}
		// step-wise over segments, as a quantizer adds them up
		var sum float32
		for i := 0; i < len(a); i += 7 {
			e := i + 7
			if e > len(a) {
				e = len(a)
			}
			sum += m.prov.Step(a[i:e], b[i:e])
		}
		if err := near("segment-wise", m.prov.Wrap(sum)); err != nil {
			return err
		}
		if m.prov.Type() == "" {
			return fmt.Errorf("%s has no type name", m.name)
		}
	}
	if len(a) == len(b) {
		ctx.NonTrivial()
		m := metrics()
		// the vectorised kernels, at the given alignment
		want, terms := m[1].exact(a, b)
		tol := terms*(float64(len(a))+8)*math.Pow(2, -23) + 1e-30
		if len(a) > 0 {
			if got := asm.Dot(a, b); math.IsNaN(float64(got)) || math.Abs(float64(got)+want) > tol {
				return fmt.Errorf("dot product kernel for length %d (addresses %x, %x): %v, not %v", len(a), addr(a), addr(b), got, -want)
			}
			want, terms = m[2].exact(a, b)
			tol = terms*(float64(len(a))+16)*math.Pow(2, -23) + 1e-30
			if got := asm.L2(a, b); math.IsNaN(float64(got)) || math.Abs(float64(got)-want) > tol {
				return fmt.Errorf("squared distance kernel for length %d (addresses %x, %x): %v, not %v", len(a), addr(a), addr(b), got, want)
			}
		}
		if got := distancer.DotProductGo(a, b); len(a) > 0 {
			w, t := m[1].exact(a, b)
			if math.Abs(float64(got)-w) > t*(float64(len(a))+8)*math.Pow(2, -23)+1e-30 {
				return fmt.Errorf("plain dot product distance for length %d: %v, not %v", len(a), got, w)
			}
		}
	}
	if err := checkNormalize(ctx, a, b); err != nil {
		return err
	}
	if err := checkVector(a, b); err != nil {
		return err
	}
	if !sameBits(a, a0) || !sameBits(b, b0) {
		return fmt.Errorf("computing distances changed the vectors")
	}
	return nil
}

func addr(v []float32) uintptr { return uintptr(unsafe.Pointer(&v[0])) & 63 }

func norm(v []float32) float64 {
	var s float64
	for _, x := range v {
		s += float64(x) * float64(x)
	}
	return math.Sqrt(s)
}

func checkNormalize(ctx *kit.Ctx, a, b []float32) error {
	na := distancer.Normalize(a)
	if len(na) != len(a) {
		return fmt.Errorf("normalising a vector of length %d gives one of length %d", len(a), len(na))
	}
	l := norm(a)
	if l == 0 {
		for _, x := range na {
			if x != 0 {
				return fmt.Errorf("normalising the zero vector gives %v", na)
			}
		}
		ctx.Class("zero vector")
		return nil
	}
	eps := float64(len(a))*math.Pow(2, -23) + 1e-6
	if x := norm(na); math.Abs(x-1) > eps {
		return fmt.Errorf("the normalised vector of length %d has norm %v", len(a), x)
	}
	for i := range a {
		if math.Abs(float64(na[i])-float64(a[i])/l) > eps*(math.Abs(float64(a[i])/l)+1e-12) {
			return fmt.Errorf("element %d of the normalised vector is %v, not %v", i, na[i], float64(a[i])/l)
		}
	}
	if len(a) == len(b) && norm(b) > 0 {
		// cosine distance of the normalised vectors
		var s float64
		for i := range a {
			s += float64(a[i]) * float64(b[i])
		}
		want := 1 - s/(l*norm(b))
		got, _, err := distancer.NewCosineDistanceProvider().SingleDist(na, distancer.Normalize(b))
		if err != nil {
			return err
		}
		if math.Abs(float64(got)-want) > 3*eps {
			return fmt.Errorf("cosine distance of two normalised vectors of length %d is %v, not %v", len(a), got, want)
		}
	}
	return nil
}

func checkVector(a, b []float32) error {
	va, vb := vectorizer.NewVector(a), vectorizer.NewVector(b)
	if va.Len() != len(a) {
		return fmt.Errorf("vector of %d elements has length %d", len(a), va.Len())
	}
	arr := va.ToArray()
	if !sameBits(arr, a) {
		return fmt.Errorf("vector gives back %v for %v", arr, a)
	}
	for i := range arr { // the array is the caller's own
		arr[i]++
	}
	eq, err := va.Equal(&vb)
	d, derr := va.Distance(&vb)
	if len(a) != len(b) {
		if eq || err == nil || derr == nil {
			return fmt.Errorf("vectors of lengths %d and %d: equal %v (%v), distance %v (%v)", len(a), len(b), eq, err, d, derr)
		}
		return nil
	}
	if err != nil || derr != nil {
		return fmt.Errorf("vectors of the same length: %v, %v", err, derr)
	}
	same, s := true, 0.0
	for i := range a {
		same = same && a[i] == b[i]
		x := float64(a[i]) - float64(b[i])
		s += x * x
	}
	if eq != same {
		return fmt.Errorf("vectors compare as equal=%v, elements say %v", eq, same)
	}
	if math.Abs(float64(d)-math.Sqrt(s)) > math.Sqrt(s)*(float64(len(a))+16)*math.Pow(2, -23)+1e-15 {
		return fmt.Errorf("distance of two vectors of length %d is %v, not %v", len(a), d, math.Sqrt(s))
	}
	return nil
}

func TestP12(t *testing.T) {
	kit.Run(t, kit.Prop[Pair]{
		ID: "P12", Quick: 200000, Thorough: 4000000,
		Rule:  "distinct pairs of vectors of equal length (all kinds of distances are computed in every way)",
		Gen:   genPair,
		Check: checkPair,
	})
}

// Geo is two points on the globe.
type Geo struct {
	A [2]float32 `json:"a"`
	B [2]float32 `json:"b"`
	N int        `json:"n"` // length of the second vector
}

func TestP12_geo(t *testing.T) {
	kit.Run(t, kit.Prop[Geo]{
		ID: "P12", Sub: "geo", Quick: 100000, Thorough: 2000000,
		Rule: "distinct pairs of points",
		Gen: func(t *rapid.T) Geo {
			pt := func(l string) [2]float32 {
				if rapid.IntRange(0, 3).Draw(t, l) == 0 {
					return [2]float32{rapid.SampledFrom([]float32{0, 90, -90, 45, 89.99, 1e-4}).Draw(t, l+"lat"), rapid.SampledFrom([]float32{0, 180, -180, 90, 179.99, -1e-4}).Draw(t, l+"lon")}
				}
				return [2]float32{rapid.Float32Range(-90, 90).Draw(t, l+"lat"), rapid.Float32Range(-180, 180).Draw(t, l+"lon")}
			}
			g := Geo{A: pt("a"), B: pt("b"), N: 2}
			switch rapid.IntRange(0, 7).Draw(t, "rel") {
			case 0: // antipodes
				g.B = [2]float32{-g.A[0], g.A[1] - 180}
				if g.B[1] < -180 {
					g.B[1] += 360
				}
			case 1:
				g.B = g.A
			case 2:
				g.N = rapid.SampledFrom([]int{0, 1, 3}).Draw(t, "n")
			}
			return g
		},
		Check: func(ctx *kit.Ctx, g Geo) error {
			p := distancer.NewGeoProvider()
			b := make([]float32, g.N)
			copy(b, g.B[:])
			d, ok, err := p.SingleDist(g.A[:], b)
			d2, ok2, err2 := p.New(g.A[:]).Distance(b)
			if g.N != 2 {
				if err == nil || err2 == nil {
					return fmt.Errorf("a point with %d coordinates has a distance", g.N)
				}
				return nil
			}
			ctx.NonTrivial()
			if err != nil || err2 != nil || !ok || !ok2 {
				return fmt.Errorf("no distance: %v %v %v %v", ok, err, ok2, err2)
			}
			if d != d2 {
				return fmt.Errorf("direct distance %v, prepared %v", d, d2)
			}
			// central angle by vectors, stable everywhere
			xyz := func(q [2]float32) (x, y, z float64) {
				la, lo := float64(q[0])*math.Pi/180, float64(q[1])*math.Pi/180
				return math.Cos(la) * math.Cos(lo), math.Cos(la) * math.Sin(lo), math.Sin(la)
			}
			x1, y1, z1 := xyz(g.A)
			x2, y2, z2 := xyz(g.B)
			cx, cy, cz := y1*z2-z1*y2, z1*x2-x1*z2, x1*y2-y1*x2
			want := 6371e3 * math.Atan2(math.Sqrt(cx*cx+cy*cy+cz*cz), x1*x2+y1*y2+z1*z2)
			tol := 20 + want*2e-6
			if want > 0.97*math.Pi*6371e3 {
				tol = 12000 // single-precision angles next to the antipode
			}
			if math.IsNaN(float64(d)) || math.Abs(float64(d)-want) > tol {
				return fmt.Errorf("distance from %v to %v is %v m, not %v", g.A, g.B, d, want)
			}
			return nil
		},
	})
}
