package small

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"strconv"
	"testing"

	"context"

	"github.com/fairDataSociety/FaVe/adapters/handlers"
	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
	ent "github.com/weaviate/weaviate/entities/vectorindex/hnsw"
	"pgregory.net/rapid"
	"verifharness/kit"
)

// Setting is one given setting: a number, bool or string in one of the forms
// in which it can arrive.
type Setting struct {
	Name string  `json:"name"`
	Form string  `json:"form"` // int64 json.Number, float64, bool, string, or odd
	Int  int64   `json:"int,omitempty"`
	Big  string  `json:"big,omitempty"` // a number beyond 64 bits
	Bool bool    `json:"bool,omitempty"`
	Str  string  `json:"str,omitempty"`
	Odd  int     `json:"odd,omitempty"`
	F    float64 `json:"f,omitempty"`
}

// Settings is a set of given settings.
type Settings struct {
	Top     []Setting `json:"top"`
	PQ      []Setting `json:"pq"`
	Encoder []Setting `json:"encoder"`
}

var intSettings = []string{"cleanupIntervalSeconds", "maxConnections", "efConstruction", "ef", "dynamicEfMin", "dynamicEfMax", "dynamicEfFactor", "vectorCacheMaxObjects", "flatSearchCutoff"}

func genInt(t *rapid.T, name string) Setting {
	s := Setting{Name: name, Form: rapid.SampledFrom([]string{"number", "float64"}).Draw(t, "form")}
	switch rapid.IntRange(0, 5).Draw(t, "size") {
	case 0:
		s.Int = int64(rapid.IntRange(-2, 8).Draw(t, "v"))
	case 1:
		s.Int = rapid.Int64Range(-1<<53, 1<<53).Draw(t, "v")
	case 2:
		s.Int = rapid.SampledFrom([]int64{math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, 1 << 40}).Draw(t, "v")
	case 3:
		if s.Form == "number" {
			s.Int = rapid.SampledFrom([]int64{math.MaxInt64, math.MaxInt64 - 1, 1<<53 + 1, math.MinInt64}).Draw(t, "v")
			if rapid.Bool().Draw(t, "big") {
				s.Big = rapid.SampledFrom([]string{"9223372036854775808", "18446744073709551615", "100000000000000000000000"}).Draw(t, "b")
				s.Int = math.MaxInt64
			}
		}
	default:
		s.Int = int64(rapid.IntRange(4, 2000).Draw(t, "v"))
	}
	return s
}

func (s Setting) value() interface{} {
	switch s.Form {
	case "number":
		if s.Big != "" {
			return json.Number(s.Big)
		}
		return json.Number(strconv.FormatInt(s.Int, 10))
	case "float64":
		return float64(s.Int)
	case "bool":
		return s.Bool
	case "string":
		return s.Str
	}
	odd := []interface{}{nil, []interface{}{1.0}, map[string]interface{}{}, json.Number("abc"), json.Number(""), json.Number("1.5"), true, "x", -1.5, uint8(3)}
	return odd[s.Odd%len(odd)]
}

func pick(t *rapid.T, names []string, odd bool, draw func(string) Setting) []Setting {
	var out []Setting
	for _, n := range names {
		if rapid.IntRange(0, 3).Draw(t, "has "+n) != 0 {
			continue
		}
		if odd && rapid.IntRange(0, 3).Draw(t, "odd "+n) == 0 {
			out = append(out, Setting{Name: n, Form: "odd", Odd: rapid.IntRange(0, 9).Draw(t, "o")})
			continue
		}
		out = append(out, draw(n))
	}
	return out
}

func genSettings(t *rapid.T) Settings {
	odd := rapid.IntRange(0, 4).Draw(t, "odd") == 0
	boolS := func(n string) Setting { return Setting{Name: n, Form: "bool", Bool: rapid.Bool().Draw(t, n)} }
	intS := func(n string) Setting { return genInt(t, n) }
	var c Settings
	c.Top = pick(t, intSettings, odd, intS)
	c.Top = append(c.Top, pick(t, []string{"skip"}, odd, boolS)...)
	c.Top = append(c.Top, pick(t, []string{"distance"}, odd, func(n string) Setting {
		return Setting{Name: n, Form: "string", Str: rapid.SampledFrom([]string{"cosine", "dot", "l2-squared", "manhattan", "hamming"}).Draw(t, n)}
	})...)
	c.PQ = append(pick(t, []string{"enabled", "bitCompression"}, odd, boolS), pick(t, []string{"segments", "centroids"}, odd, intS)...)
	c.Encoder = append(pick(t, []string{"type"}, odd, func(n string) Setting {
		return Setting{Name: n, Form: "string", Str: rapid.SampledFrom([]string{"kmeans", "tile", "", "KMEANS", "kmean"}).Draw(t, n)}
	}), pick(t, []string{"distribution"}, odd, func(n string) Setting {
		return Setting{Name: n, Form: "string", Str: rapid.SampledFrom([]string{"log-normal", "normal", "", "lognormal", "Normal"}).Draw(t, n)}
	})...)
	return c
}

func toMap(ss []Setting) map[string]interface{} {
	m := map[string]interface{}{}
	for _, s := range ss {
		m[s.Name] = s.value()
	}
	return m
}

func hasOdd(c Settings) bool {
	for _, l := range [][]Setting{c.Top, c.PQ, c.Encoder} {
		for _, s := range l {
			if s.Form == "odd" {
				return true
			}
		}
	}
	return false
}

// want is the documented meaning of the settings.
func want(c Settings) (hnsw.UserConfig, bool) {
	u := hnsw.UserConfig{
		CleanupIntervalSeconds: 300, MaxConnections: 64, EFConstruction: 128, EF: -1, DynamicEFMin: 100, DynamicEFMax: 500, DynamicEFFactor: 8,
		VectorCacheMaxObjects: 1e12, FlatSearchCutoff: 40000, Distance: "cosine",
		PQ: hnsw.PQConfig{Centroids: 256, Encoder: hnsw.PQEncoder{Type: "kmeans", Distribution: "log-normal"}},
	}
	ok := true
	ints := map[string]*int{"cleanupIntervalSeconds": &u.CleanupIntervalSeconds, "maxConnections": &u.MaxConnections, "efConstruction": &u.EFConstruction, "ef": &u.EF,
		"dynamicEfMin": &u.DynamicEFMin, "dynamicEfMax": &u.DynamicEFMax, "dynamicEfFactor": &u.DynamicEFFactor, "vectorCacheMaxObjects": &u.VectorCacheMaxObjects, "flatSearchCutoff": &u.FlatSearchCutoff}
	for _, s := range c.Top {
		switch s.Name {
		case "skip":
			u.Skip = s.Bool
		case "distance":
			u.Distance = s.Str
		default:
			*ints[s.Name] = int(s.Int)
		}
	}
	for _, s := range c.PQ {
		switch s.Name {
		case "enabled":
			u.PQ.Enabled = s.Bool
		case "bitCompression":
			u.PQ.BitCompression = s.Bool
		case "segments":
			u.PQ.Segments = int(s.Int)
		case "centroids":
			u.PQ.Centroids = int(s.Int)
		}
	}
	for _, s := range c.Encoder {
		if s.Name == "type" {
			ok = ok && (s.Str == "kmeans" || s.Str == "tile")
			u.PQ.Encoder.Type = s.Str
		} else {
			ok = ok && (s.Str == "log-normal" || s.Str == "normal")
			u.PQ.Encoder.Distribution = s.Str
		}
	}
	return u, ok && u.MaxConnections >= 4 && u.EFConstruction >= 4
}

func checkSettings(ctx *kit.Ctx, c Settings) error {
	in := toMap(c.Top)
	if len(c.PQ)+len(c.Encoder) > 0 {
		pq := toMap(c.PQ)
		if len(c.Encoder) > 0 {
			pq["encoder"] = toMap(c.Encoder)
		}
		in["pq"] = pq
	}
	got, err := hnsw.ParseAndValidateConfig(in)
	if len(in) > 0 {
		ctx.NonTrivial()
	}
	if hasOdd(c) {
		// wrongly typed settings: no crash, and nothing invalid accepted
		ctx.Class("wrongly typed")
		if err == nil {
			u, is := got.(hnsw.UserConfig)
			if !is {
				return fmt.Errorf("accepted settings are of type %T", got)
			}
			if u.MaxConnections < 4 || u.EFConstruction < 4 {
				return fmt.Errorf("settings %v were accepted as maxConnections %d, efConstruction %d", in, u.MaxConnections, u.EFConstruction)
			}
		}
		return nil
	}
	w, ok := want(c)
	if !ok {
		ctx.Class("invalid")
		if err == nil {
			return fmt.Errorf("settings %v were accepted, but are out of range", in)
		}
		return nil
	}
	ctx.Class("valid")
	if err != nil {
		return fmt.Errorf("settings %v were refused: %v", in, err)
	}
	if !reflect.DeepEqual(got, w) {
		return fmt.Errorf("settings %v give %+v, should be %+v", in, got, w)
	}
	return nil
}

func TestP18(t *testing.T) {
	kit.Run(t, kit.Prop[Settings]{
		ID: "P18", Quick: 60000, Thorough: 1500000,
		Rule:  "distinct inputs that give at least one setting",
		Gen:   genSettings,
		Check: checkSettings,
	})
}

// Update is a change of settings of an index.
type Update struct {
	A, B ent.UserConfig
	Kind int // 0: proper configs, else one of them is something else
}

func genEnt(t *rapid.T, l string) ent.UserConfig {
	u := ent.UserConfig{}
	u.SetDefaults()
	return u
}

func TestP18_update(t *testing.T) {
	kit.Run(t, kit.Prop[Update]{
		ID: "P18", Sub: "update", Quick: 20000, Thorough: 300000,
		Rule: "distinct pairs of settings that differ",
		Gen: func(t *rapid.T) Update {
			var u Update
			u.A = genEnt(t, "a")
			iv := func(l string) int {
				return rapid.OneOf(rapid.IntRange(1, 300), rapid.IntRange(-3, 3), rapid.SampledFrom([]int{math.MaxInt64, math.MinInt64, math.MaxInt32, 1 << 32})).Draw(t, l)
			}
			u.A.MaxConnections, u.A.EFConstruction, u.A.CleanupIntervalSeconds, u.A.EF = iv("mc"), iv("efc"), iv("ci"), iv("ef")
			u.B = u.A
			for i, f := range []*int{&u.B.EF, &u.B.DynamicEFMin, &u.B.DynamicEFMax, &u.B.DynamicEFFactor, &u.B.VectorCacheMaxObjects, &u.B.FlatSearchCutoff, &u.B.MaxConnections, &u.B.EFConstruction, &u.B.CleanupIntervalSeconds} {
				n := 3
				if i > 5 {
					n = 9
				}
				if rapid.IntRange(0, n).Draw(t, "chg") == 0 {
					*f = iv("new")
				}
			}
			u.Kind = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 1, 2}).Draw(t, "kind")
			return u
		},
		Check: func(ctx *kit.Ctx, u Update) error {
			if !reflect.DeepEqual(u.A, u.B) {
				ctx.NonTrivial()
			}
			var err error
			switch u.Kind {
			case 1:
				err = hnsw.ValidateUserConfigUpdate(nil, u.B)
			case 2:
				err = hnsw.ValidateUserConfigUpdate(u.A, otherConfig{})
			default:
				err = hnsw.ValidateUserConfigUpdate(u.A, u.B)
			}
			allowed := u.Kind == 0 && u.A.MaxConnections == u.B.MaxConnections && u.A.EFConstruction == u.B.EFConstruction && u.A.CleanupIntervalSeconds == u.B.CleanupIntervalSeconds
			ctx.Class("allowed %v", allowed)
			if allowed != (err == nil) {
				return fmt.Errorf("change from %+v to %+v (kind %d): error %v, allowed should be %v", u.A, u.B, u.Kind, err, allowed)
			}
			return nil
		},
	})
}

type otherConfig struct{}

func (otherConfig) IndexType() string { return "other" }

// TestP18_new: an index is only created with a complete configuration.
func TestP18_new(t *testing.T) {
	kit.Run(t, kit.Prop[int]{
		ID: "P18", Sub: "new", Quick: 800, Thorough: 3200,
		Rule: "distinct subsets of the required parts of an index configuration",
		Gen:  func(t *rapid.T) int { return rapid.IntRange(0, 31).Draw(t, "mask") },
		Check: func(ctx *kit.Ctx, mask int) error {
			ctx.NonTrivial()
			var c hnsw.Config
			if mask&1 != 0 {
				c.ID = "id"
			}
			if mask&2 != 0 {
				c.RootPath = "unused"
			}
			if mask&4 != 0 {
				c.MakeCommitLoggerThunk = hnsw.MakeNoopCommitLogger
			}
			if mask&8 != 0 {
				c.VectorForIDThunk = func(context.Context, uint64) ([]float32, error) { return nil, fmt.Errorf("none") }
			}
			if mask&16 != 0 {
				c.DistanceProvider = distancer.NewCosineDistanceProvider()
			}
			err := c.Validate()
			if (err == nil) != (mask == 31) {
				return fmt.Errorf("parts %05b of the configuration given: error %v", mask, err)
			}
			if mask != 31 {
				if _, err := hnsw.New(c, hnsw.NewDefaultUserConfig(), nil); err == nil {
					return fmt.Errorf("an index was created with parts %05b of its configuration", mask)
				}
			}
			return nil
		},
	})
}

// Env is an environment and a configuration before it is read.
type Env struct {
	Vars   map[string]string `json:"vars"` // absent: not set
	Before [8]string         `json:"before"`
	Again  bool              `json:"again"`
}

var envNames = []string{"VERBOSE", "BEE_API", "RPC_API", "STAMP_ID", "VECTORIZER_URL", "USER", "PASSWORD", "POD"}

func TestP23(t *testing.T) {
	kit.Run(t, kit.Prop[Env]{
		ID: "P23", Quick: 30000, Thorough: 600000,
		Rule: "distinct environments with at least one variable set",
		Gen: func(t *rapid.T) Env {
			e := Env{Vars: map[string]string{}}
			val := rapid.Custom(func(t *rapid.T) string {
				if rapid.Bool().Draw(t, "fixed") {
					return rapid.SampledFrom([]string{"http://localhost:1633", "x", "true", "0", "0000000000000000000000000000000000000000000000000000000000000000", " ", "a=b", "ünï", "on"}).Draw(t, "v")
				}
				return rapid.StringMatching(`[ -~]{0,12}`).Draw(t, "v")
			})
			for i, n := range envNames {
				if rapid.IntRange(0, 2).Draw(t, n) > 0 {
					if n == "VERBOSE" {
						e.Vars[n] = rapid.SampledFrom([]string{"on", "enabled", "1", "true", "off", "0", "false", "", "TRUE", "True", "yes", "2", " true", "on ", "enable", "disabled", "11", "t"}).Draw(t, "vb")
					} else {
						e.Vars[n] = val.Draw(t, "val")
					}
				}
				if rapid.IntRange(0, 2).Draw(t, "before") == 0 {
					e.Before[i] = val.Draw(t, "bv")
				}
			}
			e.Again = rapid.Bool().Draw(t, "again")
			return e
		},
		Check: checkEnv,
	})
}

func checkEnv(ctx *kit.Ctx, e Env) error {
	saved := map[string]*string{}
	for _, n := range envNames {
		if v, ok := os.LookupEnv(n); ok {
			v := v
			saved[n] = &v
		} else {
			saved[n] = nil
		}
	}
	defer func() {
		for n, v := range saved {
			if v == nil {
				os.Unsetenv(n)
			} else {
				os.Setenv(n, *v)
			}
		}
	}()
	set := 0
	for _, n := range envNames {
		os.Unsetenv(n)
		if v, ok := e.Vars[n]; ok {
			if err := os.Setenv(n, v); err != nil {
				kit.Abort(err)
			}
			set++
		}
	}
	if set > 0 {
		ctx.NonTrivial()
	}
	fill := func() handlers.HandlerConfig {
		return handlers.HandlerConfig{Verbose: e.Before[0] == "on", BeeAPI: e.Before[1], RPCEndpoint: e.Before[2], StampId: e.Before[3], GloveLevelDBUrl: e.Before[4], Username: e.Before[5], Password: e.Before[6], Pod: e.Before[7]}
	}
	c, w := fill(), fill()
	switch e.Vars["VERBOSE"] {
	case "on", "enabled", "1", "true":
		w.Verbose = true
	}
	for n, f := range map[string]*string{"BEE_API": &w.BeeAPI, "RPC_API": &w.RPCEndpoint, "STAMP_ID": &w.StampId, "VECTORIZER_URL": &w.GloveLevelDBUrl, "USER": &w.Username, "PASSWORD": &w.Password, "POD": &w.Pod} {
		if v := e.Vars[n]; v != "" {
			*f = v
		}
	}
	handlers.FromEnv(&c)
	if c != w {
		return fmt.Errorf("environment %q over %+v gives %+v, should be %+v", e.Vars, fill(), c, w)
	}
	if w.BeeAPI == "" {
		w.BeeAPI = "http://localhost:1633"
	}
	if w.StampId == "" {
		w.StampId = "0000000000000000000000000000000000000000000000000000000000000000"
	}
	handlers.SetDefaults(&c)
	if c != w {
		return fmt.Errorf("environment %q with defaults gives %+v, should be %+v", e.Vars, c, w)
	}
	if e.Again {
		// reading again changes nothing
		handlers.FromEnv(&c)
		handlers.SetDefaults(&c)
		if c != w {
			return fmt.Errorf("environment %q read twice gives %+v, should be %+v", e.Vars, c, w)
		}
	}
	return nil
}
