//go:build go1.21

package vc

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"
)

var eof = io.EOF

// Gen produces random inputs for a contract.
type Gen struct {
	R     *rand.Rand
	Strs  []string
	Ints  []int64
	Depth int
	size  int
}

type runCtx struct {
	g       *Gen
	args    []any
	ranges  [][2]uintptr
	maps    map[uintptr]bool
	noframe bool
	snap    []snapEnt
	haveSn  bool
}

var cur *runCtx

func (c *runCtx) allow(p, n uintptr) { c.ranges = append(c.ranges, [2]uintptr{p, p + n}) }

type snapEnt struct {
	addr uintptr
	typ  reflect.Type
	val  any
	path string
}

// Args tells the runner what the contract is called with.
func Args(a ...any) {
	cur.args = a
}

func snapshot() {
	if cur == nil || cur.noframe || cur.args == nil {
		return
	}
	cur.snap = cur.snap[:0]
	seen := map[string]bool{}
	for i, a := range cur.args {
		walk(reflect.ValueOf(a), fmt.Sprintf("arg%d", i), seen, 0)
	}
	cur.haveSn = true
}

func rd(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func walk(v reflect.Value, path string, seen map[string]bool, d int) {
	if !v.IsValid() || d > 12 {
		return
	}
	t := v.Type()
	if t.PkgPath() == "sync" || t.PkgPath() == "testing" || t.PkgPath() == "os" || t.PkgPath() == "regexp" || t.PkgPath() == "os/exec" || t.PkgPath() == "time" && t.Kind() == reflect.Struct && t.Name() != "Time" {
		return
	}
	v = rd(v)
	leaf := func(val any) {
		if v.CanAddr() {
			cur.snap = append(cur.snap, snapEnt{v.UnsafeAddr(), t, val, path})
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		leaf(v.Pointer())
		if v.IsNil() {
			return
		}
		k := fmt.Sprintf("p%x%s", v.Pointer(), t)
		if seen[k] {
			return
		}
		seen[k] = true
		walk(v.Elem(), path+".*", seen, d+1)
	case reflect.Interface:
		if v.CanAddr() {
			leaf(*(*[2]uintptr)(unsafe.Pointer(v.UnsafeAddr())))
		}
		if !v.IsNil() {
			walk(v.Elem(), path, seen, d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			walk(v.Field(i), path+"."+t.Field(i).Name, seen, d+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len() && i < 64; i++ {
			walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i), seen, d+1)
		}
	case reflect.Slice:
		leaf([3]uintptr{v.Pointer(), uintptr(v.Len()), uintptr(v.Cap())})
		full := v.Slice3(0, v.Len(), v.Len())
		for i := 0; i < full.Len() && i < 256; i++ {
			walk(full.Index(i), fmt.Sprintf("%s[%d]", path, i), seen, d+1)
		}
	case reflect.Map:
		if v.CanAddr() {
			leaf(v.Pointer())
		}
		if v.IsNil() {
			return
		}
		c := map[any]string{}
		for _, k := range v.MapKeys() {
			c[fmt.Sprintf("%#v", k)] = fmt.Sprintf("%#v", v.MapIndex(k))
		}
		cur.snap = append(cur.snap, snapEnt{0, t, mapSnap{v, c}, path})
	case reflect.String:
		leaf(strings.Clone(v.String()))
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		if v.CanAddr() {
			leaf(*(*uintptr)(unsafe.Pointer(v.UnsafeAddr())))
		}
	case reflect.Float64:
		leaf(math.Float64bits(v.Float()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		leaf(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		leaf(v.Uint())
	case reflect.Bool:
		leaf(v.Bool())
	}
}

type mapSnap struct {
	m reflect.Value
	c map[any]string
}

func checkFrame() {
	if cur == nil || cur.noframe || !cur.haveSn {
		return
	}
	old := cur.snap
	cur.haveSn = false
	for _, e := range old {
		if ms, ok := e.val.(mapSnap); ok {
			if cur.maps[ms.m.Pointer()] {
				continue
			}
			c := map[any]string{}
			for _, k := range ms.m.MapKeys() {
				c[fmt.Sprintf("%#v", k)] = fmt.Sprintf("%#v", ms.m.MapIndex(k))
			}
			if !reflect.DeepEqual(c, ms.c) {
				panic(failT{"frame: " + e.path + " changed"})
			}
			continue
		}
		ok := false
		for _, r := range cur.ranges {
			if e.addr >= r[0] && e.addr < r[1] {
				ok = true
			}
		}
		if ok {
			continue
		}
		v := reflect.NewAt(e.typ, unsafe.Pointer(e.addr)).Elem()
		var now any
		switch v.Kind() {
		case reflect.Ptr:
			now = v.Pointer()
		case reflect.Interface:
			now = *(*[2]uintptr)(unsafe.Pointer(e.addr))
		case reflect.Slice:
			now = [3]uintptr{v.Pointer(), uintptr(v.Len()), uintptr(v.Cap())}
		case reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
			now = *(*uintptr)(unsafe.Pointer(e.addr))
		case reflect.String:
			now = v.String()
		case reflect.Float64:
			now = math.Float64bits(v.Float())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			now = v.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			now = v.Uint()
		case reflect.Bool:
			now = v.Bool()
		}
		if e.typ.Kind() == reflect.Map {
			now = v.Pointer()
		}
		if now != e.val {
			panic(failT{"frame: " + e.path + " changed"})
		}
	}
}

// ---- generation ----

var impls = map[reflect.Type]func(g *Gen) reflect.Value{}

// RegImpl registers a generator for a type (used for interfaces, functions, or constrained structs).
func RegImpl[T any](f func(g *Gen) T) {
	t := reflect.TypeOf((*T)(nil)).Elem()
	impls[t] = func(g *Gen) reflect.Value {
		x := f(g)
		return reflect.ValueOf(&x).Elem()
	}
}

func Make[T any](g *Gen) T {
	var z T
	v := reflect.ValueOf(&z).Elem()
	g.fill(v, 0)
	return z
}

func (g *Gen) Int(n int) int { return g.R.Intn(n) }
func (g *Gen) Bool() bool    { return g.R.Intn(2) == 0 }
func (g *Gen) Str() string {
	if len(g.Strs) > 0 && g.R.Intn(3) == 0 {
		return g.Strs[g.R.Intn(len(g.Strs))]
	}
	base := []string{"", "a", "b", "c", "aa", "ab", "x=y", "1", "0", "-1", "30", "true", "false", "a.b", "@a"}
	return base[g.R.Intn(len(base))]
}
func (g *Gen) I64() int64 {
	switch g.R.Intn(10) {
	case 0:
		if len(g.Ints) > 0 {
			return g.Ints[g.R.Intn(len(g.Ints))] + int64(g.R.Intn(3)) - 1
		}
	case 1:
		return -int64(g.R.Intn(5))
	case 2:
		return int64(g.R.Intn(100))
	case 3:
		return g.R.Int63() - g.R.Int63()
	}
	return int64(g.R.Intn(6))
}
func (g *Gen) F64() float64 {
	switch g.R.Intn(14) {
	case 0:
		return math.NaN()
	case 1:
		return math.Inf(1)
	case 2:
		return math.Inf(-1)
	case 3:
		return 0
	case 4:
		return -float64(g.R.Intn(5))
	case 5:
		return g.R.NormFloat64() * 10
	}
	return float64(g.R.Intn(16)) / 4
}
func (g *Gen) Len() int { return []int{0, 1, 1, 2, 2, 3, 4, 6}[g.R.Intn(8)] }

func (g *Gen) fill(v reflect.Value, d int) {
	if !v.CanSet() {
		v = rd(v)
	}
	t := v.Type()
	if f, ok := impls[t]; ok {
		v.Set(f(g))
		return
	}
	if t == reflect.TypeOf(time.Time{}) {
		switch g.R.Intn(6) {
		case 0:
			v.Set(reflect.ValueOf(time.Time{}))
		case 1:
			v.Set(reflect.ValueOf(time.Now().UTC().Add(time.Duration(g.R.Intn(7200)-3600) * time.Second)))
		default:
			v.Set(reflect.ValueOf(time.Now().UTC().Add(-time.Duration(g.R.Intn(1000)) * time.Millisecond * 100)))
		}
		return
	}
	if t == reflect.TypeOf(time.Duration(0)) {
		ds := []time.Duration{0, 0, time.Second, time.Minute, time.Hour, time.Hour * 48, -time.Second, 1, time.Second * 30}
		v.SetInt(int64(ds[g.R.Intn(len(ds))]))
		return
	}
	if t.PkgPath() == "sync" {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(g.Bool())
	case reflect.Int, reflect.Int64:
		v.SetInt(g.I64())
	case reflect.Int8, reflect.Int16, reflect.Int32:
		v.SetInt(int64(g.R.Intn(12)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x := g.I64()
		if x < 0 {
			x = -x
		}
		v.SetUint(uint64(x))
	case reflect.Float64:
		v.SetFloat(g.F64())
	case reflect.String:
		v.SetString(g.Str())
	case reflect.Slice:
		if g.R.Intn(8) == 0 {
			return
		}
		n := g.Len()
		if d > 4 {
			n = 0
		}
		c := n
		if g.R.Intn(2) == 0 {
			c = n + g.R.Intn(4)
		}
		s := reflect.MakeSlice(t, n, c)
		for i := 0; i < n; i++ {
			g.fill(s.Index(i), d+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), d+1)
		}
	case reflect.Map:
		if g.R.Intn(8) == 0 {
			return
		}
		m := reflect.MakeMap(t)
		for i, n := 0, g.Len(); i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			g.fill(k, d+1)
			e := reflect.New(t.Elem()).Elem()
			g.fill(e, d+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Ptr:
		if d > 8 || (d > 0 && g.R.Intn(12) == 0) {
			return
		}
		p := reflect.New(t.Elem())
		g.fill(p.Elem(), d+1)
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.fill(v.Field(i), d+1)
		}
	case reflect.Chan:
		if t.ChanDir() == reflect.BothDir {
			v.Set(reflect.MakeChan(t, g.R.Intn(3)))
		}
	case reflect.Interface:
		if t == reflect.TypeOf((*error)(nil)).Elem() {
			if g.Bool() {
				v.Set(reflect.ValueOf(fmt.Errorf("e%d", g.R.Intn(4))))
			}
		}
	}
}

// ---- runner ----

type Case struct {
	Name  string
	Lemma bool
	Run   func(g *Gen)
}
type replayCfg struct {
	Names   []string
	Seconds float64
	Seed    int64
	Only    int64 // run exactly this iteration seed
	Strs    []string
	Ints    []int64
	Out     string
}
type replayRes struct {
	Name     string
	Accepted int
	Skipped  int
	Fail     string
	Seed     int64
	Input    string
	Stack    string
}

var Outer sync.Mutex

func describe(a []any) string {
	var sb strings.Builder
	for i, x := range a {
		s := dump(reflect.ValueOf(x), 0)
		if len(s) > 1500 {
			s = s[:1500] + "…"
		}
		fmt.Fprintf(&sb, "arg%d = %s\n", i, s)
	}
	return sb.String()
}

func dump(v reflect.Value, d int) string {
	if !v.IsValid() {
		return "nil"
	}
	if d > 6 {
		return "…"
	}
	t := v.Type()
	v = rd(v)
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + dump(v.Elem(), d+1)
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return dump(v.Elem(), d+1)
	case reflect.Struct:
		if t == reflect.TypeOf(time.Time{}) && v.CanInterface() {
			return fmt.Sprint(v.Interface())
		}
		var p []string
		for i := 0; i < v.NumField() && i < 40; i++ {
			p = append(p, t.Field(i).Name+":"+dump(v.Field(i), d+1))
		}
		return t.String() + "{" + strings.Join(p, " ") + "}"
	case reflect.Slice:
		if v.IsNil() {
			return "nil"
		}
		var p []string
		for i := 0; i < v.Len() && i < 20; i++ {
			p = append(p, dump(v.Index(i), d+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case reflect.Map:
		var p []string
		for _, k := range v.MapKeys() {
			p = append(p, dump(k, d+1)+":"+dump(v.MapIndex(k), d+1))
		}
		return "map[" + strings.Join(p, " ") + "]"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return t.String()
	}
	return fmt.Sprint(v)
}

func runOne(c Case, g *Gen) (fail string, skipped bool, stack string) {
	cur = &runCtx{g: g, maps: map[uintptr]bool{}, noframe: c.Lemma}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case skipT:
				skipped = true
			case failT:
				fail = x.name
			default:
				fail = fmt.Sprintf("panic: %v", r)
				stack = string(debug.Stack())
			}
		}
	}()
	c.Run(g)
	checkFrame()
	return
}

// Main runs the cases named in $VC_REPLAY (a JSON file).
func Main(t *testing.T, cases []Case) {
	cf := os.Getenv("VC_REPLAY")
	if cf == "" {
		t.Skip("no VC_REPLAY")
	}
	b, err := os.ReadFile(cf)
	if err != nil {
		t.Fatal(err)
	}
	var cfg replayCfg
	if err := json.Unmarshal(b, &cfg); err != nil {
		t.Fatal(err)
	}
	var out []replayRes
	for _, n := range cfg.Names {
		for _, c := range cases {
			if c.Name != n {
				continue
			}
			r := replayRes{Name: n}
			fmt.Fprintf(os.Stderr, "vcreplay: running %s\n", n)
			deadline := time.Now().Add(time.Duration(cfg.Seconds * float64(time.Second)))
			mk := func(seed int64) *Gen {
				return &Gen{R: rand.New(rand.NewSource(seed)), Strs: cfg.Strs, Ints: cfg.Ints}
			}
			for i := int64(0); ; i++ {
				seed := cfg.Seed + i*7919
				if cfg.Only != 0 {
					seed = cfg.Only
				} else if time.Now().After(deadline) {
					break
				}
				done := make(chan struct{})
				var fail, stack string
				var sk bool
				go func() { fail, sk, stack = runOne(c, mk(seed)); close(done) }()
				select {
				case <-done:
				case <-time.After(8 * time.Second):
					fail = "hang: the call did not return"
				}
				if sk {
					r.Skipped++
				} else {
					r.Accepted++
				}
				if fail != "" {
					r.Fail = fail
					r.Seed = seed
					r.Stack = stack
					if !strings.HasPrefix(fail, "hang") {
						// regenerate the input for the report
						cur = &runCtx{g: mk(seed), maps: map[uintptr]bool{}}
						func() {
							defer func() { recover() }()
							probing = true
							c.Run(cur.g)
						}()
						probing = false
					}
					r.Input = lastInput
					break
				}
				if cfg.Only != 0 {
					break
				}
			}
			out = append(out, r)
			fmt.Fprintf(os.Stderr, "vcreplay: finished %s\n", n)
		}
	}
	j, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(cfg.Out, j, 0o644); err != nil {
		t.Fatal(err)
	}
}

var probing bool
var lastInput string

// Start is called by the generated driver with the freshly generated arguments.
func Start(a ...any) {
	cur.args = a
	if probing {
		lastInput = describe(a)
		panic(skipT{})
	}
	snapshot()
}
