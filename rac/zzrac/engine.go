package zzrac

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"
)

type ClauseJS struct {
	Name string
	Text string
	expr ast.Expr
}

type ContractJS struct {
	Key      string
	Params   []string
	Requires []ClauseJS
	Ensures  []ClauseJS
	Modifies []string
	ModAll   bool
	Models   []map[string]float64
}

type Config struct {
	Contracts []*ContractJS
	Macros    map[string]*Macro
	Seed      int64
	Seconds   float64 // per function
	MaxCases  int
	Out       string
}

type Finding struct {
	Func   string
	Clause string
	Text   string
	Inputs string
	Detail string
	Case   int
	Seed   int64
}

type FuncReport struct {
	Func     string
	Cases    int // inputs satisfying the precondition
	Tried    int
	Checked  map[string]int // clause -> evaluations with a definite answer
	Findings []Finding
	Note     string
}

type Rand = rand.Rand

type Engine struct {
	Funcs   map[string]any
	Types   map[string]reflect.Type
	Consts  map[string]any
	Globals map[string]any
	Macros  map[string]*Macro
	// Gens: argument generators by function key ("F"), parameter ("F.p") or type name
	Reps   []*FuncReport
	flush  func()
	Tuples map[string]func(r *Rand) []any
	Gens   map[string]func(r *Rand) any
	// NewCase is called before the arguments of a case are generated
	NewCase func()
}

func RandFloat(r *rand.Rand) float64 {
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return -1
	case 3:
		return float64(r.Intn(9) - 4)
	case 4:
		return float64(r.Intn(9)-4) / 2
	case 5:
		return r.Float64()
	case 6:
		return r.NormFloat64() * 100
	case 7:
		return r.NormFloat64() * 0.1
	case 8:
		return []float64{math.Pi, math.Pi / 2, -math.Pi / 2, 0.25, 10, 100, 1e-3}[r.Intn(7)]
	}
	return r.NormFloat64() * 5
}

func (en *Engine) value(r *rand.Rand, t reflect.Type, key string) (reflect.Value, bool) {
	param := key
	if i := strings.LastIndexByte(key, '.'); i >= 0 {
		param = key[i+1:]
	}
	for _, k := range []string{key, param, t.String()} {
		if k == param && t.Kind() != reflect.Float64 {
			continue
		}
		if g, ok := en.Gens[k]; ok {
			n := reflect.New(t).Elem()
			v := guarded(func() any { return g(r) })
			if v != nil {
				n.Set(reflect.ValueOf(v))
			}
			return n, true
		}
	}
	n := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Float64:
		n.SetFloat(RandFloat(r))
	case reflect.Int, reflect.Int64, reflect.Int32:
		n.SetInt(int64(r.Intn(8)) - 1)
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uintptr:
		if r.Intn(4) == 0 {
			n.SetUint(uint64(r.Uint32()))
		} else {
			n.SetUint(uint64(r.Intn(8)))
		}
	case reflect.Bool:
		n.SetBool(r.Intn(2) == 0)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := launder(n.Field(i))
			v, ok := en.value(r, f.Type(), "")
			if !ok {
				return n, false
			}
			f.Set(v)
		}
	case reflect.Slice:
		k := r.Intn(6)
		n.Set(reflect.MakeSlice(t, k, k))
		for i := 0; i < k; i++ {
			v, ok := en.value(r, t.Elem(), "")
			if !ok {
				return n, false
			}
			n.Index(i).Set(v)
		}
	case reflect.Pointer:
		// pointers need a generator, except to plain numeric structs
		if t.Elem().Kind() != reflect.Struct && t.Elem().Kind() != reflect.Float64 {
			return n, false
		}
		v, ok := en.value(r, t.Elem(), "")
		if !ok {
			return n, false
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(v)
		n.Set(p)
	default:
		return n, false
	}
	return n, true
}

func (en *Engine) Run(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	var cfg Config
	if err := json.Unmarshal(b, &cfg); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	en.Macros = cfg.Macros
	flush := func() {
		o, _ := json.MarshalIndent(en.Reps, "", " ")
		os.WriteFile(cfg.Out, o, 0o644)
	}
	en.flush = flush
	en.startWatch()
	for _, c := range cfg.Contracts {
		rep := &FuncReport{Func: c.Key, Checked: map[string]int{}}
		en.Reps = append(en.Reps, rep)
		rep.Note = "started"
		flush()
		en.runFunc(&cfg, c, rep)
		if rep.Note == "started" {
			rep.Note = ""
		}
		flush()
	}
	flush()
}

func parse(cs []ClauseJS) {
	for i := range cs {
		x, err := parser.ParseExpr(cs[i].Text)
		if err == nil {
			cs[i].expr = x
		}
	}
}

func (en *Engine) runFunc(cfg *Config, c *ContractJS, rep *FuncReport) {
	f, ok := en.Funcs[c.Key]
	if !ok {
		rep.Note = "no such function"
		return
	}
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	if ft.NumIn() != len(c.Params) || ft.IsVariadic() {
		rep.Note = "signature"
		return
	}
	parse(c.Requires)
	parse(c.Ensures)
	rng := rand.New(rand.NewSource(cfg.Seed*7919 + int64(len(c.Key))))
	t0 := time.Now()
	found := map[string]bool{}
	for k := 0; k < cfg.MaxCases && time.Since(t0).Seconds() < cfg.Seconds; k++ {
		rep.Tried++
		en.watchAux(rep, "generating arguments")
		if en.NewCase != nil {
			en.NewCase()
		}
		args := make([]reflect.Value, ft.NumIn())
		if tg, ok := en.Tuples[c.Key]; ok {
			vs, _ := guarded(func() any { return tg(rng) }).([]any)
			if vs == nil {
				continue
			}
			for i := range args {
				args[i] = reflect.New(ft.In(i)).Elem()
				if i < len(vs) && vs[i] != nil {
					args[i].Set(reflect.ValueOf(vs[i]))
				}
			}
		} else {
			bad := false
			for i := range args {
				v, ok := en.value(rng, ft.In(i), c.Key+"."+c.Params[i])
				if !ok {
					rep.Note = "no generator for " + ft.In(i).String()
					bad = true
					break
				}
				args[i] = v
			}
			if bad {
				return
			}
			if k < len(c.Models) {
				for i := range args {
					setModel(args[i], "p."+c.Params[i], c.Models[k])
				}
			}
		}
		en.watchAux(rep, "evaluating the contract")
		en.one(cfg, c, rep, fv, args, rng, found, k)
		en.unwatch()
		if len(found) > 0 && (len(found) >= len(c.Ensures) || k > 200) {
			break
		}
	}
}

func setModel(v reflect.Value, name string, m map[string]float64) {
	switch v.Kind() {
	case reflect.Float64:
		if f, ok := m[name]; ok {
			v.SetFloat(f)
		}
	case reflect.Int:
		if f, ok := m[name]; ok {
			v.SetInt(int64(f))
		}
	case reflect.Bool:
		if f, ok := m[name]; ok {
			v.SetBool(f != 0)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			setModel(launder(v.Field(i)), name+v.Type().Field(i).Name, m)
		}
	}
}

func floatsOf(v reflect.Value, out *[]float64, depth int) {
	switch v.Kind() {
	case reflect.Float64:
		*out = append(*out, v.Float())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			floatsOf(v.Field(i), out, depth)
		}
	case reflect.Pointer:
		if depth > 0 && !v.IsNil() {
			floatsOf(v.Elem(), out, depth-1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len() && i < 8; i++ {
			floatsOf(v.Index(i), out, depth)
		}
	}
}

func (en *Engine) one(cfg *Config, c *ContractJS, rep *FuncReport, fv reflect.Value, args []reflect.Value, rng *rand.Rand, found map[string]bool, k int) {
	env := &Env{E: en, names: map[string]V{}, rng: rng}
	for _, a := range args {
		floatsOf(a, &env.pool, 1)
	}
	for i, p := range c.Params {
		env.names[p] = wrap(args[i])
	}
	snap := NewSnapshot()
	ok := func() (ok bool) {
		defer func() {
			if p := recover(); p != nil {
				if u, isU := p.(unknown); isU {
					rep.Note = "snapshot: " + u.why
					ok = false
					return
				}
				panic(p)
			}
		}()
		for _, a := range args {
			snap.Add(a)
		}
		return true
	}()
	if !ok {
		return
	}
	env.old = snap
	pre := *env
	pre.loose = true
	for _, r := range c.Requires {
		if r.expr == nil || pre.truthSafe(r.expr) <= 0 {
			return
		}
	}
	rep.Cases++
	desc := describe(c, args)
	type rng3 struct{ lo, hi uintptr }
	var ranges []rng3
	var types [][2]string
	frameOK := !c.ModAll
	for _, m := range c.Modifies {
		if !en.modRange(&pre, m, func(lo, hi uintptr) { ranges = append(ranges, rng3{lo, hi}) }, func(t, f string) { types = append(types, [2]string{t, f}) }) {
			frameOK = false
		}
	}
	report := func(name, text, detail string) {
		if found[name] {
			return
		}
		found[name] = true
		rep.Findings = append(rep.Findings, Finding{c.Key, name, text, desc, detail, k, cfg.Seed})
	}
	var outs []reflect.Value
	en.watch(cfg, c, rep, desc, k)
	panicked := func() (msg string) {
		defer func() {
			if p := recover(); p != nil {
				msg = fmt.Sprint("panic: ", p)
			}
		}()
		outs = fv.Call(args)
		return ""
	}()
	en.watchAux(rep, "evaluating the contract")
	if panicked != "" {
		report("panic", "the call returns", panicked)
		return
	}
	var outDesc []string
	for i, o := range outs {
		o = keep(o)
		env.names[fmt.Sprintf("result%d", i)] = wrap(o)
		if len(outs) == 1 {
			env.names["result"] = wrap(o)
		}
		outDesc = append(outDesc, show(o, 2))
		floatsOf(o, &env.pool, 1)
	}
	for _, e := range c.Ensures {
		if e.expr == nil {
			continue
		}
		env.mag = new(float64)
		left := 600
		env.left = &left
		t := env.truthSafe(e.expr)
		if t != 0 {
			rep.Checked[e.Name]++
		}
		if t < 0 {
			report(e.Name, e.Text, "result "+strings.Join(outDesc, ", "))
		}
	}
	if frameOK {
		d := snap.Changed(func(a uintptr, owner reflect.Type, path string) bool {
			for _, r := range ranges {
				if r.lo <= a && a < r.hi {
					return true
				}
			}
			for _, t := range types {
				if typeText(owner) == t[0] && (t[1] == "" || path == t[1] || strings.HasPrefix(path, t[1]+".")) {
					return true
				}
			}
			return false
		})
		rep.Checked["frame"]++
		if d != "" {
			report("frame", "nothing outside the modifies clause changes", d)
		}
	}
}

func (en *Engine) modRange(e *Env, text string, add func(lo, hi uintptr), addT func(t, f string)) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, isU := p.(unknown); isU {
				ok = false
				return
			}
			panic(p)
		}
	}()
	x, err := parser.ParseExpr(text)
	if err != nil {
		return false
	}
	if ce, isC := x.(*ast.CallExpr); isC {
		if id, isI := ce.Fun.(*ast.Ident); isI {
			switch id.Name {
			case "elems":
				v := e.Eval(ce.Args[0])
				if v.k == 'r' && v.r.Kind() == reflect.Slice {
					if v.r.Cap() > 0 {
						lo := v.r.Pointer()
						add(lo, lo+uintptr(v.r.Cap())*v.r.Type().Elem().Size())
					}
					return true
				}
				if v.k == 'r' && v.r.Kind() == reflect.Array && v.r.CanAddr() {
					lo := v.r.UnsafeAddr()
					add(lo, lo+v.r.Type().Size())
					return true
				}
				return false
			case "all", "allelems":
				if se, isS := ce.Args[0].(*ast.SelectorExpr); isS {
					addT(typeExpr(se.X), se.Sel.Name)
				} else {
					addT(typeExpr(ce.Args[0]), "")
				}
				return true
			case "ghostall":
				return true
			}
			return true // ghost location
		}
	}
	l := e.loc(x)
	add(l.UnsafeAddr(), l.UnsafeAddr()+l.Type().Size())
	return true
}

// typeText names a type without package qualifiers and type arguments; typeExpr does the same for an expression.
func typeText(t reflect.Type) string {
	switch t.Kind() {
	case reflect.Pointer:
		return "*" + typeText(t.Elem())
	case reflect.Slice:
		return "[]" + typeText(t.Elem())
	}
	n := t.Name()
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	return n
}

func typeExpr(x ast.Expr) string {
	switch x := x.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.StarExpr:
		return "*" + typeExpr(x.X)
	case *ast.ParenExpr:
		return typeExpr(x.X)
	case *ast.ArrayType:
		return "[]" + typeExpr(x.Elt)
	case *ast.IndexExpr:
		return typeExpr(x.X)
	case *ast.IndexListExpr:
		return typeExpr(x.X)
	case *ast.SelectorExpr:
		return x.Sel.Name
	}
	return "?"
}

func describe(c *ContractJS, args []reflect.Value) string {
	var out []string
	for i, p := range c.Params {
		out = append(out, p+" = "+show(args[i], 3))
	}
	return strings.Join(out, "; ")
}

func show(v reflect.Value, depth int) string {
	v = launder(v)
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		if depth == 0 {
			return "&" + v.Type().Elem().Name()
		}
		return "&" + show(v.Elem(), depth-1)
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return show(keep(v.Elem()), depth)
	case reflect.Struct:
		if opaque(v.Type()) {
			return "..."
		}
		v = addressable(v)
		var fs []string
		for i := 0; i < v.NumField(); i++ {
			fs = append(fs, v.Type().Field(i).Name+":"+show(v.Field(i), depth))
		}
		return v.Type().Name() + "{" + strings.Join(fs, " ") + "}"
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return "nil"
		}
		var fs []string
		for i := 0; i < v.Len() && i < 12; i++ {
			d := depth - 1
			if d < 0 {
				d = 0
			}
			fs = append(fs, show(v.Index(i), d))
		}
		return "[" + strings.Join(fs, " ") + "]"
	case reflect.Float64:
		return fmt.Sprintf("%v", v.Float())
	case reflect.Func:
		if v.IsNil() {
			return "nil"
		}
		return "func"
	}
	if v.CanInt() {
		return fmt.Sprint(v.Int())
	}
	if v.CanUint() {
		return fmt.Sprint(v.Uint())
	}
	if v.Kind() == reflect.Bool {
		return fmt.Sprint(v.Bool())
	}
	if v.Kind() == reflect.String {
		return v.String()
	}
	return v.Type().String()
}

// ---- watchdog: a call that does not come back

type watchItem struct {
	start time.Time
	fire  func()
}

var watchMu sync.Mutex
var watchCur *watchItem

func (en *Engine) startWatch() {
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			watchMu.Lock()
			w := watchCur
			var ms runtime.MemStats
			over := false
			if w != nil {
				runtime.ReadMemStats(&ms)
				over = time.Since(w.start) > 5*time.Second || ms.HeapAlloc > 3<<30
			}
			watchMu.Unlock()
			if over {
				w.fire()
				os.Exit(4)
			}
		}
	}()
}

func (en *Engine) watch(cfg *Config, c *ContractJS, rep *FuncReport, desc string, k int) {
	watchMu.Lock()
	watchCur = &watchItem{time.Now(), func() {
		rep.Findings = append(rep.Findings, Finding{c.Key, "termination", "the call returns", desc, "no return within 5 s (or memory exhausted)", k, cfg.Seed})
		en.flush()
	}}
	watchMu.Unlock()
}

// watchAux guards work that is not the call under test: overrunning it is no finding.
func (en *Engine) watchAux(rep *FuncReport, what string) {
	watchMu.Lock()
	watchCur = &watchItem{time.Now(), func() {
		rep.Note = "no answer while " + what
		en.flush()
	}}
	watchMu.Unlock()
}

func (en *Engine) unwatch() {
	watchMu.Lock()
	watchCur = nil
	watchMu.Unlock()
}

// guarded runs a generator; a panic of the code under test in it yields no value.
func guarded(f func() any) (v any) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	return f()
}
