// Package zzrac evaluates contract text on concrete values of the real program
// (runtime assertion checking, used to replay failed proof obligations).
// It is compiled into /repo's module through a build overlay; nothing of it is committed there.
package zzrac

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"unsafe"
)

// V is a value: exactly one representation is used.
type V struct {
	k byte // 'f' float, 'i' int, 'b' truth value, 'n' nil, 'r' reflect value, 's' string, 'a' address
	f float64
	i int64
	b int8 // -1 false, 0 unknown, 1 true
	r reflect.Value
	s string
	c bool // computed: carries rounding error
}

type unknown struct{ why string }

func unk(f string, a ...any) { panic(unknown{fmt.Sprintf(f, a...)}) }

func boolV(b bool) V {
	if b {
		return V{k: 'b', b: 1}
	}
	return V{k: 'b', b: -1}
}
func triV(b int8) V { return V{k: 'b', b: b} }

type Macro struct {
	Params []string
	PTypes []string
	RType  string
	Text   string
	expr   ast.Expr
}

type Env struct {
	E     *Engine
	names map[string]V
	old   *Snapshot // for old()
	inOld bool
	loose bool // requires mode: near equality counts as equality
	depth int
	rng   *rand.Rand
	pool  []float64
	mag   *float64 // largest magnitude computed in the clause
	qd    int      // nesting depth of sampled quantifiers
	left  *int     // samples left for the clause
}

func launder(v reflect.Value) reflect.Value {
	if !v.IsValid() {
		return v
	}
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func addressable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return v
	}
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

func wrap(v reflect.Value) V {
	v = launder(v)
	switch v.Kind() {
	case reflect.Float64, reflect.Float32:
		return V{k: 'f', f: v.Float()}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return V{k: 'i', i: v.Int()}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return V{k: 'i', i: int64(v.Uint())}
	case reflect.Bool:
		return boolV(v.Bool())
	case reflect.String:
		return V{k: 's', s: v.String()}
	}
	return V{k: 'r', r: v}
}

func (v V) num() float64 {
	switch v.k {
	case 'f':
		return v.f
	case 'i':
		return float64(v.i)
	}
	unk("not a number")
	return 0
}

func (v V) truth() int8 {
	if v.k != 'b' {
		unk("not a truth value")
	}
	return v.b
}

func (e *Env) bind(n string, v V) *Env {
	c := *e
	c.names = make(map[string]V, len(e.names)+1)
	for k, x := range e.names {
		c.names[k] = x
	}
	c.names[n] = v
	return &c
}

const relTol = 1e-6

func (e *Env) scale(x float64) {
	if e.mag != nil {
		if x = math.Abs(x); x > *e.mag && !math.IsInf(x, 0) {
			*e.mag = x
		}
	}
}

func (e *Env) near(a, b float64) bool {
	t := relTol * (1 + math.Abs(a) + math.Abs(b))
	if e.mag != nil {
		t += 1e-9 * *e.mag
	}
	return math.Abs(a-b) <= t
}

func (e *Env) eqNum(a, b float64) int8 {
	if a == b {
		return 1
	}
	if math.IsNaN(a) && math.IsNaN(b) {
		return 0
	}
	if math.IsNaN(a) || math.IsNaN(b) {
		return -1
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return -1
	}
	if e.near(a, b) {
		if e.loose {
			return 1
		}
		return 0
	}
	return -1
}

// leNum and ltNum: exact says that neither side carries rounding error of the specification's own arithmetic.
func (e *Env) leNum(a, b float64, exact bool) int8 {
	if math.IsNaN(a) || math.IsNaN(b) {
		return -1
	}
	if e.loose {
		if a <= b {
			return 1
		}
		return -1
	}
	if e.near(a, b) && !(a == b && exact) {
		return 0
	}
	if a <= b {
		return 1
	}
	return -1
}

func (e *Env) ltNum(a, b float64, exact bool) int8 {
	if math.IsNaN(a) || math.IsNaN(b) {
		return -1
	}
	if a == b && exact {
		return -1
	}
	if e.near(a, b) {
		return 0
	}
	if a < b {
		return 1
	}
	return -1
}

func and3(a, b int8) int8 {
	if a < b {
		return a
	}
	return b
}
func or3(a, b int8) int8 {
	if a > b {
		return a
	}
	return b
}

func ptrOf(v reflect.Value) uintptr {
	switch v.Kind() {
	case reflect.Pointer, reflect.Func, reflect.Map, reflect.Chan, reflect.UnsafePointer:
		return v.Pointer()
	case reflect.Slice:
		return v.Pointer()
	case reflect.Interface:
		if v.IsNil() {
			return 0
		}
		return ptrOf(v.Elem())
	}
	unk("no identity for %s", v.Type())
	return 0
}

func isNilV(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Pointer, reflect.Func, reflect.Map, reflect.Slice, reflect.Interface, reflect.Chan, reflect.UnsafePointer:
		return v.IsNil()
	}
	return false
}

func (e *Env) eq(a, b V) int8 {
	if a.k == 'n' || b.k == 'n' {
		if a.k == 'n' && b.k == 'n' {
			return 1
		}
		x := a
		if a.k == 'n' {
			x = b
		}
		if x.k != 'r' {
			unk("nil comparison")
		}
		return boolV(isNilV(x.r)).b
	}
	if a.k == 'b' && b.k == 'b' {
		if a.b == 0 || b.b == 0 {
			return 0
		}
		return boolV(a.b == b.b).b
	}
	if a.k == 'i' && b.k == 'i' {
		return boolV(a.i == b.i).b
	}
	if (a.k == 'f' || a.k == 'i') && (b.k == 'f' || b.k == 'i') {
		return e.eqNum(a.num(), b.num())
	}
	if a.k == 's' && b.k == 's' {
		return boolV(a.s == b.s).b
	}
	if a.k == 'r' && b.k == 'r' {
		return e.eqR(a.r, b.r)
	}
	unk("comparison")
	return 0
}

func (e *Env) eqR(a, b reflect.Value) int8 {
	if a.Kind() == reflect.Interface || b.Kind() == reflect.Interface {
		an := a.Kind() == reflect.Interface && a.IsNil()
		bn := b.Kind() == reflect.Interface && b.IsNil()
		if an || bn {
			return boolV(an == bn).b
		}
		if a.Kind() == reflect.Interface {
			a = launder(a.Elem())
		}
		if b.Kind() == reflect.Interface {
			b = launder(b.Elem())
		}
		if a.Type() != b.Type() {
			return -1
		}
	}
	switch a.Kind() {
	case reflect.Struct:
		if a.Type() != b.Type() {
			unk("struct types differ")
		}
		a, b = addressable(a), addressable(b)
		r := int8(1)
		for i := 0; i < a.NumField(); i++ {
			r = and3(r, e.eq(wrap(a.Field(i)), wrap(b.Field(i))))
		}
		return r
	case reflect.Array:
		a, b = addressable(a), addressable(b)
		r := int8(1)
		for i := 0; i < a.Len(); i++ {
			r = and3(r, e.eq(wrap(a.Index(i)), wrap(b.Index(i))))
		}
		return r
	case reflect.Slice:
		return boolV(a.Len() == b.Len() && (a.Len() == 0 || a.Pointer() == b.Pointer())).b
	case reflect.Func:
		if a.IsNil() || b.IsNil() {
			return boolV(a.IsNil() == b.IsNil()).b
		}
		if a.Pointer() != b.Pointer() {
			return -1
		}
		return 1
	}
	if a.Kind() != b.Kind() {
		return boolV(ptrOf(a) == ptrOf(b)).b
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.UnsafePointer, reflect.Map, reflect.Chan:
		return boolV(a.Pointer() == b.Pointer()).b
	}
	return e.eq(wrap(a), wrap(b))
}

func (e *Env) lookup(name string) (V, bool) {
	v, ok := e.names[name]
	if !ok {
		if p, ok2 := e.E.Consts[name]; ok2 {
			return wrap(reflect.ValueOf(p)), true
		}
		if p, ok2 := e.E.Globals[name]; ok2 {
			return wrap(reflect.ValueOf(p).Elem()), true
		}
		return V{}, false
	}
	if e.inOld && v.k == 'r' {
		v.r = e.old.toCopy(v.r)
	}
	return v, true
}

func (e *Env) typeOf(x ast.Expr) reflect.Type {
	switch x := x.(type) {
	case *ast.Ident:
		if t, ok := e.E.Types[x.Name]; ok {
			return t
		}
		switch x.Name {
		case "real", "float64":
			return reflect.TypeOf(float64(0))
		case "int":
			return reflect.TypeOf(int(0))
		case "bool":
			return reflect.TypeOf(false)
		case "uint":
			return reflect.TypeOf(uint(0))
		}
	case *ast.StarExpr:
		return reflect.PointerTo(e.typeOf(x.X))
	case *ast.ParenExpr:
		return e.typeOf(x.X)
	case *ast.ArrayType:
		return reflect.SliceOf(e.typeOf(x.Elt))
	}
	unk("type")
	return nil
}

func (e *Env) field(x V, name string) V {
	if x.k != 'r' {
		unk("field %s of a scalar", name)
	}
	v := x.r
	for v.Kind() == reflect.Interface {
		if v.IsNil() {
			unk("field of nil")
		}
		v = launder(v.Elem())
	}
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			unk("field %s of nil", name)
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		unk("field %s of %s", name, v.Type())
	}
	f, ok := v.Type().FieldByName(name)
	if !ok {
		unk("no field %s", name)
	}
	v = addressable(v)
	for _, ix := range f.Index {
		if v.Kind() == reflect.Pointer {
			if v.IsNil() {
				unk("nil embedded")
			}
			v = v.Elem()
		}
		if v.Kind() == reflect.Interface {
			unk("embedded interface")
		}
		v = launder(v.Field(ix))
	}
	return wrap(v)
}

// loc returns the addressable location denoted by an expression
func (e *Env) loc(x ast.Expr) reflect.Value {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.loc(x.X)
	case *ast.StarExpr:
		p := e.Eval(x.X)
		if p.k != 'r' || p.r.Kind() != reflect.Pointer || p.r.IsNil() {
			unk("loc")
		}
		return p.r.Elem()
	case *ast.SelectorExpr:
		var v reflect.Value
		base := func() reflect.Value {
			defer func() {
				recover()
			}()
			return e.loc(x.X)
		}()
		if base.IsValid() {
			v = base
		} else {
			b := e.Eval(x.X)
			if b.k != 'r' {
				unk("loc")
			}
			v = b.r
		}
		for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
			if v.IsNil() {
				unk("loc nil")
			}
			v = launder(v.Elem())
		}
		f, ok := v.Type().FieldByName(x.Sel.Name)
		if !ok {
			unk("no field %s", x.Sel.Name)
		}
		for _, ix := range f.Index {
			if v.Kind() == reflect.Pointer {
				if v.IsNil() {
					unk("nil")
				}
				v = v.Elem()
			}
			v = launder(v.Field(ix))
		}
		if !v.CanAddr() {
			unk("not addressable")
		}
		return v
	case *ast.IndexExpr:
		b := e.Eval(x.X)
		i := e.Eval(x.Index)
		if b.k == 'r' && b.r.Kind() == reflect.Slice {
			if i.i < 0 || i.i >= int64(b.r.Len()) {
				unk("index")
			}
			return launder(b.r.Index(int(i.i)))
		}
		v := e.loc(x.X)
		if v.Kind() == reflect.Array && i.i >= 0 && i.i < int64(v.Len()) {
			return launder(v.Index(int(i.i)))
		}
	}
	unk("not a location")
	return reflect.Value{}
}

func (e *Env) Truth(x ast.Expr) int8 { return e.Eval(x).truth() }

// truthSafe: unknown instead of a panic
func (e *Env) truthSafe(x ast.Expr) (r int8) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(unknown); ok {
				r = 0
				return
			}
			panic(p)
		}
	}()
	return e.Eval(x).truth()
}

func (e *Env) Eval(x ast.Expr) V {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.Eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			i, err := strconv.ParseInt(x.Value, 0, 64)
			if err != nil {
				f, _ := strconv.ParseFloat(x.Value, 64)
				return V{k: 'f', f: f}
			}
			return V{k: 'i', i: i}
		case token.FLOAT:
			f, _ := strconv.ParseFloat(x.Value, 64)
			return V{k: 'f', f: f}
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return V{k: 's', s: s}
		}
	case *ast.Ident:
		switch x.Name {
		case "true":
			return boolV(true)
		case "false":
			return boolV(false)
		case "nil":
			return V{k: 'n'}
		}
		if v, ok := e.lookup(x.Name); ok {
			return v
		}
		if m := e.E.Macros[x.Name]; m != nil && len(m.Params) == 0 {
			return e.macro(m, nil)
		}
		if x.Name == "PI" {
			return V{k: 'f', f: math.Pi}
		}
		if f, ok := e.E.Funcs[x.Name]; ok {
			return V{k: 'r', r: reflect.ValueOf(f)}
		}
		unk("unknown name %s", x.Name)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok && id.Name == "math" {
			switch x.Sel.Name {
			case "Pi":
				return V{k: 'f', f: math.Pi}
			case "MaxFloat64":
				return V{k: 'f', f: math.MaxFloat64}
			}
		}
		sv := e.Eval(x.X)
		fv := e.field(sv, x.Sel.Name)
		if sv.c && sv.k == 'r' && sv.r.Kind() == reflect.Struct {
			fv.c = true
		}
		return fv
	case *ast.StarExpr:
		v := e.Eval(x.X)
		if v.k != 'r' || v.r.Kind() != reflect.Pointer || v.r.IsNil() {
			unk("deref")
		}
		return wrap(v.r.Elem())
	case *ast.IndexExpr:
		v := e.Eval(x.X)
		i := e.Eval(x.Index)
		if v.k != 'r' || i.k != 'i' {
			unk("index")
		}
		r := v.r
		if r.Kind() == reflect.Pointer {
			if r.IsNil() {
				unk("index nil")
			}
			r = r.Elem()
		}
		if r.Kind() != reflect.Slice && r.Kind() != reflect.Array {
			unk("index of %s", r.Type())
		}
		if i.i < 0 || i.i >= int64(r.Len()) {
			unk("index out of range")
		}
		if r.Kind() == reflect.Array {
			r = addressable(r)
		}
		return wrap(r.Index(int(i.i)))
	case *ast.UnaryExpr:
		v := e.Eval(x.X)
		switch x.Op {
		case token.NOT:
			return triV(-v.truth())
		case token.SUB:
			switch v.k {
			case 'f':
				return V{k: 'f', f: -v.f, c: v.c}
			case 'i':
				return V{k: 'i', i: -v.i}
			}
			return e.structOp(v, V{k: 'f', f: -1}, token.MUL)
		case token.ADD:
			return v
		}
	case *ast.BinaryExpr:
		return e.binary(x)
	case *ast.TypeAssertExpr:
		v := e.Eval(x.X)
		t := e.typeOf(x.Type)
		if v.k != 'r' {
			unk("type assertion")
		}
		r := v.r
		if r.Kind() == reflect.Interface {
			if r.IsNil() {
				unk("type assertion on nil")
			}
			r = r.Elem()
		}
		if r.Type() != t {
			unk("type assertion fails")
		}
		n := reflect.New(r.Type()).Elem()
		n.Set(r)
		return wrap(n)
	case *ast.CallExpr:
		return e.call(x)
	case *ast.CompositeLit:
		t := e.typeOf(x.Type)
		n := reflect.New(t).Elem()
		for i, el := range x.Elts {
			f := launder(n.Field(i))
			setV(f, e.Eval(el))
		}
		return V{k: 'r', r: n, c: true}
	}
	unk("expression")
	return V{}
}

func setV(dst reflect.Value, v V) {
	switch dst.Kind() {
	case reflect.Float64, reflect.Float32:
		dst.SetFloat(v.num())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		dst.SetInt(v.i)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		dst.SetUint(uint64(v.i))
	case reflect.Bool:
		dst.SetBool(v.truth() > 0)
	default:
		if v.k == 'n' {
			dst.SetZero()
			return
		}
		if v.k != 'r' {
			unk("set")
		}
		dst.Set(v.r)
	}
}

func (e *Env) structOp(a, b V, op token.Token) V {
	if a.k != 'r' {
		unk("operand")
	}
	r := a.r
	if r.Kind() != reflect.Struct {
		unk("operand %s", r.Type())
	}
	r = addressable(r)
	n := reflect.New(r.Type()).Elem()
	for i := 0; i < r.NumField(); i++ {
		x := wrap(r.Field(i))
		if x.k != 'f' {
			unk("non-float field")
		}
		var y float64
		if b.k == 'r' {
			y = wrap(addressable(b.r).Field(i)).num()
		} else {
			y = b.num()
		}
		var z float64
		switch op {
		case token.ADD:
			z = x.f + y
		case token.SUB:
			z = x.f - y
		case token.MUL:
			z = x.f * y
		case token.QUO:
			z = x.f / y
		default:
			unk("struct operator")
		}
		e.scale(x.f)
		e.scale(y)
		e.scale(z)
		launder(n.Field(i)).SetFloat(z)
	}
	return V{k: 'r', r: n, c: true}
}

func (e *Env) binary(x *ast.BinaryExpr) V {
	switch x.Op {
	case token.LAND:
		l := e.truthSafe(x.X)
		if l < 0 {
			return triV(-1)
		}
		return triV(and3(l, e.truthSafe(x.Y)))
	case token.LOR:
		l := e.truthSafe(x.X)
		if l > 0 {
			return triV(1)
		}
		return triV(or3(l, e.truthSafe(x.Y)))
	}
	a, b := e.Eval(x.X), e.Eval(x.Y)
	switch x.Op {
	case token.EQL:
		return triV(e.eq(a, b))
	case token.NEQ:
		return triV(-e.eq(a, b))
	}
	if a.k == 'r' || b.k == 'r' {
		if a.k != 'r' {
			if x.Op != token.MUL {
				unk("operator")
			}
			return e.structOp(b, a, x.Op)
		}
		return e.structOp(a, b, x.Op)
	}
	if a.k == 'i' && b.k == 'i' {
		switch x.Op {
		case token.ADD:
			return V{k: 'i', i: a.i + b.i}
		case token.SUB:
			return V{k: 'i', i: a.i - b.i}
		case token.MUL:
			return V{k: 'i', i: a.i * b.i}
		case token.AND:
			return V{k: 'i', i: a.i & b.i}
		case token.OR:
			return V{k: 'i', i: a.i | b.i}
		case token.XOR:
			return V{k: 'i', i: a.i ^ b.i}
		case token.REM:
			if b.i == 0 {
				unk("rem 0")
			}
			return V{k: 'i', i: a.i % b.i}
		case token.SHL:
			return V{k: 'i', i: a.i << uint(b.i)}
		case token.SHR:
			return V{k: 'i', i: int64(uint64(a.i) >> uint(b.i))}
		case token.LSS:
			return boolV(a.i < b.i)
		case token.LEQ:
			return boolV(a.i <= b.i)
		case token.GTR:
			return boolV(a.i > b.i)
		case token.GEQ:
			return boolV(a.i >= b.i)
		}
	}
	p, q := a.num(), b.num()
	ex := !a.c && !b.c
	if x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL {
		e.scale(p)
		e.scale(q)
	}
	switch x.Op {
	case token.ADD:
		e.scale(p + q)
		return V{k: 'f', f: p + q, c: true}
	case token.SUB:
		return V{k: 'f', f: p - q, c: true}
	case token.MUL:
		e.scale(p * q)
		return V{k: 'f', f: p * q, c: true}
	case token.QUO:
		if q == 0 {
			unk("division by zero in the specification")
		}
		return V{k: 'f', f: p / q, c: true}
	case token.LSS:
		return triV(e.ltNum(p, q, ex))
	case token.LEQ:
		return triV(e.leNum(p, q, ex))
	case token.GTR:
		return triV(e.ltNum(q, p, ex))
	case token.GEQ:
		return triV(e.leNum(q, p, ex))
	}
	unk("operator")
	return V{}
}

func (e *Env) macro(m *Macro, args []V) V {
	if e.depth > 4000 {
		unk("recursion")
	}
	if m.expr == nil {
		x, err := parser.ParseExpr(m.Text)
		if err != nil {
			unk("parse")
		}
		m.expr = x
	}
	c := *e
	c.depth++
	c.names = map[string]V{}
	for i, p := range m.Params {
		a := args[i]
		if e.inOld && a.k == 'r' {
			// arguments already denote the old copy; keep them stable under toCopy
			a.r = e.old.toOrig(a.r)
		}
		if m.PTypes[i] == "float64" && a.k == 'i' {
			a = V{k: 'f', f: float64(a.i)}
		}
		c.names[p] = a
	}
	return c.Eval(m.expr)
}

func (e *Env) samples(t reflect.Type) []V {
	if t.Kind() == reflect.Float64 {
		var out []V
		for _, f := range []float64{0, 1, 0.5, -1, 2} {
			out = append(out, V{k: 'f', f: f})
		}
		for i := 0; i < 60; i++ {
			out = append(out, V{k: 'f', f: e.rng.Float64()})
		}
		for i := 0; i < 20; i++ {
			out = append(out, V{k: 'f', f: e.rng.NormFloat64() * 5})
		}
		for _, f := range e.pool {
			out = append(out, V{k: 'f', f: f})
		}
		return out
	}
	if t.Kind() == reflect.Struct {
		var out []V
		for i := 0; i < 150; i++ {
			n := reflect.New(t).Elem()
			for j := 0; j < t.NumField(); j++ {
				f := launder(n.Field(j))
				if f.Kind() != reflect.Float64 {
					return nil
				}
				if len(e.pool) > 0 && e.rng.Intn(2) == 0 {
					f.SetFloat(e.pool[e.rng.Intn(len(e.pool))])
				} else if len(e.pool) > 1 && e.rng.Intn(2) == 0 {
					a, b := e.pool[e.rng.Intn(len(e.pool))], e.pool[e.rng.Intn(len(e.pool))]
					t := e.rng.Float64()
					f.SetFloat(a + (b-a)*t)
				} else {
					f.SetFloat(e.rng.NormFloat64() * 5)
				}
			}
			out = append(out, V{k: 'r', r: n})
		}
		return out
	}
	if t.Kind() == reflect.Int {
		var out []V
		for i := -2; i < 12; i++ {
			out = append(out, V{k: 'i', i: int64(i)})
		}
		return out
	}
	if t.Kind() == reflect.Pointer {
		var out []V
		if e.old != nil {
			for _, o := range e.old.ofType(t.Elem()) {
				out = append(out, V{k: 'r', r: o})
			}
		}
		return out
	}
	return nil
}

func fnum(v float64) V { return V{k: 'f', f: v, c: true} }

func (e *Env) call(x *ast.CallExpr) V {
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		unk("call")
	}
	arg := func(i int) V { return e.Eval(x.Args[i]) }
	switch id.Name {
	case "imp":
		a := e.truthSafe(x.Args[0])
		if a < 0 {
			return triV(1)
		}
		return triV(or3(-a, e.truthSafe(x.Args[1])))
	case "ite":
		c := e.truthSafe(x.Args[0])
		if c == 0 {
			unk("condition")
		}
		if c > 0 {
			return arg(1)
		}
		return arg(2)
	case "old":
		if e.old == nil {
			unk("old")
		}
		if e.inOld {
			return arg(0)
		}
		c := *e
		c.inOld = true
		v := c.Eval(x.Args[0])
		if v.k == 'r' {
			v.r = e.old.toOrig(v.r)
		}
		return v
	case "forall", "exists":
		n := x.Args[0].(*ast.Ident).Name
		lo, hi := arg(1), arg(2)
		if lo.k != 'i' || hi.k != 'i' || hi.i-lo.i > 100000 {
			unk("range")
		}
		r := int8(1)
		if id.Name == "exists" {
			r = -1
		}
		for i := lo.i; i < hi.i; i++ {
			t := e.bind(n, V{k: 'i', i: i}).truthSafe(x.Args[3])
			if id.Name == "forall" {
				r = and3(r, t)
			} else {
				r = or3(r, t)
			}
		}
		return triV(r)
	case "forallT", "existsT":
		n := x.Args[0].(*ast.Ident).Name
		t := e.typeOf(x.Args[1])
		ss := e.samples(t)
		e.rng.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
		if m := []int{200, 24, 6, 3}[min(e.qd, 3)]; len(ss) > m {
			ss = ss[:m]
		}
		for _, s := range ss {
			if e.left != nil {
				if *e.left <= 0 {
					break
				}
				*e.left--
			}
			b := e.bind(n, s)
			b.qd++
			r := b.truthSafe(x.Args[2])
			if id.Name == "forallT" && r < 0 {
				return triV(-1)
			}
			if id.Name == "existsT" && r > 0 {
				return triV(1)
			}
		}
		if e.loose && id.Name == "forallT" {
			return triV(1)
		}
		return triV(0)
	case "let":
		return e.bind(x.Args[0].(*ast.Ident).Name, e.stable(arg(1))).Eval(x.Args[2])
	case "typeis":
		v := arg(0)
		t := e.typeOf(x.Args[1])
		if v.k != 'r' {
			unk("typeis")
		}
		r := v.r
		if r.Kind() == reflect.Interface {
			if r.IsNil() {
				return boolV(false)
			}
			r = r.Elem()
		}
		return boolV(r.Type() == t)
	case "fresh":
		v := arg(0)
		if v.k != 'r' || e.old == nil {
			unk("fresh")
		}
		if e.old.known(ptrOf(v.r)) {
			return boolV(false)
		}
		return boolV(true)
	case "allocated":
		v := arg(0)
		return boolV(v.k == 'r' && !isNilV(v.r))
	case "len":
		v := arg(0)
		if v.k != 'r' {
			unk("len")
		}
		return V{k: 'i', i: int64(v.r.Len())}
	case "cap":
		v := arg(0)
		if v.k != 'r' {
			unk("cap")
		}
		return V{k: 'i', i: int64(v.r.Cap())}
	case "arr":
		// the backing array of a slice, identified by the end of its storage
		v := arg(0)
		if v.k == 'n' {
			return V{k: 'i', i: 0}
		}
		if v.k != 'r' || v.r.Kind() != reflect.Slice {
			unk("arr")
		}
		if e.inOld {
			v.r = e.old.toOrig(v.r)
		}
		if v.r.Cap() == 0 {
			return V{k: 'i', i: 0}
		}
		return V{k: 'i', i: int64(v.r.Pointer() + uintptr(v.r.Cap())*v.r.Type().Elem().Size())}
	case "ref":
		v := arg(0)
		if v.k == 'n' {
			return V{k: 'i', i: 0}
		}
		if v.k != 'r' {
			unk("ref")
		}
		if e.inOld {
			v.r = e.old.toOrig(v.r)
		}
		return V{k: 'i', i: int64(ptrOf(v.r))}
	case "same":
		a, b := arg(0), arg(1)
		return triV(e.eq(a, b))
	case "addr":
		l := e.loc(x.Args[0])
		return V{k: 'r', r: l.Addr()}
	case "real":
		return fnum(arg(0).num())
	case "floor":
		return V{k: 'i', i: int64(math.Floor(arg(0).num()))}
	case "mod", "div":
		a, b := arg(0), arg(1)
		if b.i == 0 {
			unk("mod 0")
		}
		m := a.i % b.i
		if m < 0 {
			if b.i > 0 {
				m += b.i
			} else {
				m -= b.i
			}
		}
		if id.Name == "mod" {
			return V{k: 'i', i: m}
		}
		return V{k: 'i', i: (a.i - m) / b.i}
	case "rem":
		a, b := arg(0), arg(1)
		if b.i == 0 {
			unk("rem 0")
		}
		return V{k: 'i', i: a.i % b.i}
	case "min", "max":
		r := arg(0)
		for i := 1; i < len(x.Args); i++ {
			b := arg(i)
			if r.k == 'i' && b.k == 'i' {
				if (id.Name == "min") == (b.i < r.i) {
					r = b
				}
				continue
			}
			if id.Name == "min" {
				r = fnum(math.Min(r.num(), b.num()))
			} else {
				r = fnum(math.Max(r.num(), b.num()))
			}
		}
		return r
	case "abs":
		v := arg(0)
		if v.k == 'i' {
			if v.i < 0 {
				v.i = -v.i
			}
			return v
		}
		return fnum(math.Abs(v.num()))
	case "sqrt":
		return fnum(math.Sqrt(arg(0).num()))
	case "cos":
		return fnum(math.Cos(arg(0).num()))
	case "sin":
		return fnum(math.Sin(arg(0).num()))
	case "acos":
		return fnum(math.Acos(arg(0).num()))
	case "exp":
		return fnum(math.Exp(arg(0).num()))
	case "atan2":
		return fnum(math.Atan2(arg(0).num(), arg(1).num()))
	case "pow":
		return fnum(math.Pow(arg(0).num(), arg(1).num()))
	case "fmod":
		return fnum(math.Mod(arg(0).num(), arg(1).num()))
	case "callfn":
		f := arg(1)
		if f.k != 'r' || f.r.Kind() != reflect.Func || f.r.IsNil() {
			unk("callfn")
		}
		var in []reflect.Value
		for i := 2; i < len(x.Args); i++ {
			in = append(in, e.toArg(arg(i), f.r.Type().In(i-2)))
		}
		return wrap(keep(f.r.Call(in)[0]))
	case "code":
		f, ok := e.E.Funcs[exprName(x.Args[0])]
		if !ok {
			unk("code")
		}
		fv := reflect.ValueOf(f)
		var in []reflect.Value
		for i := 1; i < len(x.Args); i++ {
			in = append(in, e.toArg(arg(i), fv.Type().In(i-1)))
		}
		return wrap(keep(fv.Call(in)[0]))
	}
	if m := e.E.Macros[id.Name]; m != nil {
		var args []V
		for i := range x.Args {
			args = append(args, arg(i))
		}
		return e.macro(m, args)
	}
	if _, ok := e.E.Types[id.Name]; ok || id.Name == "int" || id.Name == "float64" || id.Name == "uint" {
		t := e.typeOf(id)
		v := arg(0)
		switch t.Kind() {
		case reflect.Float64:
			return fnum(v.num())
		case reflect.Interface:
			return v
		}
		if v.k == 'i' {
			return v
		}
		return v
	}
	unk("unknown function %s", id.Name)
	return V{}
}

// stable re-bases a value evaluated under old() so that a later name lookup maps it again
func (e *Env) stable(v V) V {
	if e.inOld && v.k == 'r' {
		v.r = e.old.toOrig(v.r)
	}
	return v
}

func keep(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

func exprName(x ast.Expr) string {
	switch x := x.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return exprName(x.X) + "." + x.Sel.Name
	}
	return "?"
}

func (e *Env) toArg(v V, t reflect.Type) reflect.Value {
	n := reflect.New(t).Elem()
	if t.Kind() == reflect.Interface && v.k == 'r' {
		n.Set(v.r)
		return n
	}
	setV(n, v)
	return n
}
