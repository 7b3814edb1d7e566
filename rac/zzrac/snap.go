package zzrac

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"unsafe"
)

type obj struct {
	addr uintptr
	size uintptr
	typ  reflect.Type
	copy reflect.Value // pointer to the copy
	ca   uintptr
	keep unsafe.Pointer // keeps the original alive
}

// Snapshot is a deep copy of everything reachable from the arguments.
type Snapshot struct {
	objs  []*obj
	by    map[uintptr][]*obj
	pages map[uintptr][]*obj // originals by page
	cpage map[uintptr][]*obj // copies by page
}

func NewSnapshot() *Snapshot {
	return &Snapshot{by: map[uintptr][]*obj{}, pages: map[uintptr][]*obj{}, cpage: map[uintptr][]*obj{}}
}

const pageBits = 9

var refsMemo = map[reflect.Type]bool{}

// hasRefs reports whether values of type t hold references.
func hasRefs(t reflect.Type) bool {
	if r, ok := refsMemo[t]; ok {
		return r
	}
	r := false
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Interface:
		r = true
	case reflect.Array:
		r = hasRefs(t.Elem())
	case reflect.Struct:
		if !opaque(t) {
			for i := 0; i < t.NumField(); i++ {
				r = r || hasRefs(t.Field(i).Type)
			}
		}
	}
	refsMemo[t] = r
	return r
}

func opaque(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "sync" || p == "sync/atomic" || strings.HasPrefix(p, "internal/") || p == "math/rand" || p == "testing"
}

func (s *Snapshot) find(addr uintptr, t reflect.Type) *obj {
	for _, o := range s.by[addr] {
		if o.typ == t {
			return o
		}
	}
	return nil
}

func (s *Snapshot) rangeOf(addr uintptr, size uintptr) *obj {
	for _, o := range s.by[addr] {
		if o.size >= size && size > 0 {
			return o
		}
	}
	for _, o := range s.pages[addr>>pageBits] {
		if o.addr <= addr && addr+size <= o.addr+o.size && o.size > 0 {
			return o
		}
	}
	return nil
}

func (s *Snapshot) add(o *obj) {
	s.objs = append(s.objs, o)
	s.by[o.addr] = append(s.by[o.addr], o)
	if o.size > 0 {
		for p := o.addr >> pageBits; p <= (o.addr+o.size-1)>>pageBits; p++ {
			s.pages[p] = append(s.pages[p], o)
		}
		for p := o.ca >> pageBits; p <= (o.ca+o.size-1)>>pageBits; p++ {
			s.cpage[p] = append(s.cpage[p], o)
		}
	}
}

// Add deep-copies the object graph below v and returns v in terms of the copies.
func (s *Snapshot) Add(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	s.fix(n)
	return n
}

// fix rewrites references inside the (addressable) value v to the copies, creating them on demand.
func (s *Snapshot) fix(v reflect.Value) {
	if !hasRefs(v.Type()) {
		return
	}
	v = launder(v)
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || opaque(v.Type().Elem()) {
			return
		}
		v.Set(s.ptr(v))
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		v.Set(s.slice(v))
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		switch e.Kind() {
		case reflect.Pointer:
			if e.IsNil() || opaque(e.Type().Elem()) {
				return
			}
			v.Set(s.ptr(e))
		case reflect.Struct, reflect.Slice:
			n := reflect.New(e.Type()).Elem()
			n.Set(e)
			s.fix(n)
			v.Set(n)
		}
	case reflect.Struct:
		if opaque(v.Type()) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			s.fix(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.fix(v.Index(i))
		}
	}
}

func (s *Snapshot) ptr(p reflect.Value) reflect.Value {
	t := p.Type().Elem()
	a := p.Pointer()
	if o := s.find(a, t); o != nil {
		return o.copy
	}
	if o := s.rangeOf(a, t.Size()); o != nil {
		return reflect.NewAt(t, unsafe.Add(o.copy.UnsafePointer(), a-o.addr))
	}
	n := reflect.New(t)
	if len(s.objs) > 20000 {
		unk("object graph too large")
	}
	s.add(&obj{addr: a, size: t.Size(), typ: t, copy: n, ca: n.Pointer(), keep: p.UnsafePointer()})
	n.Elem().Set(p.Elem())
	s.fix(n.Elem())
	return n
}

func (s *Snapshot) slice(v reflect.Value) reflect.Value {
	et := v.Type().Elem()
	a := v.Pointer()
	full := v.Slice(0, v.Len())
	at := reflect.ArrayOf(v.Len(), et)
	mk := func(base unsafe.Pointer) reflect.Value {
		arr := reflect.NewAt(at, base).Elem()
		return arr.Slice(0, v.Len()).Convert(v.Type())
	}
	if v.Len() == 0 {
		return v
	}
	if o := s.rangeOf(a, at.Size()); o != nil {
		return mk(unsafe.Add(o.copy.UnsafePointer(), a-o.addr))
	}
	n := reflect.New(at)
	s.add(&obj{addr: a, size: at.Size(), typ: at, copy: n, ca: n.Pointer(), keep: v.UnsafePointer()})
	reflect.Copy(n.Elem(), full)
	s.fix(n.Elem())
	return n.Elem().Slice(0, v.Len()).Convert(v.Type())
}

// translate maps references of a value with f; values without references are returned as they are.
func translate(v reflect.Value, f func(reflect.Value) reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		return f(v)
	case reflect.Slice:
		if v.IsNil() || v.Len() == 0 {
			return v
		}
		return f(v)
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		e := v.Elem()
		if e.Kind() == reflect.Pointer && !e.IsNil() {
			n := reflect.New(v.Type()).Elem()
			n.Set(f(e))
			return n
		}
	case reflect.Struct:
		has := false
		for i := 0; i < v.NumField(); i++ {
			switch v.Type().Field(i).Type.Kind() {
			case reflect.Pointer, reflect.Slice, reflect.Interface, reflect.Struct:
				has = true
			}
		}
		if !has || opaque(v.Type()) {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < n.NumField(); i++ {
			fl := launder(n.Field(i))
			fl.Set(translate(fl, f))
		}
		return n
	}
	return v
}

func (s *Snapshot) toCopy(v reflect.Value) reflect.Value {
	return translate(v, func(p reflect.Value) reflect.Value {
		if p.Kind() == reflect.Slice {
			at := reflect.ArrayOf(p.Len(), p.Type().Elem())
			if o := s.rangeOf(p.Pointer(), at.Size()); o != nil {
				return reflect.NewAt(at, unsafe.Add(o.copy.UnsafePointer(), p.Pointer()-o.addr)).Elem().Slice(0, p.Len()).Convert(p.Type())
			}
			return p
		}
		t := p.Type().Elem()
		if o := s.find(p.Pointer(), t); o != nil {
			return o.copy
		}
		if o := s.rangeOf(p.Pointer(), t.Size()); o != nil {
			return reflect.NewAt(t, unsafe.Add(o.copy.UnsafePointer(), p.Pointer()-o.addr)).Convert(p.Type())
		}
		return p
	})
}

func (s *Snapshot) toOrig(v reflect.Value) reflect.Value {
	return translate(v, func(p reflect.Value) reflect.Value {
		var size uintptr
		a := p.Pointer()
		if p.Kind() == reflect.Slice {
			size = uintptr(p.Len()) * p.Type().Elem().Size()
		} else {
			size = p.Type().Elem().Size()
		}
		for _, o := range s.cpage[a>>pageBits] {
			if o.ca <= a && a+size <= o.ca+o.size && o.size > 0 {
				oa := o.addr + (a - o.ca)
				if p.Kind() == reflect.Slice {
					at := reflect.ArrayOf(p.Len(), p.Type().Elem())
					return reflect.NewAt(at, unsafe.Pointer(oa)).Elem().Slice(0, p.Len()).Convert(p.Type())
				}
				return reflect.NewAt(p.Type().Elem(), unsafe.Pointer(oa)).Convert(p.Type())
			}
		}
		return p
	})
}

func (s *Snapshot) known(a uintptr) bool {
	for _, o := range s.pages[a>>pageBits] {
		if o.addr <= a && a < o.addr+o.size {
			return true
		}
	}
	return false
}

func (s *Snapshot) ofType(t reflect.Type) []reflect.Value {
	var out []reflect.Value
	for _, o := range s.objs {
		if o.typ == t {
			out = append(out, reflect.NewAt(t, unsafe.Pointer(o.addr)))
		}
	}
	return out
}

// Changed lists the locations whose contents differ from the snapshot and which allowed does not cover.
func (s *Snapshot) Changed(allowed func(addr uintptr, owner reflect.Type, path string) bool) string {
	for _, o := range s.objs {
		if bytesEqual(unsafe.Pointer(o.addr), o.copy.UnsafePointer(), o.size) {
			continue
		}
		cur := reflect.NewAt(o.typ, unsafe.Pointer(o.addr)).Elem()
		if d := s.diff(cur, o.copy.Elem(), o.typ, "", allowed); d != "" {
			return fmt.Sprintf("%s%s", o.typ, d)
		}
	}
	return ""
}

func (s *Snapshot) diff(cur, cp reflect.Value, owner reflect.Type, path string, allowed func(uintptr, reflect.Type, string) bool) string {
	cur, cp = launder(cur), launder(cp)
	switch cur.Kind() {
	case reflect.Struct:
		if opaque(cur.Type()) {
			return ""
		}
		ct := cur.Type()
		for i := 0; i < cur.NumField(); i++ {
			cf, pf := cur.Field(i), cp.Field(i)
			if sz := cf.Type().Size(); !hasRefs(cf.Type()) && bytesEqual(unsafe.Pointer(cf.UnsafeAddr()), unsafe.Pointer(pf.UnsafeAddr()), sz) {
				continue
			}
			if cf.Kind() == reflect.Pointer && s.samePtr(cf, pf) {
				continue
			}
			p := ct.Field(i).Name
			if path != "" {
				p = path + "." + p
			}
			if d := s.diff(cur.Field(i), cp.Field(i), owner, p, allowed); d != "" {
				return d
			}
		}
		return ""
	case reflect.Array:
		for i := 0; i < cur.Len(); i++ {
			own, p := owner, path
			if path == "" {
				own = cur.Type().Elem()
			}
			if d := s.diff(cur.Index(i), cp.Index(i), own, p, allowed); d != "" {
				return fmt.Sprintf("[%d]%s", i, d)
			}
		}
		return ""
	}
	same := true
	switch cur.Kind() {
	case reflect.Float64, reflect.Float32:
		a, b := cur.Float(), cp.Float()
		same = a == b || math.IsNaN(a) && math.IsNaN(b) || near(a, b)
	case reflect.Pointer, reflect.Interface:
		if cur.IsNil() || cp.IsNil() {
			same = cur.IsNil() == cp.IsNil()
		} else {
			x := s.toOrig(cp)
			defer func() { recover() }()
			same = ptrOf(x) == ptrOf(cur)
		}
	case reflect.Slice:
		x := s.toOrig(cp)
		same = x.Len() == cur.Len() && (x.Len() == 0 || x.Pointer() == cur.Pointer())
	case reflect.Func, reflect.Map, reflect.Chan, reflect.UnsafePointer:
		same = true
	case reflect.String:
		same = cur.String() == cp.String()
	case reflect.Bool:
		same = cur.Bool() == cp.Bool()
	default:
		if cur.CanInt() {
			same = cur.Int() == cp.Int()
		} else if cur.CanUint() {
			same = cur.Uint() == cp.Uint()
		}
	}
	if same || allowed(cur.UnsafeAddr(), owner, path) {
		return ""
	}
	return fmt.Sprintf(".%s: %v -> %v", path, cp, cur)
}

func near(a, b float64) bool {
	return math.Abs(a-b) <= relTol*(1+math.Abs(a)+math.Abs(b))
}

func bytesEqual(a, b unsafe.Pointer, n uintptr) bool {
	return n == 0 || string(unsafe.Slice((*byte)(a), n)) == string(unsafe.Slice((*byte)(b), n))
}

// samePtr is a quick sufficient test for a pointer being the image of its copy.
func (s *Snapshot) samePtr(cur, cp reflect.Value) bool {
	a, b := cur.Pointer(), cp.Pointer()
	if a == 0 || b == 0 {
		return a == b
	}
	if a == b {
		return true
	}
	for _, o := range s.cpage[b>>pageBits] {
		if o.ca <= b && b < o.ca+o.size && o.addr+(b-o.ca) == a {
			return true
		}
	}
	return false
}
