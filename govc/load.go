package main

// Loading /repo's current source and computing value layouts.

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Prog struct {
	dir   string
	fset  *token.FileSet
	files []*ast.File
	pkg   *types.Package
	info  *types.Info
	funcs map[string]*ast.FuncDecl // "Type.Method" or "Func"
	fobj  map[*types.Func]*ast.FuncDecl
	// interior pointer kinds by element type name: set of kinds
	ptrKinds map[string][]string // "elem" or "field:S.path"
	multi    map[string]bool
	boxed    map[types.Object]bool // address-taken locals
	outArr   map[string]bool       // "S.field" outlined arrays
	impls    map[string][]*types.Named
	typeTag  map[string]int64
	tagType  []types.Type
	modVer   string
}

func Load(dir string) (*Prog, error) {
	p := &Prog{dir: dir, fset: token.NewFileSet(), funcs: map[string]*ast.FuncDecl{}, fobj: map[*types.Func]*ast.FuncDecl{},
		ptrKinds: map[string][]string{}, multi: map[string]bool{}, boxed: map[types.Object]bool{}, outArr: map[string]bool{},
		impls: map[string][]*types.Named{}, typeTag: map[string]int64{}}
	ents, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, err
	}
	sort.Strings(ents)
	ctx := build.Default
	for _, e := range ents {
		if strings.HasSuffix(e, "_test.go") {
			continue
		}
		if ok, _ := ctx.MatchFile(dir, filepath.Base(e)); !ok {
			continue
		}
		f, err := parser.ParseFile(p.fset, e, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		desugarGoto(f)
		p.files = append(p.files, f)
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{}}
	conf := types.Config{Importer: importer.ForCompiler(p.fset, "source", nil), Error: func(error) {}}
	p.pkg, err = conf.Check("cp", p.fset, p.files, p.info)
	if err != nil {
		return nil, err
	}
	for _, f := range p.files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			o, _ := p.info.Defs[fd.Name].(*types.Func)
			if o == nil {
				continue
			}
			p.fobj[o] = fd
			p.funcs[funcKey(o)] = fd
		}
	}
	p.scan()
	return p, nil
}

// funcKey names a function: "F" or "T.M".
func funcKey(o *types.Func) string {
	o = o.Origin()
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		return typeName(deref(r.Type())) + "." + o.Name()
	}
	return o.Name()
}

func deref(t types.Type) types.Type {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// typeName is the origin name of a type, independent of type arguments.
func typeName(t types.Type) string {
	t = types.Unalias(t)
	switch t := t.(type) {
	case *types.Named:
		return t.Obj().Name()
	case *types.Basic:
		return t.Name()
	case *types.Pointer:
		return "*" + typeName(t.Elem())
	case *types.Slice:
		return "[]" + typeName(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), typeName(t.Elem()))
	case *types.TypeParam:
		return "T"
	case *types.Interface:
		return "interface"
	case *types.Struct:
		var sb strings.Builder
		sb.WriteString("struct{")
		for i := 0; i < t.NumFields(); i++ {
			sb.WriteString(t.Field(i).Name() + ";")
		}
		return sb.String() + "}"
	case *types.Signature:
		return "func"
	}
	return t.String()
}

// ---- scan: address-taken locals and interior pointers

func (p *Prog) scan() {
	for _, f := range p.files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					p.noteAddr(n.X)
				}
			case *ast.CallExpr:
				if se, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr); ok {
					if sel := p.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
						fn := sel.Obj().(*types.Func)
						if fn.Pkg() != p.pkg {
							return true
						}
						sig := fn.Type().(*types.Signature)
						if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
							if _, isPtr := types.Unalias(p.info.TypeOf(se.X)).Underlying().(*types.Pointer); !isPtr && len(sel.Index()) == 1 {
								p.noteAddr(se.X)
							}
						}
					}
				}
			case *ast.SliceExpr:
				// slicing an array field
				if _, ok := p.info.TypeOf(n.X).Underlying().(*types.Array); ok {
					p.noteAddr(n.X)
				}
			}
			return true
		})
	}
	// closed-world implementations
	for _, name := range p.pkg.Scope().Names() {
		tn, ok := p.pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if it, ok := named.Underlying().(*types.Interface); ok {
			for _, n2 := range p.pkg.Scope().Names() {
				tn2, ok := p.pkg.Scope().Lookup(n2).(*types.TypeName)
				if !ok {
					continue
				}
				nd, ok := tn2.Type().(*types.Named)
				if !ok || nd.TypeParams().Len() > 0 {
					continue
				}
				if _, isI := nd.Underlying().(*types.Interface); isI {
					continue
				}
				if types.Implements(types.NewPointer(nd), it) && it.NumMethods() > 0 {
					// a struct that only implements it by embedding the interface holder still counts
					p.impls[name] = append(p.impls[name], nd)
				}
			}
		}
	}
}

func (p *Prog) noteAddr(e ast.Expr) {
	e = ast.Unparen(e)
	switch e := e.(type) {
	case *ast.CompositeLit:
		return
	case *ast.Ident:
		if v, ok := p.info.Uses[e].(*types.Var); ok && v.Parent() != p.pkg.Scope() {
			p.boxed[v] = true
		}
		return
	case *ast.IndexExpr:
		t := p.info.TypeOf(e.X)
		if _, ok := t.Underlying().(*types.Slice); ok {
			p.addKind(typeName(p.info.TypeOf(e)), "elem")
			return
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			_ = a
			p.addKind(typeName(p.info.TypeOf(e)), "elem")
			p.noteAddr(e.X)
			return
		}
	case *ast.SelectorExpr:
		// field path
		sel := p.info.Selections[e]
		if sel == nil {
			return
		}
		root, path := p.fieldRoot(e)
		if root == nil {
			return
		}
		if arr, ok := p.info.TypeOf(e).Underlying().(*types.Array); ok {
			_ = arr
			p.outArr[typeName(root)+"."+path] = true
			return
		}
		if typeName(p.info.TypeOf(e)) == "Pool" {
			return
		}
		if p.localRoot(e) != nil {
			p.boxed[p.localRoot(e)] = true
		}
		p.addKind(typeName(p.info.TypeOf(e)), "field:"+typeName(root)+"."+path)
	}
}

// localRoot: variable when e is x.f.g on a local struct value
func (p *Prog) localRoot(e ast.Expr) types.Object {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		if v, ok := p.info.Uses[e].(*types.Var); ok && v.Parent() != p.pkg.Scope() {
			if _, isPtr := v.Type().Underlying().(*types.Pointer); !isPtr {
				return v
			}
		}
	case *ast.SelectorExpr:
		if _, isPtr := p.info.TypeOf(e.X).Underlying().(*types.Pointer); !isPtr {
			return p.localRoot(e.X)
		}
	}
	return nil
}

func (p *Prog) fieldRoot(e *ast.SelectorExpr) (types.Type, string) {
	sel := p.info.Selections[e]
	if sel == nil || sel.Kind() != types.FieldVal {
		return nil, ""
	}
	t := p.info.TypeOf(e.X)
	path := ""
	var root types.Type
	if x, ok := ast.Unparen(e.X).(*ast.SelectorExpr); ok {
		if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
			root, path = p.fieldRoot(x)
			if root != nil {
				path += "."
			}
		}
	}
	if root == nil {
		root = deref(t)
	}
	cur := t
	for i, ix := range sel.Index() {
		if _, isPtr := cur.Underlying().(*types.Pointer); isPtr {
			root = deref(cur)
			path = ""
		}
		st := deref(cur).Underlying().(*types.Struct)
		f := st.Field(ix)
		path += f.Name()
		if i < len(sel.Index())-1 {
			path += "."
		}
		cur = f.Type()
	}
	return root, path
}

func (p *Prog) addKind(tn, kind string) {
	for _, k := range p.ptrKinds[tn] {
		if k == kind {
			return
		}
	}
	p.ptrKinds[tn] = append(p.ptrKinds[tn], kind)
	sort.Strings(p.ptrKinds[tn])
	p.multi[tn] = true
}

// ---- layouts

type Leaf struct {
	path string
	sort Sort
	typ  types.Type
	ref  bool // reference (heap identity) leaf
	uns  int  // bits when unsigned
	role string
}

var layoutMemo = map[types.Type][]Leaf{}

func (p *Prog) layout(t types.Type) []Leaf {
	t = types.Unalias(t)
	if l, ok := layoutMemo[t]; ok {
		return l
	}
	l := p.layout0(t)
	layoutMemo[t] = l
	return l
}

func (p *Prog) layout0(t types.Type) []Leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, t, false, 0, ""}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", SReal, t, false, 0, ""}}
		case u.Info()&types.IsInteger != 0:
			bits := 0
			switch u.Kind() {
			case types.Uint, types.Uint64, types.Uintptr:
				bits = 64
			case types.Uint32:
				bits = 32
			case types.Uint16:
				bits = 16
			case types.Uint8:
				bits = 8
			}
			return []Leaf{{"", SInt, t, false, bits, ""}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{"", SInt, t, true, 0, ""}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", SInt, t, false, 0, ""}}
		}
		return []Leaf{{"", SInt, t, false, 0, ""}}
	case *types.Pointer:
		if p.multi[typeName(u.Elem())] {
			return []Leaf{{"#tag", SInt, t, false, 0, "tag"}, {"#base", SInt, t, true, 0, "base"}, {"#idx", SInt, t, false, 0, "idx"}}
		}
		return []Leaf{{"", SInt, t, true, 0, ""}}
	case *types.Slice:
		return []Leaf{{"#arr", SInt, t, true, 0, "arr"}, {"#off", SInt, t, false, 0, "off"}, {"#len", SInt, t, false, 0, "len"}, {"#cap", SInt, t, false, 0, "cap"}}
	case *types.Interface:
		if _, ok := t.(*types.TypeParam); ok {
			return []Leaf{{"", SInt, t, false, 0, "opaque"}}
		}
		return []Leaf{{"#type", SInt, t, false, 0, "type"}, {"#ref", SInt, t, true, 0, "ref"}}
	case *types.Signature:
		return []Leaf{{"", SInt, t, false, 0, "func"}}
	case *types.Struct:
		var out []Leaf
		if typeName(t) == "Pool" || typeName(t) == "Mutex" {
			return nil
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if p.isOutlined(t, f) {
				continue
			}
			for _, l := range p.layout(f.Type()) {
				l2 := l
				l2.path = joinPath(f.Name(), l.path)
				out = append(out, l2)
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		if u.Len() > 32 {
			return nil
		}
		el := p.layout(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range el {
				l2 := l
				l2.path = joinPath(fmt.Sprintf("[%d]", i), l.path)
				out = append(out, l2)
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, p.layout(u.At(i).Type())...)
		}
		return out
	}
	panic(unsupported("layout of " + t.String()))
}

func (p *Prog) isOutlined(s types.Type, f *types.Var) bool {
	if a, ok := f.Type().Underlying().(*types.Array); ok {
		return a.Len() > 32 || p.outArr[typeName(s)+"."+f.Name()]
	}
	return false
}

func joinPath(a, b string) string {
	if b == "" {
		return a
	}
	if a == "" {
		return b
	}
	if strings.HasPrefix(b, "[") || strings.HasPrefix(b, "#") {
		return a + b
	}
	return a + "." + b
}

type unsupp struct{ msg string }

func unsupported(msg string) unsupp { return unsupp{msg} }
func (u unsupp) Error() string      { return "unsupported: " + u.msg }

// tagOf gives the dynamic type tag constant used in interface values.
func (p *Prog) tagOf(t types.Type) *Term {
	k := types.TypeString(types.Unalias(t), func(*types.Package) string { return "" })
	if v, ok := p.typeTag[k]; ok {
		return IntC(v)
	}
	p.tagType = append(p.tagType, t)
	// stable across runs: tags of pointer-to-named types get their scope position
	v := int64(len(p.tagType))
	p.typeTag[k] = v
	return IntC(v)
}

func fatal(args ...any) {
	fmt.Fprintln(os.Stderr, args...)
	os.Exit(2)
}

// isEmbedded reports whether field f of type t is embedded.
func (p *Prog) isEmbedded(t, f string) bool {
	o := p.pkg.Scope().Lookup(t)
	if o == nil {
		return true
	}
	s, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return true
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return s.Field(i).Embedded()
		}
	}
	return true
}

// desugarGoto rewrites "L: S", where S jumps back with "goto L", into "L: for { S; break }" with "continue L".
func desugarGoto(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		l, ok := n.(*ast.LabeledStmt)
		if !ok {
			return true
		}
		back, other := false, false
		ast.Inspect(l.Stmt, func(m ast.Node) bool {
			if b, ok := m.(*ast.BranchStmt); ok && b.Label != nil && b.Label.Name == l.Label.Name {
				if b.Tok == token.GOTO {
					back = true
				} else {
					other = true
				}
			}
			return true
		})
		if !back || other {
			return true
		}
		ast.Inspect(l.Stmt, func(m ast.Node) bool {
			if b, ok := m.(*ast.BranchStmt); ok && b.Tok == token.GOTO && b.Label.Name == l.Label.Name {
				b.Tok = token.CONTINUE
			}
			return true
		})
		p := l.Stmt.Pos()
		l.Stmt = &ast.ForStmt{For: p, Body: &ast.BlockStmt{Lbrace: p, List: []ast.Stmt{l.Stmt, &ast.BranchStmt{TokPos: l.Stmt.End(), Tok: token.BREAK}}, Rbrace: l.Stmt.End()}}
		return true
	})
}
