package main

// Contract files: parsing.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type Clause struct {
	Kind  string
	Name  string
	Text  string
	Expr  ast.Expr
	Props []string
	File  string
	Line  int
	Once  bool
}

type LoopSpec struct {
	Inv    []*Clause
	Steps  []*Clause
	Assume []*Clause
	Ghost  []*Clause
	Unroll int
	Dec    *Clause
}

type Contract struct {
	Kind          string // func, functype, iface
	Key           string
	Params        []string
	Props         []string
	Requires      []*Clause
	NilRecv       bool      // the method may be called on a nil receiver
	AssumesExit   []*Clause // the same, taken for granted at exit (about objects made meanwhile)
	Assumes       []*Clause // system invariants taken for granted at entry; not demanded of callers, reported as assumptions
	Ensures       []*Clause
	Post          []*Clause // Ensures and "use" clauses in source order
	Lemmas        []*Clause
	Modifies      []*Clause
	ModAll        bool
	Loops         map[int]*LoopSpec
	Merge         string
	Safety        bool
	MaxUnroll     int
	Inline        bool
	InlineCallees map[string]bool
	Timeout       float64
	Trusted       bool
	Pure          bool
	Bounded       bool
	NoRac         bool
	NoDef         bool
	IEEE          bool // division by zero and roots of negatives follow IEEE 754
	Gen           []string
	File          string
	Line          int
	Options       []string
	Own           bool    // proved only in the checks of its own properties
	NoAlloc       bool    // creates no objects
	Dec           *Clause // measure that falls at every recursive call
}

type Macro struct {
	Name   string
	Params []string
	PTypes []string
	RType  string
	Text   string
	Expr   ast.Expr
	Rec    bool
	// Theorem: a formula valid for all parameter values; proved on its own, then usable by "use"
	Theorem bool
	// proof by induction on the measure By (at least 0), the hypothesis taken at With
	By   ast.Expr
	With [][]ast.Expr
	File string
	Line int
}

type GhostMap struct {
	Name  string
	Arity int
	Sort  Sort
	Obj   bool   // keyed by an object: false (if boolean) for objects not yet created
	Ptr   []bool // which keys are objects
}

// notYet says that nothing is recorded about objects not yet created.
func (g *GhostMap) notYet(ex *Exec, m, next *Term) *Term {
	ks := make([]*Term, g.Arity)
	in := tTrue
	for i := range ks {
		ks[i] = Bound(ex.freshName("gk"), SInt)
		if g.Ptr[i] {
			in = And(in, Lt(ks[i], next))
		}
	}
	return Forall(ks, Or(in, Not(Select(m, ks, nil))))
}

type Specs struct {
	Contracts map[string]*Contract
	Functypes map[string]*Contract
	Macros    map[string]*Macro
	Ghosts    map[string]*GhostMap
	Consts    map[string]ast.Expr
	Frames    map[string]string
	Order     []string
	Errors    []string
	Lock      map[string][]LocalInfo
}

type LocalInfo struct{ Name, Type string }

var clauseKw = map[string]bool{"frame": true, "func": true, "functype": true, "iface": true, "prop": true, "requires": true, "assumes": true, "ensures": true, "modifies": true,
	"loop": true, "option": true, "ghost": true, "gen": true, "spec": true, "rec": true, "lemma": true, "use": true, "set": true, "decreases": true, "theorem": true}

func ParseSpecs(dir string) (*Specs, error) {
	sp := &Specs{Contracts: map[string]*Contract{}, Functypes: map[string]*Contract{}, Macros: map[string]*Macro{}, Ghosts: map[string]*GhostMap{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := sp.parseFile(f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

var headRe = regexp.MustCompile(`^(func|functype|iface)\s+([\w.$]+)\s*\(([^)]*)\)\s*$`)
var specRe = regexp.MustCompile(`(?s)^(spec|rec|theorem)\s+(\w+)\s*\(([^)]*)\)\s*([\w*\[\]]+)\s*(?:by\s+(.+?)\s+with\s+(.+?)\s*)?=\s+(.*)$`)
var ghostConstRe = regexp.MustCompile(`^ghost\s+const\s+(\w+)\s+(\S+)\s*$`)
var ghostRe = regexp.MustCompile(`^ghost\s+map\s+(\w+)\s*\(([^)]*)\)\s*(\w+)\s*$`)
var nameRe = regexp.MustCompile(`(?s)^(\w+)\s*:\s*([^=].*)$`)
var propsRe = regexp.MustCompile(`(?s)^<([^>]*)>\s*(.*)$`)

func (sp *Specs) parseFile(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type raw struct {
		text string
		line int
	}
	var items []raw
	for i, l := range strings.Split(string(b), "\n") {
		if k := strings.Index(l, "//"); k >= 0 {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := t
		if k := strings.IndexAny(t, " \t:("); k >= 0 {
			w = t[:k]
		}
		if clauseKw[w] {
			items = append(items, raw{t, i + 1})
		} else if len(items) > 0 {
			items[len(items)-1].text += " " + t
		} else {
			return fmt.Errorf("%s:%d: stray text", file, i+1)
		}
	}
	base := filepath.Base(file)
	var cur *Contract
	for _, it := range items {
		fail := func(msg string) error { return fmt.Errorf("%s:%d: %s: %s", base, it.line, msg, it.text) }
		w := strings.FieldsFunc(it.text, func(r rune) bool { return r == ' ' || r == '\t' || r == ':' || r == '(' })[0]
		rest := strings.TrimSpace(it.text[len(w):])
		mkClause := func(kind, s string) (*Clause, error) {
			c := &Clause{Kind: kind, File: base, Line: it.line}
			if m := propsRe.FindStringSubmatch(s); m != nil {
				c.Props = strings.Fields(strings.ReplaceAll(m[1], ",", " "))
				s = m[2]
			}
			if m := nameRe.FindStringSubmatch(s); m != nil {
				c.Name = m[1]
				s = m[2]
			}
			c.Text = strings.TrimSpace(s)
			e, err := parseSpecExpr(c.Text)
			if err != nil {
				return nil, fail(err.Error())
			}
			c.Expr = e
			return c, nil
		}
		switch w {
		case "func", "functype", "iface":
			m := headRe.FindStringSubmatch(it.text)
			if m == nil {
				return fail("bad header")
			}
			cur = &Contract{Kind: m[1], Key: m[2], Loops: map[int]*LoopSpec{}, InlineCallees: map[string]bool{}, File: base, Line: it.line}
			for _, p := range strings.Split(m[3], ",") {
				if p = strings.TrimSpace(p); p != "" {
					cur.Params = append(cur.Params, p)
				}
			}
			tab := sp.Contracts
			if w == "functype" {
				tab = sp.Functypes
			}
			if tab[cur.Key] != nil {
				return fail("duplicate contract")
			}
			tab[cur.Key] = cur
			if w == "func" {
				sp.Order = append(sp.Order, cur.Key)
			}
		case "spec", "rec", "theorem":
			m := specRe.FindStringSubmatch(it.text)
			if m == nil {
				return fail("bad spec function")
			}
			mc := &Macro{Name: m[2], RType: m[4], Text: m[7], Rec: m[1] == "rec", Theorem: m[1] == "theorem", File: base, Line: it.line}
			for _, p := range splitTop(m[3]) {
				if p = strings.TrimSpace(p); p != "" {
					f := strings.Fields(p)
					mc.Params = append(mc.Params, f[0])
					t := ""
					if len(f) > 1 {
						t = strings.Join(f[1:], " ")
					}
					mc.PTypes = append(mc.PTypes, t)
				}
			}
			for i := len(mc.PTypes) - 2; i >= 0; i-- {
				if mc.PTypes[i] == "" {
					mc.PTypes[i] = mc.PTypes[i+1]
				}
			}
			e, err := parseSpecExpr(mc.Text)
			if err != nil {
				return fail(err.Error())
			}
			mc.Expr = e
			if m[5] != "" {
				if mc.By, err = parseSpecExpr(m[5]); err != nil || !mc.Theorem {
					return fail("bad measure")
				}
				for _, inst := range strings.Split(m[6], ";") {
					var as []ast.Expr
					for _, a := range splitTop(inst) {
						x, err := parseSpecExpr(strings.TrimSpace(a))
						if err != nil {
							return fail(err.Error())
						}
						as = append(as, x)
					}
					if len(as) != len(mc.Params) {
						return fail("bad instance of the induction hypothesis")
					}
					mc.With = append(mc.With, as)
				}
			}
			if sp.Macros[mc.Name] != nil {
				return fail("duplicate spec function")
			}
			sp.Macros[mc.Name] = mc
		case "ghost":
			if m := ghostRe.FindStringSubmatch(it.text); m != nil {
				ar := len(strings.FieldsFunc(m[2], func(r rune) bool { return r == ',' }))
				if ar == 0 {
					ar = 1
				}
				s := SInt
				switch m[3] {
				case "bool":
					s = SBool
				case "float64":
					s = SReal
				}
				g := &GhostMap{Name: m[1], Arity: ar, Sort: s, Ptr: make([]bool, ar)}
				for i, par := range strings.Split(m[2], ",") {
					if strings.Contains(par, "*") {
						g.Ptr[i] = true
					}
				}
				g.Obj = g.Ptr[0]
				sp.Ghosts[m[1]] = g
				continue
			}
			// an arbitrary value no contract knows anything about but what it says itself
			if m := ghostConstRe.FindStringSubmatch(it.text); m != nil {
				if sp.Consts == nil {
					sp.Consts = map[string]ast.Expr{}
				}
				e, err := parseSpecExpr(m[2])
				if err != nil {
					return fail(err.Error())
				}
				sp.Consts[m[1]] = e
				continue
			}
			return fail("bad ghost")
		case "frame":
			nm, body, ok := strings.Cut(rest, ":")
			if !ok {
				return fail("bad frame")
			}
			if sp.Frames == nil {
				sp.Frames = map[string]string{}
			}
			sp.Frames[strings.TrimSpace(nm)] = body
		default:
			if cur == nil {
				return fail("clause outside a contract")
			}
			switch w {
			case "prop":
				cur.Props = strings.Fields(strings.ReplaceAll(rest, ",", " "))
			case "requires":
				c, err := mkClause("requires", rest)
				if err != nil {
					return err
				}
				cur.Requires = append(cur.Requires, c)
			case "assumes":
				exit := strings.HasPrefix(rest, "exit ")
				rest = strings.TrimPrefix(rest, "exit ")
				c, err := mkClause("assumes", rest)
				if err != nil {
					return err
				}
				if exit {
					cur.AssumesExit = append(cur.AssumesExit, c)
				} else {
					cur.Assumes = append(cur.Assumes, c)
				}
			case "ensures":
				c, err := mkClause("ensures", rest)
				if err != nil {
					return err
				}
				if c.Name == "" {
					c.Name = fmt.Sprintf("post%d", len(cur.Ensures))
				}
				cur.Ensures = append(cur.Ensures, c)
				cur.Post = append(cur.Post, c)
			case "set":
				// ghost update at exit
				c, err := mkClause("set", strings.Replace(rest, ":=", "==", 1))
				if err != nil {
					return err
				}
				cur.Post = append(cur.Post, c)
			case "decreases":
				c, err := mkClause("decreases", rest)
				if err != nil {
					return err
				}
				cur.Dec = c
			case "use":
				once := strings.HasPrefix(rest, "once ")
				c, err := mkClause("use", strings.TrimPrefix(rest, "once "))
				if err != nil {
					return err
				}
				c.Once = once // for the next ensures only
				cur.Post = append(cur.Post, c)
			case "lemma":
				c, err := mkClause("lemma", rest)
				if err != nil {
					return err
				}
				if c.Name == "" {
					c.Name = fmt.Sprintf("lemma%d", len(cur.Lemmas))
				}
				cur.Lemmas = append(cur.Lemmas, c)
			case "modifies":
				items := splitTop(rest)
				for k := 0; k < len(items); k++ {
					p := strings.TrimSpace(items[k])
					if strings.HasPrefix(p, "@") {
						f, ok := sp.Frames[p[1:]]
						if !ok {
							return fail("unknown frame " + p)
						}
						items = append(items, splitTop(f)...)
						continue
					}
					if p == "*" {
						cur.ModAll = true
						continue
					}
					e, err := parseSpecExpr(p)
					if err != nil {
						return fail(err.Error())
					}
					cur.Modifies = append(cur.Modifies, &Clause{Kind: "modifies", Text: p, Expr: e, File: base, Line: it.line})
				}
			case "gen":
				cur.Gen = append(cur.Gen, rest)
			case "option":
				for _, o := range strings.Split(rest, ";") {
					o = strings.TrimSpace(o)
					f := strings.Fields(o)
					cur.Options = append(cur.Options, o)
					switch f[0] {
					case "inline":
						if len(f) > 1 {
							for _, k := range f[1:] {
								cur.InlineCallees[k] = true
							}
						} else {
							cur.Inline = true
						}
					case "merge":
						cur.Merge = "all"
						if len(f) > 1 {
							cur.Merge = f[1]
						}
					case "safety":
						cur.Safety = true
					case "trusted":
						cur.Trusted = true
					case "pure":
						cur.Pure = true
					case "bounded":
						cur.Bounded = true
					case "nodef":
						cur.NoDef = true
					case "ieee":
						cur.IEEE = true
					case "allocates":
					case "own":
						cur.Own = true
					case "nilrecv":
						cur.NilRecv = true
					case "noalloc":
						cur.NoAlloc = true
					case "norac":
						cur.NoRac = true
					case "timeout":
						cur.Timeout, _ = strconv.ParseFloat(f[1], 64)
					case "unroll":
						cur.MaxUnroll, _ = strconv.Atoi(f[1])
					default:
						return fail("unknown option " + f[0])
					}
				}
			case "loop":
				i := strings.IndexByte(rest, ':')
				if i < 0 {
					return fail("bad loop clause")
				}
				k, err := strconv.Atoi(strings.TrimSpace(rest[:i]))
				if err != nil {
					return fail("bad loop number")
				}
				ls := cur.Loops[k]
				if ls == nil {
					ls = &LoopSpec{}
					cur.Loops[k] = ls
				}
				body := strings.TrimSpace(rest[i+1:])
				kw := strings.Fields(body)[0]
				arg := strings.TrimSpace(body[len(kw):])
				switch kw {
				case "invariant":
					c, err := mkClause("invariant", arg)
					if err != nil {
						return err
					}
					ls.Inv = append(ls.Inv, c)
				case "step", "use":
					c, err := mkClause(kw, arg)
					if err != nil {
						return err
					}
					ls.Steps = append(ls.Steps, c)
				case "assume":
					c, err := mkClause("assume", arg)
					if err != nil {
						return err
					}
					ls.Assume = append(ls.Assume, c)
				case "unroll":
					ls.Unroll, _ = strconv.Atoi(arg)
				case "decreases":
					c, err := mkClause("decreases", arg)
					if err != nil {
						return err
					}
					ls.Dec = c
				case "ghost":
					c, err := mkClause("ghost", strings.Replace(arg, ":=", "==", 1))
					if err != nil {
						return err
					}
					ls.Ghost = append(ls.Ghost, c)
				default:
					return fail("bad loop clause")
				}
			}
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

// convImp turns A ==> B (lowest precedence, right associative) into imp(A, B).
func convImp(s string) string {
	// inside-out over bracket groups
	var sb strings.Builder
	i := 0
	for i < len(s) {
		c := s[i]
		if c == '(' || c == '[' {
			d := 0
			j := i
			for ; j < len(s); j++ {
				if s[j] == '(' || s[j] == '[' {
					d++
				}
				if s[j] == ')' || s[j] == ']' {
					d--
					if d == 0 {
						break
					}
				}
			}
			if j >= len(s) {
				return s
			}
			parts := splitTop(s[i+1 : j])
			for k := range parts {
				parts[k] = convImp(parts[k])
			}
			sb.WriteByte(c)
			sb.WriteString(strings.Join(parts, ","))
			sb.WriteByte(s[j])
			i = j + 1
			continue
		}
		sb.WriteByte(c)
		i++
	}
	s = sb.String()
	d := 0
	for i := 0; i+2 < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		}
		if d == 0 && s[i:i+3] == "==>" {
			return "imp(" + s[:i] + ", " + convImp(s[i+3:]) + ")"
		}
	}
	return s
}

func parseSpecExpr(s string) (ast.Expr, error) {
	return parser.ParseExpr(convImp(s))
}

func (sp *Specs) usable(c, caller *Contract) bool { return true }

func clauseProps(c *Clause, def []string) []string {
	if c != nil && len(c.Props) > 0 {
		return c.Props
	}
	return def
}

func (c *Contract) hasProp(p string) bool {
	for _, q := range c.Props {
		if q == p {
			return true
		}
	}
	for _, e := range c.Ensures {
		for _, q := range e.Props {
			if q == p {
				return true
			}
		}
	}
	for _, e := range c.Lemmas {
		for _, q := range e.Props {
			if q == p {
				return true
			}
		}
	}
	return false
}
