package main

// Runtime assertion checking of contracts on the compiled code: used to replay failed
// obligations, and as a cross-check of the proofs.

import (
	"context"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type racClause struct{ Name, Text string }
type racContract struct {
	Key      string
	Params   []string
	Requires []racClause
	Ensures  []racClause
	Modifies []string
	ModAll   bool
	Models   []map[string]float64
}
type racMacro struct {
	Params []string
	PTypes []string
	RType  string
	Text   string
}
type racConfig struct {
	Contracts []*racContract
	Macros    map[string]*racMacro
	Seed      int64
	Seconds   float64
	MaxCases  int
	Out       string
}
type racFinding struct {
	Func, Clause, Text, Inputs, Detail string
	Case                               int
	Seed                               int64
}
type racReport struct {
	Func     string
	Cases    int
	Tried    int
	Checked  map[string]int
	Findings []racFinding
	Note     string
}

func seed() int64 {
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			return n
		}
	}
	return 1
}

func racDir() string { return filepath.Join(filepath.Dir(specDir()), "rac") }

// tableSource generates the test file giving the interpreter access to the package.
func tableSource(p *Prog) string {
	var sb strings.Builder
	sb.WriteString("package " + p.files[0].Name.Name + "\n\nimport (\n\t\"os\"\n\t\"reflect\"\n\t\"testing\"\n\n\t\"" + modulePath(p.dir) + "/zzrac\"\n)\n\n")
	sb.WriteString("var verifGens = map[string]func(*zzrac.Rand) any{}\nvar verifTuples = map[string]func(*zzrac.Rand) []any{}\nvar verifNewCase func()\n\n")
	sb.WriteString("func TestVerifRac(t *testing.T) {\n\tif os.Getenv(\"VERIF_RAC\") == \"\" {\n\t\tt.Skip()\n\t}\n\ten := &zzrac.Engine{Gens: verifGens, Tuples: verifTuples, NewCase: verifNewCase}\n\ten.Funcs = map[string]any{\n")
	var keys []string
	for k := range p.funcs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		o := p.info.Defs[p.funcs[k].Name].(*types.Func)
		sig := o.Type().(*types.Signature)
		if o.Name() == "init" || o.Name() == "_" || sig.TypeParams() != nil || sig.RecvTypeParams() != nil {
			continue
		}
		expr := o.Name()
		if r := sig.Recv(); r != nil {
			n := types.TypeString(r.Type(), func(*types.Package) string { return "" })
			expr = "(" + n + ")." + o.Name()
		}
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", k, expr)
	}
	sb.WriteString("\t}\n\ten.Types = map[string]reflect.Type{\n")
	sc := p.pkg.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&sb, "\t\t%q: reflect.TypeOf((*%s)(nil)).Elem(),\n", n, n)
		}
	}
	sb.WriteString("\t}\n\ten.Consts = map[string]any{\n")
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok {
			e := n
			if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && c.Val().Kind() == constant.Int {
				if _, exact := constant.Int64Val(c.Val()); !exact {
					e = "uint64(" + n + ")"
				}
			}
			fmt.Fprintf(&sb, "\t\t%q: %s,\n", n, e)
		}
	}
	sb.WriteString("\t}\n\ten.Globals = map[string]any{\n")
	for _, n := range sc.Names() {
		if _, ok := sc.Lookup(n).(*types.Var); ok && n != "_" {
			fmt.Fprintf(&sb, "\t\t%q: &%s,\n", n, n)
		}
	}
	sb.WriteString("\t}\n\ten.Run(os.Getenv(\"VERIF_RAC\"))\n}\n")
	return sb.String()
}

var modRe = regexp.MustCompile(`(?m)^module\s+(\S+)`)

func modulePath(dir string) string {
	b, _ := os.ReadFile(filepath.Join(dir, "go.mod"))
	if m := modRe.FindSubmatch(b); m != nil {
		return string(m[1])
	}
	return "cp"
}

// buildTestBinary compiles /repo's package with the overlay; extra are test files to add.
// The repository's own test files are replaced by empty ones so that only the check's tests are compiled.
func buildTestBinary(p *Prog, work, name string, extra []string, table bool) (string, string) {
	repl := map[string]string{}
	for _, f := range []string{"interp.go", "snap.go", "engine.go"} {
		repl[filepath.Join(p.dir, "zzrac", f)] = filepath.Join(racDir(), "zzrac", f)
	}
	if table {
		t := filepath.Join(work, name+"_table_test.go")
		if err := os.WriteFile(t, []byte(tableSource(p)), 0o644); err != nil {
			return "", err.Error()
		}
		repl[filepath.Join(p.dir, "zz_verif_table_test.go")] = t
	}
	for _, e := range extra {
		repl[filepath.Join(p.dir, "zz_verif_"+filepath.Base(e))] = e
	}
	empty := filepath.Join(work, "empty_test.go")
	os.WriteFile(empty, []byte("package "+p.files[0].Name.Name+"\n"), 0o644)
	old, _ := filepath.Glob(filepath.Join(p.dir, "*_test.go"))
	for _, o := range old {
		repl[o] = empty
	}
	ov := filepath.Join(work, name+"_overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(ov, b, 0o644)
	bin := filepath.Join(work, name+".test")
	cmd := exec.Command("go", "test", "-overlay", ov, "-vet=off", "-c", "-o", bin, ".")
	cmd.Dir = p.dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", "go test -c: " + string(out)
	}
	return bin, ""
}

func runBinary(bin, dir string, env []string, timeout time.Duration, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, err := cmd.CombinedOutput()
	return string(out), err
}

func racOf(c *Contract) *racContract {
	r := &racContract{Key: c.Key, Params: c.Params, ModAll: c.ModAll}
	for i, q := range append(append([]*Clause{}, c.Requires...), c.Assumes...) {
		r.Requires = append(r.Requires, racClause{fmt.Sprint(i), convImp(q.Text)})
	}
	for _, q := range c.Ensures {
		r.Ensures = append(r.Ensures, racClause{q.Name, convImp(q.Text)})
	}
	for _, q := range c.Modifies {
		r.Modifies = append(r.Modifies, q.Text)
	}
	return r
}

var genFiles = []string{"gen_test.go", "world_test.go"}

// runRac runs the contracts given on the compiled code; returns the reports and a note when it could not.
func runRac(p *Prog, sp *Specs, cs []*racContract, work string, seconds float64, maxCases int, timeout time.Duration) ([]*racReport, string) {
	if len(cs) == 0 {
		return nil, ""
	}
	var extra []string
	for _, g := range genFiles {
		extra = append(extra, filepath.Join(racDir(), g))
	}
	bin, msg := buildTestBinary(p, work, "rac", extra, true)
	note := ""
	if bin == "" {
		note = "generators do not compile against this tree; retried without them: " + short(msg, 300)
		bin, msg = buildTestBinary(p, work, "rac", nil, true)
		if bin == "" {
			return nil, "replay harness does not compile: " + short(msg, 600)
		}
	}
	var all []*racReport
	deadline := time.Now().Add(timeout)
	for round := 0; len(cs) > 0 && round < 40; round++ {
		left := time.Until(deadline)
		if left < time.Second {
			note += " out of time"
			break
		}
		cfg := racConfig{Contracts: cs, Macros: map[string]*racMacro{}, Seed: seed(), Seconds: seconds, MaxCases: maxCases, Out: filepath.Join(work, "rac_out.json")}
		for n, m := range sp.Macros {
			cfg.Macros[n] = &racMacro{m.Params, m.PTypes, m.RType, convImp(m.Text)}
		}
		cf := filepath.Join(work, "rac_cfg.json")
		b, _ := json.Marshal(cfg)
		os.WriteFile(cf, b, 0o644)
		os.Remove(cfg.Out)
		out, err := runBinary(bin, work, []string{"VERIF_RAC=" + cf}, left, "-test.run", "^TestVerifRac$", "-test.timeout", fmt.Sprint(left), "-test.cpuprofile="+os.Getenv("GOVC_PROF"))
		var reps []*racReport
		rb, rerr := os.ReadFile(cfg.Out)
		if rerr == nil {
			json.Unmarshal(rb, &reps)
		}
		all = append(all, reps...)
		if err == nil {
			break
		}
		if len(reps) == 0 {
			note += " run: " + err.Error() + " " + short(out, 800)
			break
		}
		// the process stopped inside one function: go on with the ones after it
		cs = cs[len(reps):]
	}
	return all, note
}

// parseModel reads the scalar values of a solver model.
var modelRe = regexp.MustCompile(`\(define-fun (\|[^|]*\||\S+) \(\) (Real|Int|Bool)\s+`)

func parseModel(m string) map[string]float64 {
	out := map[string]float64{}
	idx := modelRe.FindAllStringSubmatchIndex(m, -1)
	for _, ix := range idx {
		name := strings.Trim(m[ix[2]:ix[3]], "|")
		if v, ok := evalSexp(m[ix[1]:]); ok {
			out[name] = v
		}
	}
	return out
}

func evalSexp(s string) (float64, bool) {
	pos := 0
	var rec func() (*big.Rat, bool)
	skip := func() {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t') {
			pos++
		}
	}
	tok := func() string {
		skip()
		st := pos
		for pos < len(s) && !strings.ContainsRune(" \n\t()", rune(s[pos])) {
			pos++
		}
		return s[st:pos]
	}
	rec = func() (*big.Rat, bool) {
		skip()
		if pos >= len(s) {
			return nil, false
		}
		if s[pos] != '(' {
			t := tok()
			switch t {
			case "true":
				return big.NewRat(1, 1), true
			case "false":
				return new(big.Rat), true
			}
			r, ok := new(big.Rat).SetString(strings.TrimSuffix(t, "?"))
			return r, ok
		}
		pos++
		op := tok()
		var args []*big.Rat
		for {
			skip()
			if pos >= len(s) {
				return nil, false
			}
			if s[pos] == ')' {
				pos++
				break
			}
			a, ok := rec()
			if !ok {
				return nil, false
			}
			args = append(args, a)
		}
		switch {
		case op == "-" && len(args) == 1:
			return new(big.Rat).Neg(args[0]), true
		case op == "-" && len(args) == 2:
			return new(big.Rat).Sub(args[0], args[1]), true
		case op == "/" && len(args) == 2 && args[1].Sign() != 0:
			return new(big.Rat).Quo(args[0], args[1]), true
		}
		return nil, false
	}
	r, ok := rec()
	if !ok || r == nil {
		return 0, false
	}
	f, _ := r.Float64()
	return f, true
}
