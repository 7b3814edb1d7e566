package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fatal("usage: govc verify|check|lock ...")
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "rac":
		cmdRac(os.Args[2:])
	case "loops":
		cmdLoops(os.Args[2:])
	case "lock":
		p, err := Load(repoDir())
		if err != nil {
			fatal(err)
		}
		sp, err := ParseSpecs(specDir())
		if err != nil {
			fatal(err)
		}
		if err := WriteLock(p, sp, specDir()); err != nil {
			fatal(err)
		}
	default:
		fatal("unknown command", os.Args[1])
	}
}

func repoDir() string {
	if d := os.Getenv("GOVC_REPO"); d != "" {
		return d
	}
	return "/repo"
}
func specDir() string {
	if d := os.Getenv("GOVC_SPECS"); d != "" {
		return d
	}
	return "/verif/specs"
}

func cmdLoops(args []string) {
	p, err := Load(repoDir())
	if err != nil {
		fatal(err)
	}
	sp, err := ParseSpecs(specDir())
	if err != nil {
		fatal(err)
	}
	for _, k := range args {
		d := p.funcs[k]
		if d == nil {
			fmt.Println("no function", k)
			continue
		}
		for n, i := range numberLoopsDeep(p, sp, d.Body, map[string]bool{k: true}) {
			fmt.Println(k, i, p.fset.Position(n.Pos()))
		}
	}
}

func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	fun := fs.String("f", "", "functions (comma separated, prefix with * wildcard)")
	prop := fs.String("p", "", "property")
	tsec := fs.Float64("t", 10, "seconds per obligation")
	verbose := fs.Bool("v", false, "list every obligation")
	dump := fs.String("dump", "", "dump failing obligations containing this text")
	model := fs.Bool("model", false, "print models")
	fs.Parse(args)
	t0 := time.Now()
	p, err := Load(repoDir())
	if err != nil {
		fatal(err)
	}
	fmt.Printf("load %.1fs\n", time.Since(t0).Seconds())
	sp, err := ParseSpecs(specDir())
	if err != nil {
		fatal(err)
	}
	sp.LoadLock(specDir())
	var rs []*FuncResult
	var obls []*Obligation
	for _, k := range sp.Order {
		c := sp.Contracts[k]
		if *prop != "" && !c.hasProp(*prop) {
			continue
		}
		if *fun != "" {
			ok := false
			for _, f := range strings.Split(*fun, ",") {
				if f == k || strings.HasSuffix(f, "*") && strings.HasPrefix(k, strings.TrimSuffix(f, "*")) {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		r := Generate(p, sp, c)
		rs = append(rs, r)
		obls = append(obls, r.Obls...)
		if r.Err != "" {
			fmt.Printf("ERR  %s: %s\n", k, r.Err)
		}
		if r.Missing {
			fmt.Printf("MISSING %s\n", k)
		}
		if r.GenTime > 2 {
			fmt.Printf("slow generation %s: %.1fs, %d obligations\n", k, r.GenTime, len(r.Obls))
		}
	}
	fmt.Printf("generated %d obligations of %d functions at %.1fs\n", len(obls), len(rs), time.Since(t0).Seconds())
	fails := 0
	if only := os.Getenv("GOVC_ONLY"); only != "" {
		var keep []*Obligation
		for _, o := range obls {
			if strings.Contains(o.ID()+" "+o.Path, only) {
				keep = append(keep, o)
			}
		}
		obls = keep
	}
	Discharge(obls, func(o *Obligation) float64 {
		if c := sp.Contracts[o.Func]; c != nil && c.Timeout > 0 {
			return c.Timeout
		}
		return *tsec
	}, nil, func(o *Obligation) {
		if o.Result.Status != "unsat" {
			fails++
			fmt.Printf("FAIL %s [%s] %s %s (%s) %.1fs\n   goal %s\n", o.ID(), o.Path, o.Pos, o.Result.Status, o.Result.Detail, o.Result.Time, short(o.Goal.String(), 300))
			if *model {
				fmt.Println(o.Result.Model)
			}
			if *dump != "" && strings.Contains(o.ID(), *dump) {
				fmt.Println("  FACTS:")
				for _, f := range o.Facts {
					fmt.Println("    ", f)
				}
				fmt.Println("  GOAL:", o.Goal)
			}
		} else if *verbose || o.Result.Time > 5 {
			fmt.Printf("ok   %s [%s] %s %.1fs %s\n", o.ID(), o.Path, o.Result.Backend, o.Result.Time, o.Result.Kind)
		}
	})
	for _, r := range rs {
		r.CheckVacuity()
		if r.Vacuous != "" {
			fmt.Printf("VACUOUS %s: %s\n", r.Key, r.Vacuous)
			fails++
		}
	}
	by := map[string]int{}
	for _, o := range obls {
		by[o.Result.Backend]++
	}
	fmt.Printf("%d functions, %d obligations, %d failures, backends %v, %.1fs\n", len(rs), len(obls), fails, by, time.Since(t0).Seconds())
}
