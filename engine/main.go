package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	prog *ssa.Program
	pkg  *ssa.Package
	cli  *ssa.Package // the command line tool, when a harness needs it
}

func load(repo string, overlay map[string][]byte) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay}
	pats := []string{healerPkg}
	for k := range overlay {
		if filepath.Dir(k) == filepath.Join(repo, cliDir) {
			pats = append(pats, cliPkg)
			break
		}
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, pk := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{prog: prog}
	for i, x := range ps {
		switch x.PkgPath {
		case healerPkg:
			p.pkg = pk[i]
		case cliPkg:
			p.cli = pk[i]
		}
	}
	return p, nil
}

func readOverlay(repo, dir string) (map[string][]byte, error) {
	m := map[string][]byte{}
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, err
	}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		m[filepath.Join(repo, filepath.Base(f))] = b
	}
	fs, err = filepath.Glob(filepath.Join(dir, "cli", "*.go"))
	if err != nil {
		return nil, err
	}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		m[filepath.Join(repo, cliDir, filepath.Base(f))] = b
	}
	return m, nil
}

const cliDir = "command/healer/cmd"

func main() {
	repo := flag.String("repo", "/repo", "")
	hd := flag.String("harness", "/verif/harness", "")
	run := flag.String("run", ".", "regexp over harness names")
	workers := flag.Int("workers", 8, "")
	secs := flag.Int("secs", 600, "")
	prof := flag.Bool("profile", false, "")
	dbg := flag.Bool("debug", false, "")
	flag.StringVar(&z3Path, "z3", "z3", "")
	prop := flag.String("prop", "", "run the check of one property")
	tier := flag.String("tier", "quick", "")
	verif := flag.String("verif", "/verif", "")
	flag.Parse()
	debugEngine = *dbg
	initNatives()
	if *prop != "" {
		os.Exit(runCheck(*prop, *tier, *repo, *verif, *workers, *secs))
	}
	if *tier == "thorough" {
		tierN = 1
	}
	ov, err := readOverlay(*repo, *hd)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	if !strings.Contains(*run, "C24") && !strings.Contains(*run, "C25") && !strings.Contains(*run, "C26") {
		for k := range ov {
			if filepath.Dir(k) == filepath.Join(*repo, cliDir) {
				delete(ov, k)
			}
		}
	}
	t0 := time.Now()
	p, drop, err := loadTolerant(*repo, ov)
	for _, d := range drop {
		fmt.Println("dropped:", d)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	re := regexp.MustCompile(*run)
	var hs []*Harness
	for name, mem := range p.pkg.Members {
		f, ok := mem.(*ssa.Function)
		if !ok || !strings.HasPrefix(name, "VP_") || !re.MatchString(name) {
			continue
		}
		hs = append(hs, &Harness{Name: name, fn: f})
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	fmt.Printf("loaded in %v, %d harnesses\n", time.Since(t0).Round(time.Millisecond), len(hs))
	res, ws := explore(p, hs, *workers, time.Now().Add(time.Duration(*secs)*time.Second), *prof, nil)
	for _, h := range hs {
		r := res[h.Name]
		fmt.Printf("%-40s paths=%d ok=%d out=%d left=%d steps=%d asserts=%d/%d viol=%d maxdec=%d %v reach=%v\n", h.Name, r.Paths, r.Completed, r.AssumedOut, r.Left, r.Steps, r.Discharged, r.Asserts, r.ViolCount, r.MaxDecs, r.Dur.Round(time.Millisecond), keys(r.Reached))
		for _, s := range topN(r.Unsup, 5) {
			fmt.Println("   UNSUP", s)
		}
		for _, s := range topN(r.Bound, 5) {
			fmt.Println("   BOUND", s)
		}
		seen := map[string]bool{}
		for _, v := range r.Viols {
			if seen[v.Msg] {
				continue
			}
			seen[v.Msg] = true
			fmt.Printf("   VIOL %s: %s\n      at %s\n      in %s\n      sched %v\n", v.Kind, v.Msg, v.Where, fmtInputs(v.Inputs, 30), v.Sched)
		}
	}
	q, d := 0, time.Duration(0)
	for _, w := range ws {
		q += w.c.solver.queries
		d += w.c.solver.dur
		if *prof {
			for _, s := range topN(w.profile, 10) {
				fmt.Println("FORK", s)
			}
		}
	}
	fmt.Println("queries", q, "solver time", d.Round(time.Millisecond), "total", time.Since(t0).Round(time.Millisecond))
}

func keys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
