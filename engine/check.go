package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- loading with tolerance: a declaration of a harness that no longer
// type-checks against the tree under test is dropped (and reported), not fatal.

var errPosRe = regexp.MustCompile(`(zz_vp_[A-Za-z0-9_]+\.go):(\d+):\d+: ([^\n]*)`)

func loadTolerant(repo string, ov map[string][]byte) (*Prog, []string, error) {
	var dropped []string
	for {
		p, err := load(repo, ov)
		if err == nil {
			return p, dropped, nil
		}
		n := 0
		for _, e := range errPosRe.FindAllStringSubmatch(err.Error(), -1) {
			k := filepath.Join(repo, e[1])
			src, ok := ov[k]
			if !ok || e[1] == "zz_vp_support.go" {
				continue
			}
			line, _ := strconv.Atoi(e[2])
			out, what, done := blankDecl(src, line)
			if what == "" {
				delete(ov, k)
				what = "the whole file"
			} else if !done {
				continue // several errors in one declaration
			} else {
				ov[k] = out
			}
			dropped = append(dropped, e[1]+": "+what+": "+e[3])
			n++
		}
		if n == 0 {
			return nil, dropped, err
		}
	}
}

// blankDecl replaces the declaration that covers the line by blanks (lines
// stay as they are); done is false when the line is blank already.
func blankDecl(src []byte, line int) (out []byte, what string, done bool) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, "", false
	}
	ls := bytes.Split(src, []byte("\n"))
	if line < 1 || line > len(ls) {
		return nil, "", false
	}
	blank := func(n ast.Node, name string) ([]byte, string, bool) {
		out := append([]byte{}, src...)
		for i := fs.Position(n.Pos()).Offset; i < fs.Position(n.End()).Offset; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
		return out, name, true
	}
	covers := func(n ast.Node) bool {
		return fs.Position(n.Pos()).Line <= line && line <= fs.Position(n.End()).Line
	}
	for _, d := range f.Decls {
		if !covers(d) {
			continue
		}
		switch d := d.(type) {
		case *ast.FuncDecl:
			return blank(d, d.Name.Name)
		case *ast.GenDecl:
			if d.Lparen == token.NoPos {
				return blank(d, d.Tok.String())
			}
			for _, sp := range d.Specs {
				if covers(sp) {
					return blank(sp, d.Tok.String())
				}
			}
		}
	}
	if len(bytes.TrimSpace(ls[line-1])) == 0 {
		return nil, "blank", false
	}
	return nil, "", false
}

// ---- native replay

// replays run inside testing/synctest, so that native runs have virtual time
const replayGoroot = "/opt/veriftools/go1.25.14"

type Replayer struct {
	repo  string
	dir   string // scratch
	bin   string
	tier  int
	verif string
	err   error
}

func newReplayer(repo, verif string, ov map[string][]byte, tier int) *Replayer {
	r := &Replayer{repo: repo, tier: tier, verif: verif}
	d, err := os.MkdirTemp("", "vprep")
	if err != nil {
		r.err = err
		return r
	}
	r.dir = d
	repl := map[string]string{}
	var names []string
	for k, b := range ov {
		src := filepath.Join(d, filepath.Base(k))
		os.WriteFile(src, b, 0644)
		repl[k] = src
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, k, b, 0)
		if err == nil {
			for _, dcl := range f.Decls {
				if fd, ok := dcl.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "VP_") {
					names = append(names, fd.Name.Name)
				}
			}
		}
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString("package healer\n\nvar vpRegistry = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: %s,\n", n, n)
	}
	sb.WriteString("}\n")
	os.WriteFile(filepath.Join(d, "zz_vp_registry_test.go"), []byte(sb.String()), 0644)
	repl[filepath.Join(repo, "zz_vp_registry_test.go")] = filepath.Join(d, "zz_vp_registry_test.go")
	repl[filepath.Join(repo, "zz_vp_replay_test.go")] = filepath.Join(verif, "replay", "zz_vp_replay_test.go")
	for k := range ov {
		if filepath.Dir(k) == filepath.Join(repo, cliDir) {
			// the tool registers itself with the harness
			x := filepath.Join(d, "zz_vp_cli_test.go")
			os.WriteFile(x, []byte("package healer_test\n\nimport (\n\t\"net/http\"\n\t\"os\"\n\t\"os/signal\"\n\t\"syscall\"\n\n\t\"github.com/childe/healer\"\n\t_ \""+cliPkg+"\"\n)\n\n// starts the goroutine that waits for signals outside of the bubbles\nfunc init() {\n\tsignal.Notify(make(chan os.Signal, 1), syscall.SIGUSR2)\n\tif f, ok := healer.VpServe.(func(string, http.Handler) error); ok {\n\t\thttp.VPServeHook = f\n\t}\n}\n"), 0644)
			repl[filepath.Join(repo, "zz_vp_cli_test.go")] = x
		}
	}
	// leave the repository's own tests out of the replay binary
	ts, _ := filepath.Glob(filepath.Join(repo, "*_test.go"))
	for _, t := range ts {
		repl[t] = ""
	}
	// the network and the random source are the harness's: hooks in copies of
	// the standard library files that every dial and every draw goes through
	patch := func(rel string, rep [][2]string, tailSrc string) {
		src, err := os.ReadFile(filepath.Join(replayGoroot, "src", rel))
		if err != nil {
			return
		}
		s := string(src)
		for _, x := range rep {
			s = strings.Replace(s, x[0], x[0]+x[1], 1)
		}
		f := filepath.Join(d, strings.ReplaceAll(rel, "/", "_"))
		os.WriteFile(f, []byte(s+tailSrc), 0644)
		repl[filepath.Join(replayGoroot, "src", rel)] = f
	}
	patch("net/dial.go", [][2]string{{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "\tif VPDialHook != nil {\n\t\treturn VPDialHook(network, address, d.Timeout, d.KeepAlive)\n\t}\n"}}, "\nvar VPDialHook func(network, address string, timeout, keepAlive time.Duration) (Conn, error)\n")
	patch("math/rand/rand.go", [][2]string{
		{"func Int31n(n int32) int32 {", " if VPRandHook != nil { return int32(VPRandHook()) }; "},
		{"func Intn(n int) int {", " if VPRandHook != nil { return int(VPRandHook()) }; "},
	}, "\nvar VPRandHook func() int64\n")
	patch("net/http/server.go", [][2]string{{"func ListenAndServe(addr string, handler Handler) error {\n", "\tif VPServeHook != nil {\n\t\treturn VPServeHook(addr, handler)\n\t}\n"}}, "\nvar VPServeHook func(addr string, handler Handler) error\n")
	patch("crypto/tls/tls.go", [][2]string{
		{"func DialWithDialer(dialer *net.Dialer, network, addr string, config *Config) (*Conn, error) {\n", "\tif VPDialHook != nil {\n\t\treturn VPDialHook(network, addr, config)\n\t}\n"},
		{"func LoadX509KeyPair(certFile, keyFile string) (Certificate, error) {\n", "\tif VPKeyPairHook != nil {\n\t\treturn VPKeyPairHook(certFile, keyFile)\n\t}\n"},
	}, "\nvar VPDialHook func(network, addr string, config *Config) (*Conn, error)\n\nvar VPKeyPairHook func(cert, key string) (Certificate, error)\n")
	patch("crypto/x509/cert_pool.go", [][2]string{{"func (s *CertPool) AppendCertsFromPEM(pemCerts []byte) (ok bool) {\n", "\tif VPCAHook != nil {\n\t\treturn VPCAHook(s, pemCerts)\n\t}\n"}}, "\nvar VPCAHook func(p *CertPool, pem []byte) bool\n")
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(filepath.Join(d, "ov.json"), j, 0644)
	return r
}

func (r *Replayer) build() error {
	if r.err != nil || r.bin != "" {
		return r.err
	}
	bin := filepath.Join(r.dir, "replay.test")
	cmd := exec.Command(filepath.Join(replayGoroot, "bin", "go"), "test", "-c", "-vet=off", "-overlay", filepath.Join(r.dir, "ov.json"), "-o", bin, healerPkg)
	cmd.Dir = r.repo
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOROOT=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "GOROOT="+replayGoroot, "GOTOOLCHAIN=local")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Run(); err != nil {
		r.err = fmt.Errorf("replay build: %v\n%s", err, tail(out.String(), 2000))
		return r.err
	}
	r.bin = bin
	return nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (r *Replayer) close() {
	if r.dir != "" && strings.Contains(r.dir, "vprep") {
		os.RemoveAll(r.dir)
	}
}

type Outcome struct {
	Fails   []string `json:"fails"`
	Panic   string   `json:"panic"`
	Stack   string   `json:"stack"`
	Assume  bool     `json:"assume"`
	Reached []string `json:"reached"`
	Missing []string `json:"missing"`
	Done    bool     `json:"done"`
	Timeout bool     `json:"timeout"`
	Crash   string   `json:"crash"`
}

func (o Outcome) failed() bool {
	return len(o.Fails) > 0 || o.Panic != "" || o.Timeout || o.Crash != ""
}

func (o Outcome) what() string {
	switch {
	case len(o.Fails) > 0:
		return "assertion failed: " + strings.Join(o.Fails, "; ")
	case o.Panic != "":
		return "panic: " + o.Panic
	case o.Timeout:
		return "hang (killed after timeout)"
	case o.Crash != "":
		return "crash: " + o.Crash
	case o.Assume:
		return "assumption not met"
	}
	return "passed"
}

func (r *Replayer) runMany(harness string, in []InputVal, n int, timeout time.Duration) Outcome {
	var mu sync.Mutex
	var wg sync.WaitGroup
	var res Outcome
	stop := false
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := w; k < n; k += 8 {
				mu.Lock()
				s := stop
				mu.Unlock()
				if s {
					return
				}
				o := r.run(harness, in, 1+k%4, timeout)
				if o.failed() {
					mu.Lock()
					if !stop {
						stop, res = true, o
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	return res
}

func (r *Replayer) run(harness string, in []InputVal, procs int, timeout time.Duration) Outcome {
	var o Outcome
	if err := r.build(); err != nil {
		o.Assume = true
		return o
	}
	f, _ := os.CreateTemp(r.dir, "case*.json")
	b, _ := json.Marshal(map[string]any{"harness": harness, "tier": r.tier, "inputs": in})
	f.Write(b)
	f.Close()
	outF := f.Name() + ".out"
	defer os.Remove(f.Name())
	defer os.Remove(outF)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin, "-test.run", "^TestVPReplay$", "-test.count=1")
	cmd.Dir = r.dir
	cmd.Env = append(os.Environ(), "VP_CASE="+f.Name(), "VP_OUT="+outF)
	if procs > 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("GOMAXPROCS=%d", procs))
	}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	if ob, e2 := os.ReadFile(outF); e2 == nil {
		json.Unmarshal(ob, &o)
	}
	if !o.Done {
		if ctx.Err() != nil {
			o.Timeout = true
		} else if err != nil {
			o.Crash = crashLine(out.String())
		}
	}
	return o
}

func crashLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return l
		}
	}
	return tail(s, 300)
}

// ---- known findings

type Finding struct {
	Status   string `json:"status"` // "known" or "fixed"
	Property string `json:"property"`
	Harness  string `json:"harness"` // regexp
	Msg      string `json:"msg"`     // regexp over the violation message
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadFindings(verif string) []Finding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	var out []Finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var f Finding
		if json.Unmarshal([]byte(l), &f) == nil {
			out = append(out, f)
		}
	}
	return out
}

// ---- the check

func docOf(ov map[string][]byte) map[string]string {
	out := map[string]string{}
	for k, b := range ov {
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, k, b, parser.ParseComments)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
				out[fd.Name.Name] = strings.TrimSpace(strings.ReplaceAll(fd.Doc.Text(), "\n", " "))
			}
		}
	}
	return out
}

func runCheck(prop, tier, repo, verif string, workers int, secs int) int {
	t0 := time.Now()
	if tier == "thorough" {
		tierN = 1
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	hdir := filepath.Join(verif, "harness")
	ov, err := readOverlay(repo, hdir)
	if err != nil {
		fmt.Println("error:", err)
		return 3
	}
	// only support files and this property's harness files
	for k := range ov {
		b := filepath.Base(k)
		if !strings.HasPrefix(b, "zz_vp_support") && !strings.HasPrefix(b, "zz_vp_"+strings.ToLower(prop)+"_") {
			if !strings.HasPrefix(b, "zz_vp_lib") {
				delete(ov, k)
			}
		}
	}
	docs := docOf(ov)
	p, dropped, err := loadTolerant(repo, ov)
	ev := map[string]any{}
	cov := map[string]any{}
	if err != nil {
		// nothing can be encoded: say so, claim nothing
		fmt.Println("INCONCLUSIVE: the tree could not be loaded:", err)
		return 3
	}
	rp := newReplayer(repo, verif, ov, tierN)
	defer rp.close()
	buildDone := make(chan struct{})
	go func() { rp.build(); close(buildDone) }()
	var hs []*Harness
	for name, mem := range p.pkg.Members {
		f, ok := mem.(*ssa.Function)
		if ok && strings.HasPrefix(name, "VP_"+prop+"_") {
			if tierN == 0 && strings.HasSuffix(name, "_thorough") {
				continue
			}
			hs = append(hs, &Harness{Name: name, fn: f})
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	loadT := time.Since(t0)
	findings := loadFindings(verif)
	knownAs := func(h, msg string) *Finding {
		for i := range findings {
			f := &findings[i]
			if f.Status != "known" || f.Property != prop {
				continue
			}
			if m1, _ := regexp.MatchString("^(?:"+f.Harness+")$", h); !m1 {
				continue
			}
			if m2, _ := regexp.MatchString("^(?:"+f.Msg+")$", msg); !m2 {
				continue
			}
			return f
		}
		return nil
	}
	res, ws := explore(p, hs, workers, t0.Add(time.Duration(secs)*time.Second), false, func(h string, v Violation) bool { return knownAs(h, v.Msg) == nil })
	<-buildDone
	rdir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(rdir, 0755)
	exit := 0
	nviol := 0
	nUnconf := 0
	var unconf []string
	known := map[string]bool{}
	var samples []any
	var hrep []any
	var totPaths, totStates, totAsserts, totDis, validated, mism int64
	fnSet := map[string]bool{}
	fnStd := map[string]bool{}
	stubs := map[string]int{}
	var mu sync.Mutex
	inconcl := []string{}
	for _, h := range hs {
		r := res[h.Name]
		totPaths += int64(r.Paths)
		totStates += r.Steps
		totAsserts += r.Asserts
		totDis += r.Discharged
		for f := range r.Fns {
			if q := pkgOf(f); q == healerPkg || q == cliPkg {
				if !strings.HasPrefix(f.Name(), "vp") && !strings.HasPrefix(f.Name(), "VP_") && !strings.Contains(f.String(), ".vp") && !strings.Contains(f.String(), "VP_") {
					fnSet[f.String()] = true
				}
			} else {
				fnStd[f.String()] = true
			}
		}
		for k, v := range r.Stubs {
			if !strings.Contains(k, healerPkg+".vp") {
				stubs[k] += v
			}
		}
		hr := map[string]any{"harness": h.Name, "about": docs[h.Name], "paths": r.Paths, "completed": r.Completed, "assumed_out": r.AssumedOut, "assertions": r.Asserts, "discharged": r.Discharged, "max_decisions": r.MaxDecs, "schedule_choices": r.SchedPts, "reachability_witness": r.Reached["end"], "seconds": r.Dur.Seconds()}
		for _, s := range topN(r.Unsup, 5) {
			inconcl = append(inconcl, h.Name+": not encoded: "+strings.TrimSpace(s))
		}
		for _, s := range topN(r.Bound, 5) {
			inconcl = append(inconcl, h.Name+": bound reached: "+strings.TrimSpace(s))
		}
		if r.Left > 0 {
			inconcl = append(inconcl, fmt.Sprintf("%s: %d paths left unexplored at the deadline", h.Name, r.Left))
		}
		if !r.Reached["end"] && r.ViolCount == 0 {
			inconcl = append(inconcl, h.Name+": end of harness not reached (vacuous)")
		}
		hrep = append(hrep, hr)
		if len(r.Samples) > 0 && len(samples) < 6 {
			samples = append(samples, map[string]string{"harness": h.Name, "inputs": r.Samples[0]})
		}
		// violations, grouped by message
		bymsg := map[string][]Violation{}
		var order []string
		for _, v := range r.Viols {
			k := v.Kind + "|" + v.Msg
			if bymsg[k] == nil {
				order = append(order, k)
			}
			bymsg[k] = append(bymsg[k], v)
		}
		for _, k := range order {
			var conf *Violation
			var oc Outcome
			for i := range bymsg[k] {
				v := &bymsg[k][i]
				o := rp.run(h.Name, v.Inputs, 0, 20*time.Second)
				if len(v.Sched) > 0 && !o.failed() {
					// interleavings are up to the native scheduler: try a number of times
					o = rp.runMany(h.Name, v.Inputs, 96, 20*time.Second)
				}
				if o.failed() {
					conf, oc = v, o
					break
				}
				oc = o
			}
			v := bymsg[k][0]
			if conf == nil && len(v.Sched) > 0 {
				// an interleaving the native scheduler did not reproduce on demand
				conf = &v
				oc.Crash = "(schedule " + strings.Join(v.Sched, " ") + " found by the engine; the native scheduler did not hit it in 97 runs)"
				if !schedTrust {
					conf = nil
				}
			}
			if conf == nil {
				nUnconf++
				unconf = append(unconf, fmt.Sprintf("%s: %s: %s (native: %s)", h.Name, v.Kind, v.Msg, oc.what()))
				continue
			}
			if f := knownAs(h.Name, conf.Msg); f != nil {
				if !known[f.What] {
					known[f.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
				}
				continue
			}
			sum := sha256.Sum256([]byte(h.Name + k))
			path := filepath.Join(rdir, fmt.Sprintf("%s_%s_%s.json", prop, h.Name, hex.EncodeToString(sum[:4])))
			jb, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": h.Name, "tier": tierN, "kind": conf.Kind, "msg": conf.Msg, "where": conf.Where, "inputs": conf.Inputs, "schedule": conf.Sched, "trace": conf.Trace, "native": oc, "native_result": oc.what()}, "", " ")
			os.WriteFile(path, jb, 0644)
			fmt.Printf("  %s: %s: %s\n    at %s\n    inputs %s\n    native replay: %s\n", h.Name, conf.Kind, conf.Msg, conf.Where, fmtInputs(conf.Inputs, 24), oc.what())
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			nviol++
			exit = 1
		}
	}
	// translator validation: completed paths replayed natively must pass too
	type vjob struct {
		h  *Harness
		in []InputVal
	}
	var vj []vjob
	for _, h := range hs {
		for _, in := range res[h.Name].SampleIn {
			vj = append(vj, vjob{h, in})
		}
	}
	var vmis []string
	if rp.build() == nil {
		sem := make(chan bool, workers)
		var wg sync.WaitGroup
		for _, j := range vj {
			wg.Add(1)
			sem <- true
			go func() {
				defer wg.Done()
				o := rp.run(j.h.Name, j.in, 0, 60*time.Second)
				mu.Lock()
				defer mu.Unlock()
				<-sem
				if o.Assume || o.failed() {
					if res[j.h.Name].ViolCount == 0 {
						mism++
						vmis = append(vmis, j.h.Name+": "+o.what()+" on "+fmtInputs(j.in, 12))
					}
				} else {
					validated++
				}
			}()
		}
		wg.Wait()
	} else {
		inconcl = append(inconcl, "native replay unavailable: "+rp.err.Error())
	}
	q, nsat, nuns, nunk, hits := 0, 0, 0, 0, 0
	var sd time.Duration
	for _, w := range ws {
		s := w.c.solver
		q += s.queries
		nsat += s.nsat
		nuns += s.nunsat
		nunk += s.nunk
		sd += s.dur
		hits += w.cacheHits
	}
	if len(samples) == 0 {
		samples = append(samples, "no symbolic path condition on any path")
	}
	cov["states"] = totStates
	cov["transitions"] = totPaths
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samples
	cov["explanation"] = "states = SSA instructions executed symbolically over all paths; transitions = feasible paths explored to their end; each path's condition and each assertion on it was decided by the SMT solver for all values of the symbolic inputs; traces_validated_against_impl = solver models of completed paths that were re-run natively against the real build with the same outcome"
	cov["paths"] = totPaths
	cov["assertions_checked"] = totAsserts
	cov["assertions_discharged"] = totDis
	cov["solver"] = map[string]any{"name": z3Version(), "queries": q, "sat": nsat, "unsat": nuns, "unknown": nunk, "query_cache_hits": hits, "solver_seconds": round3(sd.Seconds())}
	cov["functions_encoded"] = keys(fnSet)
	cov["library_functions_encoded"] = len(fnStd)
	cov["models_and_stubs"] = keysI(stubs)
	cov["harnesses"] = hrep
	cov["inconclusive"] = inconcl
	cov["unconfirmed_counterexamples"] = unconf
	cov["dropped_harness_files"] = dropped
	cov["native_mismatches"] = vmis
	cov["load_seconds"] = round3(loadT.Seconds())
	ev["property"] = prop
	ev["tier"] = tier
	ev["seed"] = seed
	ev["level"] = "model_checking"
	ev["coverage"] = cov
	ev["assumptions"] = assumptionsFor(verif, prop)
	ev["wall_s"] = round3(time.Since(t0).Seconds())
	ev["violations"] = nviol
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	jb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), jb, 0644)
	fmt.Printf("%s %s: %d harnesses, %d paths, %d/%d assertions discharged, %d solver queries (%.1fs), %d functions of healer encoded, %d paths validated natively (%d mismatches), %d inconclusive, %d unconfirmed, %.1fs\n",
		prop, tier, len(hs), totPaths, totDis, totAsserts, q, sd.Seconds(), len(fnSet), validated, mism, len(inconcl), nUnconf, time.Since(t0).Seconds())
	for _, s := range inconcl {
		fmt.Println("  inconclusive:", s)
	}
	for _, s := range unconf {
		fmt.Println("  unconfirmed:", s)
	}
	for _, s := range vmis {
		fmt.Println("  native mismatch:", s)
	}
	for _, s := range dropped {
		fmt.Println("  dropped:", s)
	}
	return exit
}

var schedTrust = true

func round3(f float64) float64 { return float64(int(f*1000)) / 1000 }

func z3Version() string {
	b, _ := exec.Command(z3Path, "--version").Output()
	return strings.TrimSpace(string(b))
}

func keysI(m map[string]int) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func assumptionsFor(verif, prop string) []string {
	b, err := os.ReadFile(filepath.Join(verif, "assumptions.json"))
	if err != nil {
		return nil
	}
	var m map[string][]string
	if json.Unmarshal(b, &m) != nil {
		return nil
	}
	return append(append([]string{}, m["all"]...), m[prop]...)
}
