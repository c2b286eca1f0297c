package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode"
)

// ---------- known findings ----------

type finding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func loadFindings(root string) (out []finding) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		if ln == "" || strings.HasPrefix(ln, "#") {
			continue
		}
		var f finding
		if json.Unmarshal([]byte(ln), &f) == nil {
			out = append(out, f)
		}
	}
	return
}

// ---------- the replay harness: the real code under an oracle ----------

type harnessResult struct {
	ran      bool
	compiled bool
	evals    int
	distinct int
	fails    []string
	known    map[string]string
	samples  []string
	rule     string
	out      string
	secs     float64
	note     string
}

// runHarness overlays /verif/harness/<prop>/** on the repository and runs it.
// A file  harness/C04/pkg/x/y.go.txt  appears as  /repo/pkg/x/y.go.
func runHarness(root, repo, prop, tier, seed string) *harnessResult {
	r := &harnessResult{known: map[string]string{}}
	dir := filepath.Join(root, "harness", prop)
	if _, err := os.Stat(dir); err != nil {
		return r
	}
	rep := map[string]string{}
	pkgs := map[string]bool{}
	add := func(base string, run bool) {
		filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go.txt") {
				return nil
			}
			rel, _ := filepath.Rel(base, strings.TrimSuffix(p, ".txt"))
			rep[filepath.Join(repo, rel)] = p
			if run && strings.HasSuffix(rel, "_test.go") {
				pkgs["./"+filepath.Dir(rel)] = true
			}
			return nil
		})
	}
	add(filepath.Join(root, "harness", "common"), false)
	add(dir, true)
	tmp, err := os.MkdirTemp("", "verif-harness-")
	if err != nil {
		r.note = err.Error()
		return r
	}
	defer os.RemoveAll(tmp)
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	var ps []string
	for p := range pkgs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	to := 150
	if tier == "thorough" {
		to = 500
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(to+100)*time.Second)
	defer cancel()
	scratch := filepath.Join(tmp, "scratch")
	os.MkdirAll(scratch, 0o777)
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "VERIF_SEED="+seed, "VERIF_TIER="+tier, "TMPDIR="+scratch, "VERIF_TMP="+scratch)
	var buf bytes.Buffer
	run := func(dir string, name string, args ...string) error {
		cmd := exec.CommandContext(ctx, name, args...)
		cmd.Dir = dir
		cmd.Env = env
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		cmd.Stdout, cmd.Stderr = &buf, &buf
		return cmd.Run()
	}
	t0 := time.Now()
	r.ran = true
	r.compiled = true
	for i, p := range ps {
		bin := filepath.Join(tmp, fmt.Sprintf("h%d.test", i))
		if e := run(repo, "go", "test", "-c", "-overlay", ovf, "-vet=off", "-o", bin, p); e != nil {
			r.compiled = false
			err = e
			continue
		}
		if e := run(scratch, bin, "-test.run", "^TestVerif"+prop, fmt.Sprintf("-test.timeout=%ds", to), "-test.v"); e != nil {
			err = e
		}
	}
	r.secs = time.Since(t0).Seconds()
	r.out = buf.String()
	last := ""
	started := false
	for _, ln := range strings.Split(r.out, "\n") {
		ln = strings.TrimSpace(ln)
		switch {
		case strings.HasPrefix(ln, "VERIF-FAIL "):
			r.fails = append(r.fails, ln[11:])
		case strings.HasPrefix(ln, "VERIF-KNOWN "):
			f := strings.SplitN(ln[12:], " ", 2)
			if len(f) < 2 {
				f = append(f, "")
			}
			r.known[f[0]] = f[1]
		case strings.HasPrefix(ln, "VERIF-EVALS "):
			f := strings.Fields(ln[12:])
			if len(f) == 2 {
				a, _ := strconv.Atoi(f[0])
				b, _ := strconv.Atoi(f[1])
				r.evals += a
				r.distinct += b
			}
		case strings.HasPrefix(ln, "VERIF-SAMPLE "):
			if len(r.samples) < 6 {
				r.samples = append(r.samples, ln[13:])
			}
		case strings.HasPrefix(ln, "VERIF-RULE "):
			r.rule += ln[11:] + " "
		case strings.HasPrefix(ln, "VERIF-CASE "):
			last = ln[11:]
		case strings.HasPrefix(ln, "=== RUN"):
			started = true
		}
	}
	if r.compiled && err != nil && len(r.fails) == 0 && started {
		// the process died: a panic outside a guarded case, or no end in sight
		if i := strings.Index(r.out, "panic: test timed out"); i >= 0 || ctx.Err() != nil {
			r.fails = append(r.fails, "the code did not terminate in time; last case started: "+last)
		} else if i := strings.Index(r.out, "\npanic: "); i >= 0 {
			r.fails = append(r.fails, firstLine(r.out[i+1:])+"; last case started: "+last)
		} else if i := strings.Index(r.out, "fatal error: "); i >= 0 {
			r.fails = append(r.fails, firstLine(r.out[i:])+"; last case started: "+last)
		} else if strings.Contains(r.out, "--- FAIL") {
			r.fails = append(r.fails, "harness failed: "+tail(r.out, 400))
		} else {
			r.note = "harness ended abnormally: " + err.Error()
		}
	}
	return r
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func rootDir() string {
	if d := os.Getenv("GOVC_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

// check decides one property on the current tree of /repo.
func check(prop string, args []string) int {
	t0 := time.Now()
	root := rootDir()
	if d := os.Getenv("GOVC_REPO"); d != "" {
		repoDir = d
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	for _, a := range args {
		if a == "--thorough" {
			tier = "thorough"
		}
	}
	seedS := os.Getenv("VERIF_SEED")
	if seedS == "" {
		seedS = "1"
	}
	seed, _ := strconv.Atoi(seedS)
	S, err := loadSpecs(filepath.Join(root, "specs"))
	if err != nil {
		fmt.Println("specification error:", err)
		return 2
	}
	// the real code under its oracle runs alongside the proof
	hc := make(chan *harnessResult, 1)
	go func() {
		h := runHarness(root, repoDir, prop, tier, seedS)
		if len(h.fails) > 0 {
			// a failing input decides the matter: the proof need not be completed
			stopBy(time.Now().Add(60 * time.Second))
		}
		hc <- h
	}()

	var C *Ctx
	var obls []*Obl
	var done []string
	P, err := loadRepo(repoDir, nil)
	if err != nil {
		obls = append(obls, &Obl{fn: "load", name: "load/" + prop, status: "failed", out: "the repository does not load: " + err.Error()})
	} else {
		C = newCtx(P, S)
		done = C.generate(prop)
		obls = C.obls
	}
	genS := time.Since(t0).Seconds()
	t1 := time.Now()
	budget := 420 * time.Second
	if tier == "thorough" {
		budget = 3000 * time.Second
		thorough = true
	}
	if C != nil {
		C.solveAll(obls, budget)
		C.retry(obls)
	}
	solveS := time.Since(t1).Seconds()
	h := <-hc

	nObl, nOK, nCover, coverBad := 0, 0, 0, 0
	by := map[string]int{}
	perFn := map[string][2]int{}
	var failed []*Obl
	var coverNotes []string
	secs := 0.0
	for _, o := range obls {
		secs += o.secs
		if o.cover {
			nCover++
			if o.status == "failed" {
				coverBad++
				coverNotes = append(coverNotes, o.name+": "+o.out)
			}
			continue
		}
		nObl++
		c := perFn[o.fn]
		c[0]++
		if o.status == "proved" {
			nOK++
			by[o.solver]++
			c[1]++
		} else {
			failed = append(failed, o)
		}
		perFn[o.fn] = c
	}

	// known findings
	kf := map[string]finding{}
	for _, f := range loadFindings(root) {
		if f.Property == prop && f.Status == "known" {
			kf[f.ID] = f
		}
	}
	var kids []string
	for id := range kf {
		kids = append(kids, id)
	}
	sort.Strings(kids)
	fails := append([]string{}, h.fails...)
	for id, what := range h.known {
		if _, ok := kf[id]; !ok {
			fails = append(fails, id+" "+what)
		}
	}
	for _, id := range kids {
		if w, ok := h.known[id]; ok || !h.ran || !h.compiled {
			if w == "" {
				w = kf[id].What
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, id, w)
		}
	}

	violations := 0
	if len(failed) > 0 || len(fails) > 0 {
		violations = len(failed) + len(fails)
		rp := filepath.Join(root, "replays", prop+".txt")
		os.MkdirAll(filepath.Dir(rp), 0o755)
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n\n", prop)
		if len(fails) > 0 {
			fmt.Fprintf(&sb, "Failing inputs on the real code (harness /verif/harness/%s, deterministic for VERIF_SEED=%s):\n", prop, seedS)
			for i, f := range fails {
				if i == 20 {
					fmt.Fprintf(&sb, "  ... and %d more\n", len(fails)-20)
					break
				}
				sb.WriteString("  " + f + "\n")
			}
			fmt.Fprintf(&sb, "rerun: cd %s && ./run.sh %s\n\n", root, prop)
		} else {
			sb.WriteString("No failing input was found on the real code.\n")
			if !h.compiled && h.ran {
				sb.WriteString("(the harness does not compile against this tree)\n" + tail(h.out, 2000) + "\n")
			}
			sb.WriteString("\n")
		}
		if len(failed) > 0 {
			sb.WriteString("Obligations the verifier does not discharge:\n")
			for i, o := range failed {
				if i == 60 {
					fmt.Fprintf(&sb, "  ... and %d more\n", len(failed)-60)
					break
				}
				fmt.Fprintf(&sb, "  %s\n    at %s\n    %s\n", o.name, o.pos, o.out)
			}
		}
		if len(fails) > 0 && h.out != "" {
			sb.WriteString("\nHarness output (tail):\n" + tail(h.out, 6000) + "\n")
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		shown := 0
		for _, o := range failed {
			if shown < 10 {
				fmt.Printf("failed obligation: %s at %s\n", o.name, o.pos)
			}
			shown++
		}
		for i, f := range fails {
			if i < 5 {
				fmt.Println("failing input:", printable(f))
			}
		}
		if len(fails) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
		}
	}

	// evidence
	var fnames []string
	for f, c := range perFn {
		fnames = append(fnames, fmt.Sprintf("%s: %d/%d", f, c[1], c[0]))
	}
	sort.Strings(fnames)
	var trusted, assumptions, notes, relied []string
	lemmasUsed := []string{}
	if C != nil {
		for a := range C.assumed {
			trusted = append(trusted, a)
		}
		for a := range C.notes {
			if strings.HasPrefix(a, "lemma ") {
				lemmasUsed = append(lemmasUsed, a[6:])
			} else {
				notes = append(notes, a)
			}
		}
		inDone := map[string]bool{}
		for _, d := range done {
			inDone[d] = true
		}
		for k, sp := range C.used {
			if !inDone[k] {
				relied = append(relied, k+" (discharged by "+strings.Join(sp.props, ", ")+")")
			}
		}
	}
	sort.Strings(trusted)
	sort.Strings(notes)
	sort.Strings(relied)
	trusted = append([]string{"the verifier /verif/govc (translation of Go SSA to verification conditions)", "golang.org/x/tools/go/ssa", "z3, cvc5"}, trusted...)
	assumptions = append(assumptions, baseAssumptions...)
	assumptions = append(assumptions, notes...)
	solverS := map[string]float64{}
	for k, v := range solverTime {
		solverS[k] = float64(int(v*100)) / 100
	}
	lvl := "proof"
	cov := map[string]any{
		"obligations": nObl, "discharged": nOK,
		"checker_cmd":              "cd /verif && ./run.sh " + prop,
		"trusted_base":             trusted,
		"functions_under_contract": done,
		"obligations_by_function":  fnames,
		"discharged_by":            by,
		"solver_seconds":           solverS,
		"solver_seconds_total":     float64(int(secs*100)) / 100,
		"generation_seconds":       float64(int(genS*100)) / 100,
		"solving_wall_seconds":     float64(int(solveS*100)) / 100,
		"vacuity_covers":           nCover,
		"vacuity_covers_refuted":   coverBad,
		"contracts_relied_on":      relied,
		"lemmas_instantiated":      lemmasUsed,
		"workers":                  runtime.NumCPU(),
	}
	if h.ran {
		cov["bounded_companion"] = map[string]any{
			"what":        "the real code run under an executable oracle of the same property: replay of failed obligations, and a bounded check of the functions not under contract; never counted as proved",
			"evaluations": h.evals, "distinct_nontrivial": h.distinct, "rule": strings.TrimSpace(h.rule), "samples": h.samples,
			"compiled": h.compiled, "seconds": float64(int(h.secs*100)) / 100, "failing_inputs": len(fails), "note": h.note,
		}
	}
	if len(coverNotes) > 0 {
		cov["vacuity_notes"] = coverNotes
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": lvl, "coverage": cov, "assumptions": assumptions,
		"wall_s": float64(int(time.Since(t0).Seconds()*100)) / 100, "violations": violations}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d/%d obligations discharged (%v), %d functions and lemmas, %d covers (%d refuted); harness ran=%v compiled=%v evals=%d fails=%d; %.1fs\n",
		prop, nOK, nObl, by, len(done), nCover, coverBad, h.ran, h.compiled, h.evals, len(fails), time.Since(t0).Seconds())
	if os.Getenv("GOVC_HOUT") != "" {
		fmt.Println(h.out)
	}
	if h.note != "" {
		fmt.Println("harness note:", h.note)
	}
	for _, n := range coverNotes {
		fmt.Println("cover:", n)
	}
	if violations > 0 {
		return 1
	}
	return 0
}

var thorough = false

var baseAssumptions = []string{
	"partial correctness: termination is not proved",
	"machine integers are bounded exactly (wrap-around and overflow obligations are part of the conditions); floating point is uninterpreted except for bit conversions",
	"slices are shorter than 2^47 elements; no data race: each function runs alone on its data",
	"the store (io.ReadWriteSeeker) behaves as its contract in specs/00_std.spec: a byte array with a cursor whose reads are full reads",
	"byte slices that have become keys are not modified afterwards by their owner",
}

// printable replaces what a terminal or a line filter might not take as text.
func printable(s string) string {
	var b strings.Builder
	for _, r := range strings.ToValidUTF8(s, "?") {
		if r == '\n' || unicode.IsPrint(r) {
			b.WriteRune(r)
		} else {
			fmt.Fprintf(&b, "\\u%04x", r)
		}
	}
	return b.String()
}
