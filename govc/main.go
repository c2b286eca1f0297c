package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: govc vc|check <property|all|func KEY> ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "vc":
		os.Exit(devVC(os.Args[2:]))
	case "check":
		os.Exit(check(os.Args[2], os.Args[3:]))
	}
}

func specDir() string {
	if d := os.Getenv("GOVC_SPECS"); d != "" {
		return d
	}
	return "/verif/specs"
}

// devVC: govc vc PROP [filter]   or   govc vc =KEY[@aspect] [filter]
func devVC(args []string) int {
	t0 := time.Now()
	if d := os.Getenv("GOVC_REPO"); d != "" {
		repoDir = d
	}
	if os.Getenv("GOVC_NOCACHE") == "" {
		cacheDir = "/tmp/govc-cache"
		os.MkdirAll(cacheDir, 0o755)
	}
	quickFail = os.Getenv("GOVC_QUICK") != ""
	P, err := loadRepo(repoDir, nil)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	t1 := time.Now()
	S, err := loadSpecs(specDir())
	if err != nil {
		fmt.Println(err)
		return 1
	}
	C := newCtx(P, S)
	if strings.HasPrefix(args[0], "=") {
		n := args[0][1:]
		for _, sp := range S.order {
			if (specID(sp) == n || strings.HasSuffix(n, "*") && strings.HasPrefix(specID(sp), n[:len(n)-1])) && !sp.extern && !sp.trusted && !sp.inline {
				C.verify(sp)
			}
		}
		if l, ok := S.lemmas[n]; ok {
			C.verifyLemma(l)
		}
	} else {
		C.generate(args[0])
	}
	t2 := time.Now()
	obls := C.obls
	if len(args) > 1 {
		var sel []*Obl
		for _, o := range obls {
			if strings.Contains(o.name, args[1]) {
				sel = append(sel, o)
			}
		}
		obls = sel
	}
	C.solveAll(obls, 20*time.Minute)
	t3 := time.Now()
	ok, bad := 0, 0
	by := map[string]int{}
	for _, o := range obls {
		if o.status == "proved" {
			ok++
			by[o.solver]++
			if o.secs > 2 {
				fmt.Printf("slow %.1fs %s (%s)\n", o.secs, o.name, o.solver)
			}
			continue
		}
		bad++
		fmt.Printf("FAIL %s at %s: %s\n", o.name, o.pos, o.out)
		if d := os.Getenv("GOVC_DUMP"); d != "" && o.query != "" {
			os.MkdirAll(d, 0o755)
			nm := strings.Map(func(r rune) rune {
				if r == '/' || r == ' ' || r == '(' || r == ')' || r == '*' || r == '#' || r == ':' {
					return '_'
				}
				return r
			}, o.name)
			os.WriteFile(filepath.Join(d, nm+".smt2"), []byte(z3opts+o.query+"(check-sat)\n(get-info :reason-unknown)\n"), 0o644)
		}
	}
	var ns []string
	for n := range C.notes {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	if os.Getenv("GOVC_NOTES") != "" {
		for _, n := range ns {
			fmt.Println("note:", n)
		}
	}
	fmt.Printf("obligations %d proved %d failed %d  by %v  load %.1fs gen %.1fs solve %.1fs\n", len(obls), ok, bad, by, t1.Sub(t0).Seconds(), t2.Sub(t1).Seconds(), t3.Sub(t2).Seconds())
	if bad > 0 {
		return 1
	}
	return 0
}
