package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

var repoDir = "/repo"
var verifDir = "/verif"

func main() {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		repoDir = r
	}
	if r := os.Getenv("VERIF_DIR"); r != "" {
		verifDir = r
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: govc check PROP | verify KEY... | dump KEY")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(os.Args[2]))
	case "verify":
		devVerify(os.Args[2:])
	case "dump":
		P, err := loadProgram(repoDir)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, k := range os.Args[2:] {
			if fn := P.funcs[k]; fn != nil {
				fn.WriteTo(os.Stdout)
			}
		}
	case "names": // writes contracts/names.txt
		pkgs, _, err := loadPkgs(repoDir)
		if err == nil {
			err = writeNames(pkgs)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	case "funcs":
		P, err := loadProgram(repoDir)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, k := range sortedKeys(P.funcs) {
			fmt.Println(k)
		}
	}
}

func devVerify(keys []string) {
	P, err := loadProgram(repoDir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	sp := loadSpecs(verifDir + "/contracts")
	P.analyseMutation(sp.singles)
	x := newExec(P, sp)
	x.declareFns()
	if len(keys) == 0 {
		keys = sp.order
		for l := range sp.lemmas {
			keys = append(keys, "lemma "+l)
		}
		for l, f := range sp.fns {
			if f.rec && f.body != nil {
				keys = append(keys, "spec "+l)
			}
		}
	}
	bad := 0
	for _, k := range keys {
		if strings.HasSuffix(k, "*") {
			for _, o := range sp.order {
				if strings.HasPrefix(o, k[:len(k)-1]) {
					bad += devOne(x, o)
				}
			}
			continue
		}
		bad += devOne(x, k)
	}
	fmt.Printf("%d failed obligations; solver %.1fs over %d calls\n", bad, float64(solverTime)/1e9, solverCalls)
}

func devOne(x *Exec, k string) int {
	t0 := time.Now()
	var r *FnResult
	if strings.HasPrefix(k, "lemma ") {
		r = x.verifyLemma(k[6:])
	} else if strings.HasPrefix(k, "spec ") {
		r = x.verifyFnDef(k[5:])
	} else {
		if x.specs.contracts[k] == nil {
			fmt.Println("no contract", k)
			return 1
		}
		r = x.verifyFn(k)
	}
	if r.missing {
		fmt.Printf("%-60s MISSING\n", k)
		return 1
	}
	r.v.wait()
	f := r.v.failed()
	fmt.Printf("%-60s %3d obligations, %d failed, %d paths, %.1fs %v\n", k, len(r.v.obs), len(f), r.paths, time.Since(t0).Seconds(), r.v.loops)
	if verbose {
		for _, o := range r.v.obs {
			if o.Secs > 1.5 {
				fmt.Printf("   slow %s: %s %.1fs %s %s\n", o.Kind, o.Name, o.Secs, o.By, trunc(fmt.Sprint(o.goal), 300))
			}
		}
	}
	for i, o := range f {
		if i > 8 {
			break
		}
		fmt.Printf("   FAILED %s: %s at %s: %s\n", o.Kind, o.Name, o.Pos, trunc(o.Out, 300))
		if verbose {
			for _, p := range o.sassume {
				fmt.Println("      |", trunc(p.String(), 300))
			}
			if o.goal != nil {
				fmt.Println("      goal", trunc(o.sgoal.String(), 2500))
			}
		}
	}
	return len(f)
}
