// Command modesan decides the properties of /verif/properties.jsonl by static analysis of the
// Go source of the repository. Nothing of the repository is executed.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"verif/analyzer/ai"
	"verif/analyzer/checks"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: modesan check|dump ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		fmt.Println(strings.Join(checks.Properties(), "\n"))
	case "gen31":
		gen31()
	case "gen30":
		gen30()
	case "dump":
		dump(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	default:
		os.Exit(2)
	}
}

func check(args []string) (code int) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "property to decide, or a list with commas, or all")
	tier := fs.String("tier", "quick", "quick or thorough")
	repo := fs.String("repo", "/repo", "the repository")
	verif := fs.String("verif", "/verif", "where evidence goes")
	bits := fs.Int("int", 64, "width of int: 64, or 32 (GOARCH=386)")
	verbose := fs.Bool("v", false, "print everything")
	fs.Parse(args)
	props := strings.Split(*prop, ",")
	if *prop == "all" {
		props = checks.Properties()
	}
	passes := []int{*bits}
	if *tier == "thorough" && *bits == 64 {
		passes = append(passes, 32)
	}
	var watched atomic.Pointer[checks.Report]
	go watch(&watched, *tier, *verif, time.Now().Add(time.Duration(len(props))*780*time.Second))
	reports := map[string]*checks.Report{}
	spent := map[string]time.Duration{}
	packages := 0
	for _, n := range passes {
		ai.IntBits = n
		t := time.Now()
		p, err := ai.Load(*repo)
		if err == nil {
			packages = len(p.SP)
		}
		for _, id := range props {
			r := checks.NewReport(id)
			watched.Store(r)
			if err != nil {
				r.Bad(checks.Viol{Key: "load", Rule: "load", Where: *repo, Detail: "the program cannot be loaded: " + err.Error()})
			} else {
				checks.Decide(p, r, *tier == "thorough", filepath.Join(*verif, "known-findings.txt"))
			}
			if first := reports[id]; first != nil {
				first.Add(r, fmt.Sprintf("with %d-bit int", n))
			} else {
				reports[id] = r
			}
			spent[id] += time.Since(t)
			t = time.Now()
		}
	}
	for _, id := range props {
		if finish(reports[id], *tier, *verif, spent[id], packages, *verbose) {
			code = 1
		}
	}
	return code
}

// watch gives up, with a verdict, when an analysis needs more memory or time than there is.
func watch(cur *atomic.Pointer[checks.Report], tier, verif string, deadline time.Time) {
	const most = 20 << 30
	debug.SetMemoryLimit(most / 4 * 3)
	var m runtime.MemStats
	start := time.Now()
	for {
		time.Sleep(300 * time.Millisecond)
		runtime.ReadMemStats(&m)
		why := ""
		if m.Sys-m.HeapReleased > most {
			why = "memory"
		} else if time.Now().After(deadline) {
			why = "time"
		}
		if r := cur.Load(); why != "" && r != nil {
			r.Bad(checks.Viol{Key: "undecided|" + why, Rule: "undecided", Where: r.Prop, Detail: "the analysis stopped: it needs more " + why + " than it may take"})
			r.Close()
			finish(r, tier, verif, time.Since(start), 0, false)
			os.Exit(1)
		}
	}
}

func finish(r *checks.Report, tier, verif string, wall time.Duration, pk int, verbose bool) bool {
	id := r.Prop
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	vs := r.Sorted()
	for _, k := range r.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(ev, 0o755)
	replay := filepath.Join(ev, id+".replay.txt")
	var sb strings.Builder
	for _, v := range vs {
		fmt.Fprintf(&sb, "rule %s\n  at %s\n  %s\n  example %s\n  key %s\n", v.Rule, v.Where, v.Detail, v.Witness, v.Key)
	}
	os.Remove(replay)
	if len(vs) > 0 {
		if os.WriteFile(replay, []byte(strings.ToValidUTF8(sb.String(), "?")), 0o644) != nil {
			replay = "-"
		}
		n := len(vs)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		fmt.Printf("%s: %d violated obligations\n", id, n)
		s := sb.String()
		if len(s) > 12000 && !verbose {
			s = s[:12000] + "...\n"
		}
		s = strings.ToValidUTF8(s, "?")
		fmt.Print(s)
	}
	var fns []string
	for f := range r.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"explanation":         checks.Explain(id),
		"obligations":         r.Obl,
		"discharged":          r.Done,
		"obligations_by_rule": r.Rules,
		"counts":              r.Counts,
		"packages_loaded":     pk,
		"functions_analysed":  len(fns),
		"functions":           fns,
		"samples":             r.Samples,
		"checker_cmd":         "bash /verif/check.sh " + id,
		"trusted_base":        []string{"Go type checker and golang.org/x/tools/go/ssa", "the abstract transfer functions of /verif/analyzer/ai (Go semantics of the used subset and of the listed standard library functions)", "the reviewed tables of /verif/analyzer/checks"},
	}
	if len(r.Known) > 0 {
		cov["known_findings"] = r.Known
	}
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": float64(wall.Milliseconds()) / 1000, "violations": len(vs),
		"assumptions": checks.Assumptions(id),
	}, "", " ")
	if err := os.WriteFile(filepath.Join(ev, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write the evidence:", err)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %d packages, %.2f s\n", id, r.Obl, r.Done, len(fns), pk, wall.Seconds())
	return len(vs) > 0
}
