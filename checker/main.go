package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// checkDef is one registered check.
type checkDef struct {
	run   func(P *Program, r *Result, tier string)
	rule  string
	floor int // fewest obligations the check must have posed
}

var checks = map[string]checkDef{}

func register(id string, floor int, rule string, run func(P *Program, r *Result, tier string)) {
	checks[id] = checkDef{run, rule, floor}
}

// known findings: "known: property=<id> key=<key> :: <what fails>"
func readKnown(path, prop string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		pre := "known: property=" + prop + " key="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		rest := strings.TrimPrefix(l, pre)
		i := strings.Index(rest, " :: ")
		if i < 0 {
			continue
		}
		m[rest[:i]] = rest[i+4:]
	}
	return m
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int("seed", 0, "recorded only; the analysis makes no random choice")
	evDir := flag.String("evidence", "/verif/evidence", "evidence directory")
	known := flag.String("known", "/verif/known_findings.txt", "known findings")
	verbose := flag.Bool("v", false, "print details")
	flag.Parse()
	go watchMemory()
	t0 := time.Now()
	r := newResult(*prop)
	def, ok := checks[*prop]
	if !ok {
		fmt.Printf("no check for property %s\n", *prop)
		os.Exit(2)
	}
	if *tier == "thorough" {
		defaultDeadline *= 4
		defaultMaxSteps *= 4
	}
	kn := readKnown(*known, *prop)
	for k := range kn {
		knownKeys[k] = true
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if jobProgress {
					panic(x)
				}
				r.add("internal", "", nil, "the analysis itself failed: %v", x)
			}
		}()
		P, err := loadProgram()
		if err != nil {
			r.add("load", "", nil, "the program could not be loaded and type-checked: %v", err)
			return
		}
		def.run(P, r, *tier)
		if jobFilter == "" && r.Obligations < def.floor {
			r.add("floor", "", nil, "only %d obligations were posed, at least %d expected: the analysed constructs are gone", r.Obligations, def.floor)
		}
	}()
	var viol []Finding
	nk := 0
	sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Key < r.Findings[j].Key })
	for _, f := range r.Findings {
		if d, ok := kn[f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", *prop, d, f.Key)
			nk++
			continue
		}
		viol = append(viol, f)
	}
	os.MkdirAll(*evDir, 0o755)
	rep := filepath.Join(*evDir, *prop+".report.txt")
	var b strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&b, "%s\n  rule/construct: %s\n", f.Msg, f.Key)
		if f.Pos != "" {
			fmt.Fprintf(&b, "  at: %s\n", f.Pos)
		}
		for _, t := range f.Trail {
			fmt.Fprintf(&b, "    path: %s\n", t)
		}
	}
	os.WriteFile(rep, []byte(b.String()), 0o644)
	if *verbose {
		for _, d := range r.Detail {
			fmt.Println(d)
		}
	}
	fmt.Printf("%s (%s): %d obligations, %d discharged, %d known findings, %d violations; %d functions, %d abstract steps, %d abstract states, %.1fs\n",
		*prop, *tier, r.Obligations, r.Discharged, nk, len(viol), len(r.Functions), r.Steps, r.States, time.Since(t0).Seconds())
	writeEvidence(filepath.Join(*evDir, *prop+".json"), r, def, *tier, *seed, len(viol), nk, time.Since(t0).Seconds())
	if len(viol) > 0 {
		fmt.Print(b.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rep)
		os.Exit(1)
	}
}

func writeEvidence(path string, r *Result, def checkDef, tier string, seed, viol, nk int, wall float64) {
	var fns []string
	for f := range r.Functions {
		if strings.Contains(f, "gtfstidy") {
			fns = append(fns, f)
		}
	}
	sort.Strings(fns)
	samples := r.Detail
	if len(samples) > 12 {
		step := len(samples) / 12
		var s []string
		for i := 0; i < len(samples); i += step {
			s = append(s, samples[i])
		}
		samples = s
	}
	ev := map[string]any{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other", "wall_s": wall, "violations": viol,
		"coverage": map[string]any{
			"explanation":        def.rule,
			"obligations":        r.Obligations,
			"discharged":         r.Discharged,
			"known_findings":     nk,
			"instances":          r.Instances,
			"functions_analysed": fns,
			"abstract_steps":     r.Steps,
			"abstract_states":    r.States,
			"samples":            samples,
			"checker_cmd":        fmt.Sprintf("bash /verif/check.sh %s %s", r.Prop, tier),
		},
		"assumptions": []string{"models of the standard library and of gtfsparser calls as listed in DESIGN.md", "Go semantics as implemented by golang.org/x/tools/go/ssa"},
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(path, append(j, '\n'), 0o644)
}
