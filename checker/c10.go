package main

import (
	"fmt"
	"strings"
)

func init() {
	register("C10", 500, "main is interpreted in validation mode with every other option, every pair of presets and passes, one to three feeds and every position of a failing feed: no pass, no writer and no call creating or changing files is reached, every feed is parsed into an own feed without error-hiding options, and the exit status is 0 exactly if no parse failed.", runC10)
	register("C11", 60, "main is interpreted with failing inputs, malformed option values, failing output and crashing passes: every reachable end has a nonzero exit status, and for input and argument failures no pass and no output is reached before.", runC11)
	register("C19", 60, "main is interpreted with one to twelve feeds, with and without a prefix: all feeds are parsed into the processed feed, with pairwise prefix-free ID prefixes, a single feed without prefix.", runC19)
}

func outputs(end *mainEnd) (r []string) {
	for _, e := range end.events {
		switch e.kind {
		case "create":
			r = append(r, e.detail)
		case "write":
			r = append(r, "Writer.Write")
		}
	}
	return
}

func runC10(P *Program, r *Result, tier string) {
	var jobs []Job
	type sc struct {
		m    *mainScen
		name string
	}
	var scs []sc
	add := func(m *mainScen) { scs = append(scs, sc{m, m.String()}) }
	mk := func(n int, fail int, set ...optDoc) *mainScen {
		m := setScen(append([]optDoc{{"validation-mode", "v", true}}, set...), n)
		m.fail = map[int]bool{}
		if fail >= 0 {
			m.fail[fail] = true
		}
		return m
	}
	for n := 1; n <= 3; n++ {
		for f := -1; f < n; f++ {
			for _, ex := range []bool{true, false} {
				m := mk(n, f)
				m.exists = ex
				add(m)
			}
		}
	}
	for _, o := range allOpts {
		for _, ex := range []bool{true, false} {
			m := mk(1, -1, o)
			m.exists = ex
			add(m)
			m = mk(2, -1, o)
			m.exists = ex
			add(m)
			m = mk(2, 1, o)
			m.exists = ex
			add(m)
			m = mk(2, 0, o)
			m.exists = ex
			add(m)
		}
		for _, p := range []string{"fix", "drop-errs", "default-on-errs", "show-warnings", "prefix", "compress", "Merge"} {
			for _, q := range allOpts {
				if q.name == p {
					m := mk(1, 0, o, q)
					m.exists = false
					add(m)
				}
			}
		}
	}
	r.Instances["command lines"] = len(scs)
	const chunk = 30
	for i := 0; i < len(scs); i += chunk {
		j := min(i+chunk, len(scs))
		part := scs[i:j]
		jobs = append(jobs, Job{fmt.Sprintf("validate %d", i), func(r *Result) {
			for _, c := range part {
				h := runMain(P, r, "C10", c.m)
				for _, end := range h.ends {
					r.Obligations += 5
					bad := len(r.Findings)
					rep := func(what, format string, a ...any) {
						r.add("C10:"+what, "", nil, "main with %s (failing parses %v): %s", c.name, c.m.fail, fmt.Sprintf(format, a...))
					}
					if x := end.runs(); len(x) > 0 {
						rep("pass", "pass %s runs in validation mode", x[0].typ)
					}
					if x := outputs(end); len(x) > 0 {
						rep("output", "%s is reached in validation mode", x[0])
					}
					ps := end.of("parse")
					failed := false
					seen := map[string]bool{}
					for i, p := range ps {
						if c.m.fail[i] {
							failed = true
						}
						s, _ := constStr(p.path)
						seen[s] = true
						for _, q := range ps[:i] {
							if q.feed == p.feed {
								rep("samefeed", "%s is parsed into the feed of another input", s)
							}
						}
						for _, f := range []string{"DropErroneous", "UseDefValueOnError"} {
							if !paramIs(p.fields[f], false) {
								rep("hide:"+f, "%s is parsed with %s = %s, errors would go unnoticed", s, f, p.fields[f])
							}
						}
					}
					if !failed && (!end.known || end.code != 0) {
						rep("exit", "no parse failed, but the exit status is %d", end.code)
					}
					if failed && end.known && end.code == 0 {
						rep("exit", "a parse failed, but the exit status is 0")
					}
					if !end.known {
						rep("exit", "the exit status is not determined by the parse results")
					}
					if end.code == 0 {
						for _, p := range c.m.paths {
							if !seen[p] {
								rep("unread", "the exit status is 0 although %s was not parsed", p)
							}
						}
					}
					if len(r.Findings) == bad {
						r.Discharged += 5
					}
				}
			}
		}})
	}
	runJobs(r, jobs)
}

func runC11(P *Program, r *Result, tier string) {
	type sc struct {
		name   string
		m      *mainScen
		before bool // the failure precedes processing: no pass, no output
	}
	var scs []sc
	add := func(before bool, name string, m *mainScen) {
		if m.files == nil {
			m.withFiles()
		}
		scs = append(scs, sc{name, m, before})
	}
	all := [][]any{nil, {"compress", true}, {"prefix", "x"}, {"keep-ids", true}, {"output", "o.zip"}, {"complete-filtered-trips", true}, {"fix", true}, {"drop-errs", true}, {"show-warnings", true}}
	for _, o := range all {
		for n := 1; n <= 3; n++ {
			for f := 0; f < n; f++ {
				for _, ex := range []bool{true, false} {
					m := scen(n, o...)
					m.exists = ex
					m.fail = map[int]bool{f: true}
					add(true, fmt.Sprintf("input %d of %d fails", f+1, n), m)
				}
			}
		}
		add(true, "no input given", scen(0, o...))
		for _, d := range []string{"", "2020", "2020013x", "20201301", "20200132", "20200100", "20200031", "18991231", "x0200101", "21560101", "ab", "2020-1-1", "202001311", "20200131 "} {
			if d == "" {
				continue
			}
			add(true, "malformed start date "+d, scen(1, append([]any{"date-start", d}, o...)...))
			add(true, "malformed end date "+d, scen(1, append([]any{"date-end", d}, o...)...))
		}
		for _, d := range []string{"x", "1,x", "1.5", "1;2"} {
			add(true, "malformed --keep-mots "+d, scen(1, append([]any{"keep-mots", d}, o...)...))
			add(true, "malformed --drop-mots "+d, scen(1, append([]any{"drop-mots", d}, o...)...))
		}
		for _, d := range []string{"1", "1,2,3", "a,b", "1,b", "1,2,3,c", "47,8,x,9,1,1"} {
			add(true, "malformed polygon "+d, scen(1, append([]any{"polygon", []string{d}}, o...)...))
			add(true, "malformed second polygon "+d, scen(1, append([]any{"polygon", []string{polyFile, d}}, o...)...))
			dd := d
			m := scen(1, append([]any{"polygon-file", []string{"bad.txt"}}, o...)...)
			m.files = map[string]*string{"bad.txt": &dd}
			add(true, "malformed polygon in a file "+d, m)
		}
		for _, d := range []string{"1", "1,2,3", "a,b,c,d", "1,2,3,d", "1,2", "1,2,3,4,5,6"} {
			add(true, "malformed bounding box "+d, scen(1, append([]any{"bounding-box", []string{d}}, o...)...))
			add(true, "malformed second bounding box "+d, scen(1, append([]any{"bounding-box", []string{"47.5,7.5,48.5,8.5", d}}, o...)...))
		}
		for _, f := range []string{"missing.txt", "missing.json", "missing.geojson"} {
			add(true, "unreadable polygon file "+f, scen(1, append([]any{"polygon-file", []string{f}}, o...)...))
		}
		m := scen(1, append([]any{"polygon-file", []string{"poly.json"}}, o...)...)
		m.badJSON = true
		add(true, "malformed GeoJSON file", m)
		for n := 1; n <= 2; n++ {
			m = scen(n, o...)
			m.wrFail = true
			add(false, "writing fails", m)
			m = scen(n, o...)
			m.wrFail, m.exists = true, false
			add(false, "writing a new output fails", m)
			for _, ou := range []string{"out.zip", "outdir"} {
				m = scen(n, append([]any{"output", ou}, o...)...)
				m.mkFail, m.wrFail, m.exists = true, true, false // the writer fails on a path that does not exist
				add(false, "creating the output "+ou+" fails", m)
			}
			m = scen(n, append([]any{"delete-orphans", true, "minimize-ids-num", true, "remove-red-trips", true}, o...)...)
			m.crash = true
			add(false, "a pass crashes", m)
		}
	}
	r.Instances["failures"] = len(scs)
	var jobs []Job
	const chunk = 30
	for i := 0; i < len(scs); i += chunk {
		j := min(i+chunk, len(scs))
		part := scs[i:j]
		jobs = append(jobs, Job{fmt.Sprintf("failure %d", i), func(r *Result) {
			for _, c := range part {
				h := runMain(P, r, "C11", c.m)
				for _, end := range h.ends {
					if c.m.crash && !end.crash {
						continue
					}
					if c.m.mkFail && len(end.of("create")) == 0 {
						continue
					}
					r.Obligations++
					bad := len(r.Findings)
					key := "C11:" + strings.Join(strings.Fields(c.name), "_")
					rep := func(what, format string, a ...any) {
						r.add(key+":"+what, "", h.e.trailText(end.s, 8), "%s (main with %s): %s", c.name, c.m, fmt.Sprintf(format, a...))
					}
					if !end.known || end.code == 0 {
						rep("exit", "the exit status is %d", end.code)
					}
					if c.before {
						if x := end.runs(); len(x) > 0 {
							rep("pass", "pass %s runs nevertheless", x[0].typ)
						}
						if x := outputs(end); len(x) > 0 {
							rep("output", "%s is reached nevertheless", x[0])
						}
					}
					if c.m.crash && len(end.of("write")) > 0 {
						rep("write", "the feed is written although a pass crashed")
					}
					if len(r.Findings) == bad {
						r.Discharged++
					}
				}
			}
		}})
	}
	runJobs(r, jobs)
}

func runC19(P *Program, r *Result, tier string) {
	var jobs []Job
	for _, pre := range []string{"", "x", "1#", "0"} {
		for _, n := range []int{1, 2, 3, 5, 12, 25} {
			for _, o := range [][]any{nil, {"compress", true}, {"keep-ids", true}, {"show-warnings", true}, {"drop-errs", true}, {"minimize-ids-char", true}} {
				m := scen(n, o...).withFiles()
				if pre != "" {
					m.set("prefix", pre)
				}
				pre, n := pre, n
				jobs = append(jobs, Job{m.String(), func(r *Result) {
					h := runMain(P, r, "C19", m)
					for _, end := range h.ends {
						r.Obligations++
						bad := len(r.Findings)
						rep := func(what, format string, a ...any) {
							r.add("C19:"+what, "", nil, "main with %s: %s", m, fmt.Sprintf(format, a...))
						}
						ps := end.of("parse")
						read := map[string]int{}
						var pres []string
						for _, p := range ps {
							s, _ := constStr(p.path)
							read[s]++
							x, ok := constStr(p.prefix)
							if !ok {
								rep("unknown", "the prefix of %s is not determined", s)
							}
							pres = append(pres, x)
							if pre != "" && !strings.HasPrefix(x, pre) {
								rep("prefix", "%s is parsed with ID prefix %q although --prefix %s is given", s, x, pre)
							}
						}
						for _, p := range m.paths {
							if read[p] != 1 {
								rep("read", "%s is parsed %d times", p, read[p])
							}
						}
						for i := range pres {
							for j := range pres {
								if i != j && strings.HasPrefix(pres[j], pres[i]) {
									rep("collide", "the ID prefixes %q and %q of two feeds can make their IDs collide", pres[i], pres[j])
								}
							}
						}
						if n == 1 && pre == "" && len(pres) > 0 && pres[0] != "" {
							rep("single", "a single feed is parsed with ID prefix %q", pres[0])
						}
						for _, w := range end.of("write") {
							for _, p := range ps {
								if p.feed != w.feed {
									rep("feed", "an input is parsed into a feed that is not written")
								}
							}
						}
						if len(end.of("write")) == 0 {
							rep("write", "the feed is not written")
						}
						if len(r.Findings) == bad {
							r.Discharged++
						}
					}
				}})
			}
		}
	}
	r.Instances["command lines"] = len(jobs)
	runJobs(r, jobs)
}
