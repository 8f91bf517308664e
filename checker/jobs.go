package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Job is one independent obligation group.
type Job struct {
	Name string
	Run  func(r *Result)
}

// giveUpAfter is the time after which no further obligations are examined once one is violated.
const giveUpAfter = 400 * time.Second

// knownKeys are the keys of the findings known for the property.
var knownKeys = map[string]bool{}

var jobFilter = os.Getenv("CHK_FILTER")
var jobProgress = os.Getenv("CHK_PROGRESS") != ""

// runJobs runs the jobs in parallel and merges their results in order.
func runJobs(r *Result, jobs []Job) {
	if jobFilter != "" {
		var k []Job
		for _, j := range jobs {
			if strings.Contains(j.Name, jobFilter) {
				k = append(k, j)
			}
		}
		jobs = k
	}
	res := make([]*Result, len(jobs))
	start := time.Now()
	var failed, skipped atomic.Int32
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			rr := newResult(r.Prop)
			res[i] = rr
			if failed.Load() > 0 && time.Since(start) > giveUpAfter {
				// the verdict is settled
				skipped.Add(1)
				return
			}
			t0 := time.Now()
			func() {
				defer func() {
					if x := recover(); x != nil {
						rr.add("internal:"+jobs[i].Name, "", nil, "analysis of %s failed: %v", jobs[i].Name, x)
						if jobProgress {
							panic(x)
						}
					}
				}()
				jobs[i].Run(rr)
			}()
			if jobProgress {
				fmt.Fprintf(os.Stderr, "%8.2fs %8d steps %6d states %d findings  %s\n", time.Since(t0).Seconds(), rr.Steps, rr.States, len(rr.Findings), jobs[i].Name)
			}
			for _, f := range rr.Findings {
				if !knownKeys[f.Key] {
					failed.Add(1)
				}
			}
		}(i)
	}
	wg.Wait()
	if n := skipped.Load(); n > 0 {
		r.Detail = append(r.Detail, fmt.Sprintf("%d obligation groups not examined after a violation was found", n))
	}
	for _, rr := range res {
		r.merge(rr)
	}
}

func (r *Result) merge(x *Result) {
	for _, f := range x.Findings {
		r.addF(f)
	}
	r.Obligations += x.Obligations
	r.Discharged += x.Discharged
	r.Detail = append(r.Detail, x.Detail...)
	for k := range x.Functions {
		r.Functions[k] = true
	}
	for k, v := range x.Instances {
		r.Instances[k] += v
	}
	r.Steps += x.Steps
	r.States += x.States
}

// forkProf counts the undecided branches by position (for development, CHK_PROF=1).
var forkProf func(string)

func init() {
	if os.Getenv("CHK_PROF") == "" {
		return
	}
	var mu sync.Mutex
	n := map[string]int{}
	forkProf = func(p string) {
		mu.Lock()
		defer mu.Unlock()
		n[p]++
		if n[p] == 1 || n[p]%2000 == 0 {
			fmt.Fprintf(os.Stderr, "fork %d %s\n", n[p], p)
		}
	}
}
