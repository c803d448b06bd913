package main

import (
	"fmt"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// The "together" suites run cases of other suites at the same time in several goroutines, each with documents of its
// own. What a case does must not depend on the others. (The files are initialised in the order of their names.)

var notTogether = map[string]bool{
	"twins": true, // counts on all goroutines
	"long":  true, "large": true, "leaks": true, "aged": true, "seasons": true, "volume": true, "histories P19": true,
}

func togetherSuites(id string) (res []*Suite) {
	p := props[id]
	for i := range p.Suites {
		s := &p.Suites[i]
		if !heavy[s.Name] && !s.Solo && s.Quick >= 1000 && !notTogether[s.Name] && s.Name != "together" {
			res = append(res, s)
		}
	}
	return res
}

func init() {
	all := []string{"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P21", "P22", "P23", "P24", "P25"}
	for _, id := range all {
		p := props[id]
		run := func(c *Case) { togetherRun(c, []string{id}) }
		p.Suites = append(p.Suites, Suite{Name: "together", Quick: 64, Thorough: 3000, Run: run})
		p.Need = append(p.Need, "together")
		p.Rule += "; some cases of these at the same time in up to 8 goroutines"
	}
	p := props["P18"]
	p.Suites = append(p.Suites, Suite{Name: "together", Quick: 1600, Thorough: 20000, Variants: []string{"plain", "race"}, Run: func(c *Case) { togetherRun(c, all) }})
	p.Need = append(p.Need, "together")
	p.Rule += "; cases of the suites of the other properties at the same time in up to 8 goroutines"
}

func togetherRun(c *Case, ids []string) {
	r := c.R
	n := 2 + r.Intn(7)
	steps := 24
	if c.W.variant == "race" {
		steps = 8
	}
	own := len(ids) == 1
	type job struct {
		p    *Prop
		s    *Suite
		idx  int
		seed int64
	}
	pick := func() job {
		for {
			id := ids[r.Intn(len(ids))]
			ss := togetherSuites(id)
			if len(ss) == 0 {
				continue
			}
			s := ss[r.Intn(len(ss))]
			return job{props[id], s, r.Intn(s.Quick), r.Int63()}
		}
	}
	if own && len(togetherSuites(ids[0])) == 0 {
		return
	}
	// all at the same job, or each at its own
	same := r.Intn(3) == 0
	jobs := make([][]job, n)
	for k := 0; k < steps; k++ {
		j := pick()
		for g := range jobs {
			if !same {
				j = pick()
			}
			jobs[g] = append(jobs[g], j)
		}
	}
	// run does a job; its counts are not those of this property
	run := func(c *Case, j job, alone bool) (failed string) {
		w := &Worker{prop: j.p, seed: c.W.seed, tier: c.W.tier, variant: c.W.variant, known: c.W.known, distinct: map[uint64]struct{}{}}
		w.res.Counters = map[string]int64{}
		k := &Case{R: newRand(j.seed), W: w, Suite: j.s.Name, Index: j.idx}
		defer func() {
			if e := recover(); e != nil {
				if x, ok := e.(caseFail); ok {
					failed = x.msg
				} else {
					failed = fmt.Sprintf("panic: %v", e)
				}
				failed = trunc(string(k.note), 800) + ": " + failed
			}
		}()
		j.s.Run(k)
		return ""
	}
	c.Note("%d goroutines at %d cases each, the same: %v", n, steps, same)
	type failure struct {
		j    job
		what string
	}
	fails := make([][]failure, n)
	c.parallel(n, func(c *Case, g int) {
		for _, j := range jobs[g] {
			if f := run(c, j, false); f != "" {
				fails[g] = append(fails[g], failure{j, f})
			}
			c.Eval(1)
			c.Hit("together")
		}
	})
	for g, fs := range fails {
		for _, f := range fs {
			if !own {
				// what fails alone as well is for the check of that property to tell
				if alone := run(c, f.j, true); alone != "" {
					continue
				}
			}
			c.Fail("goroutine %d, %s %s %d with others at work: %s", g, f.j.p.ID, f.j.s.Name, f.j.idx, f.what)
		}
	}
	var names []string
	for _, js := range jobs {
		for _, j := range js {
			names = append(names, j.p.ID+j.s.Name)
		}
	}
	c.Distinct(strings.Join(names, " "))
	jv.ResetDefaultMarshalOptions()
}
