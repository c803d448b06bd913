package main

import (
	"bytes"
	"runtime"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// What the library remembers from one parse to the next (estimates, counters, pools, caches) is driven far to one side
// by a season of texts of one kind, and then ordinary texts have to be parsed as ever, within the usual memory.

type season struct {
	name  string
	texts func(c *Case, round int) []byte // the same slice may be returned every time
	n     int
	ok    int // 1: accepted, 0: rejected, -1: either
}

func filled(n int, open, with, end string) []byte {
	b := make([]byte, 0, n+len(open)+len(end)+len(with))
	b = append(b, open...)
	for len(b) < n {
		b = append(b, with...)
	}
	return append(b, end...)
}

var seasons = []season{
	{"one long string each", func() func(*Case, int) []byte {
		var b []byte
		return func(c *Case, round int) []byte {
			if round == 0 {
				b = filled(16<<20, `"`, "some text and more of it ", `"`)
			}
			if round == 149 {
				defer func() { b = nil }()
			}
			return b
		}
	}(), 150, 1},
	{"one value in many blanks", func() func(*Case, int) []byte {
		var b []byte
		return func(c *Case, round int) []byte {
			if round == 0 {
				b = filled(16<<20, `{"a":`, " \t\n\r", `1}`)
			}
			if round == 149 {
				defer func() { b = nil }()
			}
			return b
		}
	}(), 150, 1},
	{"arrays never closed", func(c *Case, round int) []byte {
		return bytes.Repeat([]byte("["), 99990+round%10)
	}, 130, 0},
	{"objects never closed", func(c *Case, round int) []byte {
		return bytes.Repeat([]byte(`{"a":`), 99990)
	}, 130, 0},
	{"arrays of objects, wrong at the bottom", func(c *Case, round int) []byte {
		return []byte(strings.Repeat(`[{"k":`, 49000) + []string{"x", "tru", "01", `"`, `"\u12"`, "-", "}", "1e999", `"` + "\xff" + `"`}[round%9] + strings.Repeat("}]", 49000))
	}, 90, 0},
	{"too deep", func(c *Case, round int) []byte {
		return []byte(strings.Repeat("[", 100001+round) + strings.Repeat("]", 100001+round))
	}, 100, 0},
	{"deep and right", func(c *Case, round int) []byte {
		return []byte(strings.Repeat(`[{"k":`, 49000) + "1" + strings.Repeat("}]", 49000))
	}, 40, 1},
	{"as many values as bytes", func(c *Case, round int) []byte {
		return filled(1<<20, "[[]", ",[]", "]")
	}, 30, 1},
	{"no values but commas", func(c *Case, round int) []byte {
		return filled(1<<20, "[", ",", "]")
	}, 60, 1},
	{"small texts, all wrong", func(c *Case, round int) []byte {
		t := []string{"x", "[", "{", `{"a"`, `{"a":`, `[1`, `"`, `"\`, "tru", "nul", "-", "1 2", "[}", "{]", `{1:2}`, `"\ud800"`, "[1e999]", `{"a":{"b":[`, `[[[[[`, "\xff"}
		return []byte(t[c.R.Intn(len(t))])
	}, 300000, 0},
	{"small texts, all right", func(c *Case, round int) []byte {
		t := []string{"1", "[]", "{}", `{"a":1}`, `"a"`, `[1,2,3]`, "null", "true", `{"a":{"b":[]}}`, "-1.5e3", `"\u00e9"`}
		return []byte(t[c.R.Intn(len(t))])
	}, 300000, 1},
}

func runSeason(c *Case) {
	s := seasons[c.Index%len(seasons)]
	n := s.n
	for round := 0; round < n; round++ {
		text := s.texts(c, round)
		if round%64 == 0 || len(text) > 10000 {
			c.Note("season %q, text %d of %d, %d bytes: %s", s.name, round, n, len(text), trunc(string(text[:min(len(text), 100)]), 100))
		}
		e := 2
		if len(text) < 4<<20 {
			e = c.R.Intn(8) // encoding/json has a lower limit for nesting, and its own view of commas
		}
		v, ok := parseWith(e, text)
		c.Eval(1)
		if ok && s.ok == 0 {
			c.Fail("%s accepts it", entryNames[e])
		}
		if !ok && s.ok == 1 {
			c.Fail("%s rejects it", entryNames[e])
		}
		if v == nil {
			c.Fail("%s returned nil", entryNames[e])
		}
		if round%max(n/16, 1) == n/32 || round == n-1 {
			seasonProbe(c, s.name, round)
		}
	}
	c.Hit("seasons")
	c.Distinct("season", c.Index)
}

// seasonProbe parses ordinary texts
func seasonProbe(c *Case, name string, round int) {
	type probe struct {
		text []byte
		want *RV
		e    int
	}
	ps := make([]probe, 24)
	total := 0
	for i := range ps {
		t := genTree(c.R, &genCfg{maxDepth: 1 + i%4, maxKids: 5}, 0)
		ps[i] = probe{render(c.R, t, genStyle(c.R)), t, c.R.Intn(9)}
		total += len(ps[i].text)
	}
	for i, p := range ps {
		c.Note("season %q, after %d: text %q", name, round+1, p.text)
		p01Check(c, p.text, p.want, p.e)
		if i%4 == 0 && len(p.text) > 2 {
			if _, ok := parseWith(p.e, p.text[:len(p.text)-1]); ok && !refParse(p.text[:len(p.text)-1], true).ok {
				c.Fail("%s accepts it without its last byte", entryNames[p.e])
			}
		}
	}
	c.Note("season %q, after %d: the memory of %d texts of %d bytes", name, round+1, len(ps), total)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	for _, p := range ps {
		jv.MustUnmarshal(p.text)
	}
	runtime.ReadMemStats(&b)
	if used := int64(b.TotalAlloc - a.TotalAlloc); used > int64(len(ps)*16384+total*2048) {
		c.Fail("takes %d bytes", used)
	}
	c.HitN("season_probes", len(ps))
}
