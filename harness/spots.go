package main

import (
	"bytes"
	"math/rand"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// One special spot in a document that is otherwise plain. Code that works in
// blocks, or looks at its state once for several elements, treats a spot by
// its place: first or last of a block, in the incomplete block at the end.

// spotSize is a size at or near a multiple of a power of two
func spotSize(c *Case, max int) int {
	for {
		n := 0
		switch c.R.Intn(4) {
		case 0:
			n = 1 << uint(c.R.Intn(14))
		case 1:
			n = (1 + c.R.Intn(20)) << uint(2+c.R.Intn(7))
		case 2:
			n = ladder[c.R.Intn(len(ladder))]
		default:
			n = 1 + c.R.Intn(300)
		}
		if c.R.Intn(2) == 0 {
			n += c.R.Intn(3) - 1
		}
		if n >= 1 && n <= max {
			return n
		}
	}
}

// spotIn is a place in [0,n): often the first or the last, or one at or near a
// multiple of a power of two
func spotIn(c *Case, n int) int {
	p := 0
	switch c.R.Intn(6) {
	case 0:
		p = 0
	case 1:
		p = n - 1
	case 2, 3:
		b := 1 << uint(2+c.R.Intn(8))
		p = c.R.Intn(n/b+1)*b + c.R.Intn(3) - 1
	case 4: // the end of the last complete block
		b := 1 << uint(2+c.R.Intn(8))
		p = n/b*b - 1
	default:
		p = c.R.Intn(n)
	}
	if p < 0 || p >= n {
		p = c.R.Intn(n)
	}
	return p
}

// spotTree is a container of n plain children with special at place p, alone
// or as the innermost of some others
func spotTree(c *Case, n, p int, special *RV) *RV {
	plain := []*RV{rNum("7"), rStr("plain"), rBool(true), rNull(), rArr(), rObj()}[c.R.Intn(6)]
	leaf := func(i int) *RV {
		if c.R.Intn(9) == 0 {
			return rNum(strconv.Itoa(i))
		}
		return copyLeaf(plain)
	}
	var t *RV
	if c.R.Intn(2) == 0 {
		t = rArr()
		for i := 0; i < n; i++ {
			if i == p {
				t.A = append(t.A, special)
			} else {
				t.A = append(t.A, leaf(i))
			}
		}
	} else {
		t = rObj()
		for i, k := range manyKeys(c.R, n) {
			if i == p {
				t.set(k, special)
			} else {
				t.set(k, leaf(i))
			}
		}
	}
	for d := c.R.Intn(3); d > 0; d-- {
		if c.R.Intn(2) == 0 {
			t = rArr(leaf(0), t, leaf(1))
		} else {
			o := rObj()
			o.set("before", leaf(0))
			o.set("it", t)
			o.set("after", leaf(1))
			t = o
		}
	}
	return t
}

// spotMarshal: the special child is a non-finite float, or a container that holds one
func spotMarshal(mask int) func(c *Case) {
	return func(c *Case) {
		n := spotSize(c, 4200)
		p := spotIn(c, n)
		special := rNaN(optFloats[10+c.R.Intn(3)])
		switch c.R.Intn(6) {
		case 0:
			special = rArr(special)
		case 1:
			o := rObj()
			o.set("x", special)
			special = o
		}
		t := spotTree(c, n, p, special)
		v := buildV(c.R, t, []int{0, 2}[c.R.Intn(2)])
		for k := 0; k < 3; k++ {
			o := genOpts(c.R, mask, nil)
			if k == 0 { // without an option for it: refused
				o = genOpts(c.R, mask&^oNaN, nil)
			}
			c.Note("%d children, a non-finite float at %d, options %s: %s", n, p, o.desc, trunc(t.canonSeq(), 300))
			checkMarshal(c, v, t, o, true)
			c.Distinct(n, p, o.desc)
		}
		c.Hit("spots")
	}
}

// pieces of text to put across the boundary of a block. Those marked bad make
// the text invalid wherever they stand; they are parts of a string.
var p02Pieces = []struct {
	s   string
	bad bool
}{
	{"é", false}, {"中", false}, {"\U0001F600", false}, {`\u00e9`, false}, {`\ud83d\ude00`, false}, {`\\`, false}, {`\"`, false}, {`\n`, false}, {`\/`, false}, {`\u0000`, false}, {"\u2028", false}, {"\x7f", false},
	{`\x`, true}, {`\u12`, true}, {`\u12g4`, true}, {`\ud83d`, true}, {`\ude00`, true}, {`\ud83d\u0041`, true}, {`\ud83dx`, true}, {`\ud83d\n`, true}, {`\U0041`, true},
}

// structure to put across a boundary: what stands there, and the value it makes
var p02Seams = []struct {
	s   string
	bad bool
}{
	{`,"x",`, false}, {`,true,`, false}, {`,false,`, false}, {`,null,`, false}, {`,-12.5e+3,`, false}, {`,{"k":[]},`, false}, {`,[[]],`, false}, {`,{},`, false}, {",\n\t\r ", false},
	{`,,`, true}, {`,tru,`, true}, {`,nul,`, true}, {`,falsE,`, true}, {`,01,`, true}, {`,-,`, true}, {`,1.,`, true}, {`,1e,`, true}, {`,.5,`, true}, {`,[],],`, true}, {`,{"a"},`, true}, {`,{"a":},`, true}, {`,{a:1},`, true}, {`,[1 2],`, true},
	{`,'x',`, true}, {`,/**/1,`, true}, {`,+1,`, true}, {`,{"a":1,},`, true}, {`,[1,],`, true}, {`,[1,,2],`, true}, {`,0x1,`, true}, {`,NaN,`, true}, {`,{"a":1"b":2},`, true}, {",\v1,", true}, {",\u00a01,", true},
}

// p02Boundaries puts a piece so that it begins, ends or is cut at an offset
// that is a multiple of a power of two, counted from the beginning of the
// text, of the string or of the value
func p02Boundaries(c *Case, only string) {
	b := 1 << uint(3+c.R.Intn(14))
	if b > 1<<13 && c.R.Intn(3) != 0 {
		b >>= uint(3 + c.R.Intn(6))
	}
	at := b
	if b < 1<<14 {
		at = b * (1 + c.R.Intn(6))
	}
	var text []byte
	desc := ""
	inString := c.R.Intn(3) != 0
	pad := func(n int, unit string) string {
		if n <= 0 {
			return ""
		}
		return string(bytes.Repeat([]byte(unit), n/len(unit)+1)[:n/len(unit)*len(unit)])
	}
	skip := func(bad bool) bool { return only == "bad" && !bad || only == "good" && bad }
	if inString {
		pc := p02Pieces[c.R.Intn(len(p02Pieces))]
		for skip(pc.bad) {
			pc = p02Pieces[c.R.Intn(len(p02Pieces))]
		}
		head := []string{`"`, `["`, `{"a":"`, `{"`, `[1,"z","`}[c.R.Intn(5)]
		tail := map[string]string{`"`: `"`, `["`: `"]`, `{"a":"`: `"}`, `{"`: `":0}`, `[1,"z","`: `"]`}[head]
		from := len(head) // where counting starts
		if c.R.Intn(2) == 0 {
			from = 0
		}
		unit := []string{"a", "a", "b c", "é", "中", `\n`}[c.R.Intn(6)]
		first := []string{"", "", "x", "é", "中", `\t`, "\U0001F600"}[c.R.Intn(7)]
		n := at + from - len(head) - len(first) - c.R.Intn(len(pc.s)+2) + 1
		body := first + pad(n, unit)
		for len(body) < n+len(first) {
			body += "y"
		}
		after := pad(c.R.Intn(2)*c.R.Intn(3*b), []string{"a", "é", "b c"}[c.R.Intn(3)])
		text = []byte(head + body + pc.s + after + tail)
		desc = "in a string " + strconv.QuoteToASCII(pc.s)
	} else {
		pc := p02Seams[c.R.Intn(len(p02Seams))]
		for skip(pc.bad) {
			pc = p02Seams[c.R.Intn(len(p02Seams))]
		}
		n := at - 2 - c.R.Intn(len(pc.s)+2)
		body := ""
		switch c.R.Intn(4) {
		case 0: // blanks
			body = "[1" + pad(n, " ")
		case 1: // numbers
			body = "[1" + pad(n-1, ",1")
		case 2: // digits, with a point
			body = "[1." + pad(n-1, "1")
		default:
			body = `["` + pad(n-2, "s") + `"`
		}
		for len(body) < at-len(pc.s)/2 {
			body += " "
		}
		text = []byte(body + pc.s + pad(c.R.Intn(2)*c.R.Intn(2*b), " ") + "2]")
		desc = "between values " + strconv.QuoteToASCII(pc.s)
	}
	c.Note("%s about offset %d (%d bytes): %s", desc, at, len(text), trunc(strconv.QuoteToASCII(string(text)), 500))
	ref := refParse(text, false)
	if only == "good" {
		if !ref.ok || ref.lone || ref.big {
			return
		}
		p01Check(c, text, ref.v, 0, 1+c.R.Intn(8))
	} else {
		p02Verdict(c, text, c.Index%8 == 0)
		if inString && len(text) < 70000 && c.R.Intn(2) == 0 { // damaged UTF-8 at the same place
			cut := append([]byte(nil), text...)
			for k := 0; k < 4; k++ {
				p := at - 3 + c.R.Intn(6)
				if p > 0 && p < len(cut) && cut[p] != '"' {
					cut[p] = []byte{0x80, 0xc3, 0xe4, 0xf0, 0xff, 0xed, 0xc0}[c.R.Intn(7)]
				}
				c.Note("%d bytes, damaged at %d: %s", len(cut), p, trunc(strconv.QuoteToASCII(string(cut[max(0, p-60):])), 300))
				p02Verdict(c, cut, false)
				if k == 1 {
					copy(cut, text)
				}
			}
		}
	}
	c.Distinct(desc, at, len(text))
	c.Hit("boundaries")
}

// repeatParts puts copies of some children beside them
func repeatParts(r *rand.Rand, m *RV) {
	for _, t := range nodes(m, nil) {
		if m.size() > 300 || r.Intn(2) == 0 {
			continue
		}
		for n := r.Intn(4); n > 0; n-- {
			switch {
			case t.K == kArr && len(t.A) > 0:
				i := r.Intn(len(t.A))
				x := t.A[i].clone()
				t.A = append(t.A, nil)
				copy(t.A[i+1:], t.A[i:])
				t.A[i+r.Intn(2)] = x
			case t.K == kObj && len(t.Keys) > 0:
				t.set(genKey(r, &genCfg{keys: []string{"a", "b", "twin", "k1", "k2", "K1"}}), t.O[t.Keys[r.Intn(len(t.Keys))]].clone())
			}
		}
	}
}

// importShared makes m by importing a Go value in which equal parts are the
// same pointer, map or slice
func importShared(c *Case, m *RV) *jv.V {
	r := c.R
	made := map[string]any{}
	var of func(x *RV, top bool) any
	of = func(x *RV, top bool) any {
		id := x.canonSeq()
		if y, ok := made[id]; ok && r.Intn(8) != 0 {
			return y
		}
		var y any
		switch x.K {
		case kArr:
			switch l := make([]any, 0, len(x.A)); {
			case len(x.A) > 0 && r.Intn(4) == 0 && sameKids(x) && x.A[0].isCont(): // of pointers
				p := make([]*any, 0, len(x.A))
				for _, e := range x.A {
					g := of(e, false)
					q, ok := g.(*any)
					if !ok {
						q = &g
						made[e.canonSeq()] = q
					}
					p = append(p, q)
				}
				y = p
			default:
				for _, e := range x.A {
					l = append(l, of(e, false))
				}
				y = l
			}
		case kObj:
			o := map[string]any{}
			for _, k := range x.Keys {
				o[k] = of(x.O[k], false)
			}
			y = o
		case kStr:
			y = x.S
		case kBool:
			y = x.B
		case kNull:
			y = nil
		default:
			if i, err := strconv.ParseInt(x.N, 10, 64); err == nil && strconv.FormatInt(i, 10) == x.N {
				y = i
			} else {
				y = scalarV(r, x)
			}
		}
		if x.K != kNull && r.Intn(2) == 0 && !top {
			z := y
			y = &z
		}
		made[id] = y
		return y
	}
	v, err := jv.Import(of(m, true))
	if err != nil {
		c.Fail("Import of a Go value with shared parts: %v", err)
	}
	if d := diffV(v, m); d != "" {
		c.Fail("Import of a Go value with shared parts: %s", d)
	}
	adoptSequence(v, m)
	return v
}

func sameKids(x *RV) bool {
	for _, y := range x.A {
		if y.K != x.A[0].K {
			return false
		}
	}
	return true
}

// adoptSequence gives the objects of m the set sequence they have in v, which holds the same value
func adoptSequence(v *jv.V, m *RV) {
	switch m.K {
	case kArr:
		for i, x := range m.A {
			adoptSequence(v.MustGet(i), x)
		}
	case kObj:
		m.Keys = m.Keys[:0]
		v.RangeObjectsBySetSequence(func(k string, x *jv.V) bool {
			m.Keys = append(m.Keys, k)
			adoptSequence(x, m.O[k])
			return true
		})
	}
}

// rephrase changes how numbers are written and in which sequence keys come, and nothing else
func rephrase(r *rand.Rand, t *RV) {
	for _, x := range nodes(t, nil) {
		switch x.K {
		case kNum:
			if s := respelled(r, x.N); validNumberText(s) && numberInRange(s) {
				*x = *rNum(s)
			}
		case kObj:
			if r.Intn(2) == 0 {
				r.Shuffle(len(x.Keys), func(i, j int) { x.Keys[i], x.Keys[j] = x.Keys[j], x.Keys[i] })
			}
		}
	}
}

// respelled is another text of the same number
func respelled(r *rand.Rand, n string) string {
	switch {
	case r.Intn(3) == 0:
		return n
	case strings.ContainsAny(n, "eE"):
		if r.Intn(2) == 0 {
			return strings.Replace(n, "e", "E", 1)
		}
		return strings.Replace(n, "E", "e", 1)
	case strings.Contains(n, "."):
		return n + []string{"0", "00", "e0", "e+0", "E-0"}[r.Intn(5)]
	}
	return n + []string{".0", ".00", "e0", "E0", "e+0", ".0e0"}[r.Intn(6)]
}
