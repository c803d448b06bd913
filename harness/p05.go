package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P05",
		Rule: "every Unicode scalar value (and random strings) as string value, as object key and as the text configured for non-finite floats, under all combinations of the escaping options; " +
			"the raw output is tokenized and each character's spelling is checked against the promised class and decoded back; non-trivial: a distinct block or string",
		Need: []string{"codepoints", "escaped_ascii", "raw_ascii", "escaped_unicode", "raw_unicode", "surrogate_pairs", "line_separators", "keys", "configured_strings"},
		Suites: []Suite{
			{Name: "codepoints", Quick: 0x110000 / 128, Thorough: 0x110000 / 128, Run: p05Codepoints},
			{Name: "random", Quick: 1000000, Thorough: 5000000, Run: p05Random},
		},
	})
}

type escOpts struct{ utf8, noHTML, noSlash bool }

func (e escOpts) opts(c *Case) []jv.Option {
	var o []jv.Option
	if e.utf8 {
		o = append(o, jv.OptUTF8())
	}
	// an option may be repeated: the last one counts
	if c.R.Intn(3) == 0 {
		o = append(o, jv.OptEscapeHTML(e.noHTML), jv.OptEscapeSlash(e.noSlash))
	}
	if e.noHTML || c.R.Intn(2) == 0 || len(o) > 1 {
		o = append(o, jv.OptEscapeHTML(!e.noHTML))
	}
	if e.noSlash || c.R.Intn(2) == 0 || len(o) > 1 {
		o = append(o, jv.OptEscapeSlash(!e.noSlash))
	}
	return o
}

// mustEscape tells how a character is to be written
func (e escOpts) mustEscape(r rune) bool {
	switch {
	case r < 0x20 || r == 0x7f || r == '"' || r == '\\' || r == 0x2028 || r == 0x2029:
		return true
	case r == '/':
		return !e.noSlash
	case r == '<' || r == '>' || r == '&':
		return !e.noHTML
	case r < 0x80:
		return false
	}
	return !e.utf8
}

// p05Literal checks a JSON string literal at the start of text against s; it returns its length
func p05Literal(c *Case, text, s string, e escOpts) int {
	bad := func(i int, want string) {
		c.Fail("options %+v: string %s is written %s: at byte %d: %s", e, trunc(strconv.QuoteToASCII(s), 600), trunc(strconv.QuoteToASCII(text), 1200), i, want)
	}
	if text == "" || text[0] != '"' {
		bad(0, "opening quote expected")
	}
	i := 1
	var ea, ra, eu, ru, sp, ls int
	for _, r := range s {
		if i >= len(text) {
			bad(i, "text ends early")
		}
		esc := text[i] == '\\'
		var got rune
		if esc {
			if i+1 >= len(text) {
				bad(i, "text ends in an escape")
			}
			switch text[i+1] {
			case '"', '\\', '/':
				got = rune(text[i+1])
				i += 2
			case 'b':
				got = 8
				i += 2
			case 'f':
				got = 12
				i += 2
			case 'n':
				got = 10
				i += 2
			case 'r':
				got = 13
				i += 2
			case 't':
				got = 9
				i += 2
			case 'u':
				x, ok := hex4([]byte(text[i+2:]))
				if !ok {
					bad(i, "bad \\u escape")
				}
				i += 6
				if x >= 0xD800 && x < 0xDC00 {
					if i+6 > len(text) || text[i] != '\\' || text[i+1] != 'u' {
						bad(i, "lone surrogate")
					}
					y, ok := hex4([]byte(text[i+2:]))
					if !ok || y < 0xDC00 || y > 0xDFFF {
						bad(i, "lone surrogate")
					}
					x = (x-0xD800)<<10 + (y - 0xDC00) + 0x10000
					i += 6
					sp++
				}
				got = x
			default:
				bad(i, "not an escape of JSON")
			}
		} else {
			var n int
			got, n = utf8.DecodeRuneInString(text[i:])
			if got == utf8.RuneError && n <= 1 {
				bad(i, "malformed UTF-8")
			}
			i += n
		}
		if got != r {
			bad(i, fmt.Sprintf("reads %U, want %U", got, r))
		}
		if want := e.mustEscape(r); want != esc {
			bad(i, fmt.Sprintf("%U is escaped: %v, want %v", r, esc, want))
		}
		switch {
		case r == 0x2028 || r == 0x2029:
			ls++
		case r < 0x80 && esc:
			ea++
		case r < 0x80:
			ra++
		case esc:
			eu++
		default:
			ru++
		}
	}
	if i >= len(text) || text[i] != '"' {
		bad(i, "closing quote expected")
	}
	c.HitN("escaped_ascii", ea)
	c.HitN("raw_ascii", ra)
	c.HitN("escaped_unicode", eu)
	c.HitN("raw_unicode", ru)
	c.HitN("surrogate_pairs", sp)
	c.HitN("line_separators", ls)
	return i + 1
}

func p05Exact(c *Case, text, s string, e escOpts) {
	if n := p05Literal(c, text, s, e); n != len(text) {
		c.Fail("options %+v: surplus text after the literal in %q", e, trunc(text, 600))
	}
	c.Eval(1)
}

// p05All checks s as a value, as a key, nested, and as a configured text
func p05All(c *Case, s string, e escOpts, parsed bool) {
	o := e.opts(c)
	v := jv.NewString(s)
	if parsed {
		v = mustParse(c, string(renderString(c.R, nil, s, style{esc: c.R.Intn(3)})))
	}
	out, err := v.MarshalString(o...)
	if err != nil {
		c.Fail("Marshal: %v", err)
	}
	p05Exact(c, out, s, e)

	obj := jv.NewObject()
	obj.MustSet(v).At(s)
	out, err = obj.MarshalString(append(o, jv.OptSetSequence())...)
	if err != nil || len(out) < 3 || out[0] != '{' || out[len(out)-1] != '}' {
		c.Fail("object with key %q: %q %v", s, out, err)
	}
	n := p05Literal(c, out[1:], s, e)
	if out[1+n] != ':' {
		c.Fail("no colon after key in %q", out)
	}
	p05Exact(c, out[2+n:len(out)-1], s, e)
	c.Hit("keys")

	if s != "" {
		x := jv.NewFloat64([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}[c.R.Intn(3)])
		out, err = x.MarshalString(append(o, jv.OptFloatNaNToString(s), jv.OptFloatInfToString(s, s))...)
		if err != nil {
			c.Fail("Marshal of a non-finite float: %v", err)
		}
		p05Exact(c, out, s, e)
		c.Hit("configured_strings")
	}
	// non-ASCII bytes only under OptUTF8
	if !e.utf8 {
		for i := 0; i < len(out); i++ {
			if out[i] >= 0x80 {
				c.Fail("non-ASCII byte in %q", out)
			}
		}
	}
}

func p05Codepoints(c *Case) {
	var b strings.Builder
	for i := 0; i < 128; i++ {
		r := rune(c.Index*128 + i)
		if r >= 0xD800 && r < 0xE000 {
			continue
		}
		b.WriteRune(r)
		if i%16 == 15 {
			b.WriteString([]string{"", "a", "\"", "/", "<", "\\"}[c.R.Intn(6)])
		}
		c.Hit("codepoints")
	}
	s := b.String()
	if s == "" {
		return
	}
	for k := 0; k < 8; k++ {
		e := escOpts{k&1 != 0, k&2 != 0, k&4 != 0}
		c.Note("code points from %U, options %+v", c.Index*128, e)
		p05All(c, s, e, c.R.Intn(2) == 0)
		c.Distinct(c.Index, k)
	}
	if c.Index == 0 {
		// each ASCII character alone and doubled
		for r := rune(0); r < 0x100; r++ {
			for k := 0; k < 8; k++ {
				e := escOpts{k&1 != 0, k&2 != 0, k&4 != 0}
				c.Note("character %U, options %+v", r, e)
				p05All(c, string(r), e, k%2 == 0)
				p05All(c, string(r)+string(r)+"z", e, false)
			}
		}
	}
}

func p05Random(c *Case) {
	s := genString(c.R)
	if c.R.Intn(3) == 0 {
		for n := c.R.Intn(20); n > 0; n-- {
			s += string(genRune(c.R))
		}
	}
	if c.R.Intn(2500) == 0 {
		s = longText(c.R, sizeFor(c, 70000))
		c.Hit("long_strings")
	}
	e := escOpts{c.R.Intn(2) == 0, c.R.Intn(2) == 0, c.R.Intn(2) == 0}
	c.Note("string %q, options %+v", s, e)
	p05All(c, s, e, c.R.Intn(2) == 0)
	c.Distinct(s, e)
	if c.Index < 8 {
		c.Sample("%s under %+v", strconv.QuoteToASCII(trunc(s, 80)), e)
	}
}
