package main

import (
	"bytes"
	"encoding/json"
	"runtime"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P02",
		Rule: "hostile bytes (all short token and byte words, mutated and truncated valid texts, random bytes, bombs) go through every parsing entry point; the monitor checks: no panic, no runaway, " +
			"all entry points agree, a failure gives an error and a usable not-existing value, RFC 8259 texts are accepted, texts that are not JSON even under the documented tolerance are rejected, " +
			"accepted texts yield the reference tree and serialize to valid JSON; a case is non-trivial when the library accepted it or it is a mutation of a valid text",
		Need: []string{"accepted", "rejected", "accepted_not_rfc", "lone_surrogates", "out_of_range_numbers", "malformed_utf8", "bombs", "grown", "foreign_lexemes", "boundaries", "small_texts", "seasons", "season_probes", "ill_formed_pairs"},
		Suites: []Suite{
			{Name: "tokens", Quick: (wordCount(len(p02Tokens), 5) + 1023) / 1024, Thorough: (wordCount(len(p02Tokens), 6) + 1023) / 1024, Run: func(c *Case) { p02Words(c, p02Tokens) }},
			{Name: "strings", Quick: (wordCount(len(p02StrBytes), 4) + 1023) / 1024, Thorough: (wordCount(len(p02StrBytes), 6) + 1023) / 1024, Run: p02StrWords},
			{Name: "utf8", Quick: 65536 / 128, Thorough: 65536 / 128, Run: p02UTF8},
			{Name: "units", Quick: 400, Thorough: 8000, Run: p02Units},
			{Name: "surrogates", Quick: 512, Thorough: 2560, Run: p02Surrogates},
			{Name: "mutants", Quick: 400000, Thorough: 12000000, Run: p02Mutants},
			{Name: "prefixes", Quick: 12000, Thorough: 300000, Run: p02Prefixes},
			{Name: "bytes", Quick: 120000, Thorough: 3000000, Run: p02Bytes},
			{Name: "blanks", Quick: 256, Thorough: 256, Run: p02Blanks},
			{Name: "dialects", Quick: len(dialects), Thorough: len(dialects), Run: p02Dialects},
			{Name: "dialectmix", Quick: 120000, Thorough: 3000000, Run: p02DialectMix},
			{Name: "boundaries", Quick: 9000, Thorough: 150000, Run: func(c *Case) { p02Boundaries(c, "") }},
			{Name: "small", Quick: 400, Thorough: 4000, Run: p02Small, Solo: true},
			{Name: "seasons", Quick: len(seasons), Thorough: 4 * len(seasons), Run: runSeason},
			{Name: "bombs", Quick: len(p02BombList), Thorough: len(p02BombList), Run: p02Bombs, Solo: true},
			{Name: "scale", Quick: len(p02Grown), Thorough: len(p02Grown), Run: p02Scale, Solo: true},
		},
	})
}

var p02Tokens = []string{"{", "}", "[", "]", ",", ":", `"a"`, `"\u00e9"`, "1", "-", "0", ".5", "e3", "true", "null", " ", "\"", "\\"}
var p02StrBytes = []string{"\\", "\"", "u", "0", "d", "8", "C", "n", "'", "x", "\xc3", "\xa9", "\xe2", "\xf0", "\xff", "\x00", "\\u00", "\\ud83d", "\\ude00"}

// p02Verdict drives every entry point with text and checks the outcome. It returns whether it was accepted.
func p02Verdict(c *Case, text []byte, all bool) bool {
	strict := refParse(text, false)
	var lenient refResult
	if !strict.ok {
		lenient = refParse(text, true)
	} else {
		lenient = strict
	}
	in := append([]byte(nil), text...)
	v, err := jv.Unmarshal(in)
	c.Eval(1)
	if !bytes.Equal(in, text) {
		c.Fail("Unmarshal changed its input to %q", in)
	}
	if v == nil {
		c.Fail("Unmarshal returned a nil value (error %v)", err)
	}
	if err != nil {
		c.Hit("rejected")
		if v.ValueType() != jv.NotExist {
			c.Fail("Unmarshal returned error %v together with a value of type %v", err, v.ValueType())
		}
		if strict.ok && !strict.lone && !strict.big && strict.maxDepth <= 10000 {
			c.Fail("valid JSON rejected: %v", err)
		}
	} else {
		c.Hit("accepted")
		if !lenient.ok {
			c.Fail("accepted a text that is not JSON, as %s", trunc(v.String(), 300))
		}
		if !strict.ok {
			c.Hit("accepted_not_rfc")
		}
		if lenient.lone {
			c.Fail("accepted a malformed surrogate sequence, as %s", trunc(v.String(), 300))
		}
		if lenient.big {
			c.Fail("accepted a number beyond the representable range, as %s", trunc(v.String(), 300))
		}
		out, merr := v.Marshal()
		if merr != nil {
			c.Fail("a parsed value does not marshal: %v", merr)
		}
		o := refParse(out, false)
		if !o.ok {
			c.Fail("a parsed value marshals to invalid JSON %q", trunc(string(out), 1000))
		}
		if !lenient.lone {
			if d := diffV(v, lenient.v); d != "" {
				c.Fail("wrong value: %s", d)
			}
			if !o.v.equal(lenient.v) {
				c.Fail("marshals to %s, want %s", trunc(string(out), 500), trunc(lenient.v.canon(), 500))
			}
		}
	}
	if lenient.ok && lenient.lone {
		c.Hit("lone_surrogates")
	}
	if lenient.ok && lenient.big {
		c.Hit("out_of_range_numbers")
	}
	entries := []int{1 + (c.Index+len(text))%8}
	if all {
		entries = []int{1, 2, 3, 4, 5, 6, 7, 8}
	}
	for _, e := range entries {
		v2, ok := parseWith(e, text)
		if e == 8 && !json.Valid(text) {
			// encoding/json pre-validates
			if ok {
				c.Fail("json.Unmarshal accepted invalid JSON")
			}
			continue
		}
		if e == 8 {
			// encoding/json hands over the text without surrounding blanks: same verdict expected
			if ok != (err == nil) && !bytes.ContainsAny(text, "\xff") {
				c.Fail("json.Unmarshal: ok=%v, Unmarshal: %v", ok, err)
			}
		} else if ok != (err == nil) {
			c.Fail("%s: ok=%v, Unmarshal: err=%v", entryNames[e], ok, err)
		}
		if v2 == nil {
			c.Fail("%s returned nil", entryNames[e])
		}
		c.Eval(1)
		if !ok {
			p02Inert(c, v2)
			continue
		}
		if d := p02Same(v, v2); d {
			c.Fail("%s gave %s, Unmarshal gave %s", entryNames[e], trunc(v2.String(), 300), trunc(v.String(), 300))
		}
	}
	if err != nil && all {
		p02Inert(c, v)
	}
	return err == nil
}

func p02Same(a, b *jv.V) (differ bool) {
	x, ok1 := snap(a)
	y, ok2 := snap(b)
	return !ok1 || !ok2 || !x.equal(y)
}

// p02Inert uses the value returned with an error as documented: it can do nothing and returns nothing
func p02Inert(c *Case, v *jv.V) {
	if v.ValueType() != jv.NotExist {
		c.Fail("value returned with an error has type %v", v.ValueType())
	}
	if v.Len() != 0 || v.Int() != 0 || v.Bool() || len(v.Bytes()) != 0 || v.Float64() != 0 || v.IsObject() || v.IsArray() || v.IsNull() {
		c.Fail("value returned with an error is not empty")
	}
	if x, err := v.Get("a"); err == nil || x == nil || x.ValueType() != jv.NotExist {
		c.Fail("Get on a not existing value: %v", err)
	}
	if x := v.MustGet(0, "b"); x == nil || x.ValueType() != jv.NotExist {
		c.Fail("MustGet on a not existing value")
	}
	if _, err := v.Marshal(); err == nil {
		c.Fail("a not existing value marshals")
	}
	if _, err := v.SetInt(1).At("a"); err == nil {
		c.Fail("Set on a not existing value succeeds")
	}
	for range v.ForRangeArr() {
		c.Fail("a not existing value has array elements")
	}
	for range v.ForRangeObj() {
		c.Fail("a not existing value has object members")
	}
	if b := v.MustMarshal(); len(b) != 0 {
		c.Fail("MustMarshal of a not existing value gives %q", b)
	}
}

func p02Words(c *Case, alphabet []string) {
	for i := 0; i < 1024; i++ {
		w := nthWord(c.Index*1024+i, alphabet)
		c.Note("text %q", w)
		if p02Verdict(c, w, i%64 == 0) {
			c.Distinct(w)
		}
	}
}

func p02StrWords(c *Case) {
	for i := 0; i < 1024; i++ {
		w := nthWord(c.Index*1024+i, p02StrBytes)
		t := make([]byte, 0, len(w)+8)
		switch i % 3 {
		case 0:
			t = append(append(append(t, '"'), w...), '"')
		case 1:
			t = append(append(append(t, `["`...), w...), `",1]`...)
		default:
			t = append(append(append(t, `{"`...), w...), `":"x"}`...)
		}
		c.Note("text %q", t)
		if p02Verdict(c, t, i%64 == 0) {
			c.Distinct(t)
		}
	}
}

// p02UTF8: every two-byte lead with random and boundary continuations; malformed sequences must be rejected
func p02UTF8(c *Case) {
	for i := 0; i < 128; i++ {
		n := c.Index*128 + i
		seq := []byte{byte(n >> 8), byte(n)}
		for k := c.R.Intn(3); k > 0; k-- {
			seq = append(seq, []byte{0x80, 0xbf, 0x9f, 0xa0, 0x8f, 0x90, 0x41, 0x22, 0xc0}[c.R.Intn(9)])
		}
		var t []byte
		if i%2 == 0 {
			t = append(append([]byte(`["`), seq...), `","end"]`...)
		} else {
			t = append(append([]byte(`{"`), seq...), `":"`...)
			t = append(append(t, seq...), `"}`...)
		}
		c.Note("text %q", t)
		ok := p02Verdict(c, t, i%16 == 0)
		if !bytes.Equal(bytes.ToValidUTF8(seq, nil), seq) {
			c.Hit("malformed_utf8")
			if ok && bytes.IndexByte(seq, '"') < 0 {
				c.Fail("malformed UTF-8 accepted")
			}
		}
		if ok {
			c.Distinct(t)
		}
	}
}

// strUnits are pieces of strings, well formed and not, some of which look well formed together
var strUnits = []string{"a", "\x7f", "\u0080", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\ufeff", "\uffff", "\U00010000", "\U0010ffff",
	"\xed\xa0\x80", "\xed\xa0\xbd", "\xed\xaf\xbf", "\xed\xb0\x80", "\xed\xb8\x80", "\xed\xbf\xbf", // surrogates in three bytes each
	"\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf0\x82\x82\xac", "\xc0\xaf", "\xc0\xa2", // longer than needed
	"\xf4\x90\x80\x80", "\xf7\xbf\xbf\xbf", "\xf8\x88\x80\x80\x80", "\xfb\xbf\xbf\xbf\xbf", "\xfc\x84\x80\x80\x80\x80", "\xfd\xbf\xbf\xbf\xbf\xbf", // beyond Unicode
	"\x80", "\xbf", "\xe9", "\xc3", "\xa9", "\xe2\x82", "\xac", "\xf0\x9f", "\x98\x80", "\xf0\x9f\x98", "\xfe", "\xff", "\xff\xfe", "\xfe\xff", // parts
	`\ud83d`, `\ude00`, `\ud83d\ude00`, `\u00e9`, `\u0000`, `\"`, `\\`, `\n`, "\x00", "\x1f", "\u2028"}

// p02Units: all pairs of pieces, and runs of them
func p02Units(c *Case) {
	n := len(strUnits)
	for i := 0; i < 64; i++ {
		k := c.Index*64 + i
		s := strUnits[k%n] + strUnits[k/n%n]
		for m := k / n / n * c.R.Intn(3); m > 0 && len(s) < 40; m-- {
			s += strUnits[c.R.Intn(n)]
		}
		t := []byte([]string{`"` + s + `"`, `["` + s + `", "` + s + `"]`, `{"` + s + `":"` + s + `"}`, `{"a":{"b":["x","` + s + `"]}}`}[c.R.Intn(4)])
		c.Note("text %q", t)
		ok := p02Verdict(c, t, i%16 == 0)
		if !bytes.Equal(bytes.ToValidUTF8(t, nil), t) {
			c.Hit("ill_formed_pairs")
			if ok {
				c.Fail("malformed UTF-8 accepted")
			}
		} else if ok {
			c.Distinct(t)
		}
	}
}

// p02Surrogates: every 16-bit escape alone, and paired with neighbours
func p02Surrogates(c *Case) {
	for i := 0; i < 256; i++ {
		r := rune(c.Index%256*256 + i)
		t := append([]byte{'"'}, uEsc(nil, r, i%2 == 0)...)
		switch c.R.Intn(6) {
		case 0:
		case 5: // any other escape
			t = uEsc(t, rune(c.R.Intn(0x10000)), c.R.Intn(2) == 0)
		case 1:
			t = uEsc(t, rune(0xDC00+c.R.Intn(0x400)), true)
		case 2:
			t = uEsc(t, rune(0xD800+c.R.Intn(0x800)), false)
		case 3:
			t = append(t, 'x')
		case 4:
			t = uEsc(t, rune([]int{0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xD7FF, 0x41, 0xFFFF}[c.R.Intn(7)]), true)
		}
		t = append(t, '"')
		c.Note("text %q", t)
		if p02Verdict(c, t, i%32 == 0) {
			c.Distinct(t)
		}
	}
}

func p02Mutants(c *Case) {
	g := &genCfg{maxDepth: 1 + c.R.Intn(4), maxKids: 1 + c.R.Intn(5)}
	t := render(c.R, genTree(c.R, g, 0), genStyle(c.R))
	if c.R.Intn(6) == 0 {
		// splice a number that cannot be represented
		t = []byte(strings.Replace(string(t), ":", ":"+hugeNumbers[c.R.Intn(len(hugeNumbers))], 1))
	}
	m := mutate(c.R, t)
	c.Note("text %q", m)
	p02Verdict(c, m, c.Index%32 == 0)
	c.Distinct(m)
	if c.Index < 32 {
		c.Sample("%q", trunc(string(m), 160))
	}
}

// p02Prefixes: a proper prefix of a container text is never complete
func p02Prefixes(c *Case) {
	g := &genCfg{maxDepth: 3, maxKids: 3}
	t := bytes.TrimSpace(render(c.R, genDoc(c.R, g), genStyle(c.R)))
	for k := 0; k < 12; k++ {
		p := t[:c.R.Intn(len(t))]
		c.Note("prefix %q", p)
		if p02Verdict(c, p, k == 0) {
			c.Fail("a proper prefix of a container was accepted")
		}
		// and a complete text followed by anything but blanks
		q := append(append([]byte(nil), t...), mutTokens[c.R.Intn(len(mutTokens))]...)
		c.Note("suffixed %q", q)
		ok := p02Verdict(c, q, false)
		if ok && len(bytes.TrimRight(q, " \t\r\n\b")) > len(t) {
			c.Fail("trailing data accepted")
		}
	}
	c.Distinct(t)
}

func p02Bytes(c *Case) {
	n := c.R.Intn(24)
	b := make([]byte, n)
	const punct = "{}[]\":,\\ue0123456789.+-truefalsn \n\t'/"
	for i := range b {
		if c.R.Intn(5) == 0 {
			b[i] = byte(c.R.Intn(256))
		} else {
			b[i] = punct[c.R.Intn(len(punct))]
		}
	}
	c.Note("text %q", b)
	if p02Verdict(c, b, c.Index%32 == 0) {
		c.Distinct(b)
	}
}

// p02Blanks puts every byte value where only a blank may be
func p02Blanks(c *Case) {
	x := byte(c.Index)
	for _, f := range []string{"%1", "1%", "[%1]", "[1%]", "[1%,2]", "[1,%2]", `{%"a":1}`, `{"a"%:1}`, `{"a":%1}`, `{"a":1%}`, `{"a":1%,"b":2}`, "%", "%%", "[%]", "{%}", "tru%e", "1%2", "-%1", "\"a%b\"", "\"\\%\"", "\"\\u00%1\""} {
		t := []byte(strings.ReplaceAll(f, "%", string([]byte{x})))
		c.Note("text %q", t)
		if p02Verdict(c, t, true) {
			c.Distinct(t)
		}
	}
}

var p02BombList = []struct {
	open, mid, cl string
	n             int
}{
	{"[", "", "]", 50000}, {"[", "", "]", 2000000}, {`{"a":`, "1", "}", 50000}, {`{"a":`, "1", "}", 2000000}, {`[{"a":`, "1", "}]", 300000},
	{"[", "", "", 3000000}, {`{"a":`, "", "", 3000000}, {"", "", "]", 1000000}, {"[", ",", "]", 100000}, {"[[],", "", "]", 400000},
	{",", "", "", 1000000}, {" ", "", "", 4000000}, {"", "1", " ", 4000000}, {"-", "", "", 1000000}, {"1", "", "", 2000000}, {"0", "", "", 2000000},
	{"1", ".", "1", 1000000}, {"1", "e", "1", 500000}, {"\"", "", "", 1000000}, {"\\", "", "", 1000000}, {"\\u", "", "", 500000}, {"\xf0", "", "", 1000000},
	{"[\"", "", "", 600000}, {`{"a"`, "", "", 600000}, {":", "", "", 1000000}, {"[1,", "", "", 1000000}, {`{"a":1,`, "", "", 400000}, {"e", "", "", 1000000}, {"[true", "", "", 500000},
	{`[{"a":`, "", "", 3000000}, {`{"a":[`, "", "", 3000000}, {`[{"a":`, "1", "}]", 1500000}, {`{"a":[[[`, "", "", 1000000}, {`[1,{"":`, "", "", 2000000}, {`[[],{"a":`, "", "", 1500000},
}

// p02Grown are texts that are large in one way each: time must grow about linearly with them
var p02Grown = []struct {
	what string
	n    int
	make func(n int) string
}{
	{"object with different keys", 200000, func(n int) string {
		return "{" + joined(n, func(i int) string { return `"key` + itoa(i) + `":` + itoa(i) }) + "}"
	}},
	{"object with different keys, falling", 200000, func(n int) string {
		return "{" + joined(n, func(i int) string { return `"` + itoa(n-i) + `":{}` }) + "}"
	}},
	{"object with long keys that differ at the end", 90000, func(n int) string {
		p := strings.Repeat("prefix", 20)
		return "{" + joined(n, func(i int) string { return `"` + p + itoa(i) + `":null` }) + "}"
	}},
	{"object with one key again and again", 300000, func(n int) string {
		return "{" + joined(n, func(i int) string { return `"k":` + itoa(i) }) + "}"
	}},
	{"object with two keys again and again", 250000, func(n int) string {
		return "{" + joined(n, func(i int) string { return `"k` + itoa(i%2) + `":[` + itoa(i) + `]` }) + "}"
	}},
	{"escaped keys", 120000, func(n int) string {
		return "{" + joined(n, func(i int) string { return `"\u006b` + itoa(i) + `\n":"\ud83d\ude00"` }) + "}"
	}},
	{"array of numbers", 400000, func(n int) string { return "[" + joined(n, itoa) + "]" }},
	{"array of floats", 250000, func(n int) string { return "[" + joined(n, func(i int) string { return itoa(i) + ".5e-3" }) + "]" }},
	{"array of arrays", 300000, func(n int) string { return "[" + joined(n, func(int) string { return "[]" }) + "]" }},
	{"array of objects", 150000, func(n int) string {
		return "[" + joined(n, func(i int) string { return `{"id":` + itoa(i) + `}` }) + "]"
	}},
	{"one string of escapes", 700000, func(n int) string { return `"` + strings.Repeat(`\u00e9`, n) + `"` }},
	{"one string of short escapes", 1500000, func(n int) string { return `["` + strings.Repeat(`\n`, n) + `"]` }},
	{"one string of surrogate pairs", 400000, func(n int) string { return `"` + strings.Repeat(`\ud83d\ude00`, n) + `"` }},
	{"one string of many bytes per character", 1000000, func(n int) string { return `"` + strings.Repeat("中é\U0001F600", n/3) + `"` }},
	{"one long key", 3000000, func(n int) string { return `{"` + strings.Repeat("k", n) + `":1}` }},
	{"long key with escapes", 500000, func(n int) string { return `{"` + strings.Repeat(`\\k`, n) + `":1}` }},
	{"number with a long fraction", 1000000, func(n int) string { return "0." + strings.Repeat("3", n) }},
	{"number with zeros", 1000000, func(n int) string { return "[0." + strings.Repeat("0", n) + "1]" }},
	{"blanks between members", 300000, func(n int) string { return "[" + strings.Repeat(" \n1\t ,", n) + "1]" }},
	{"strings", 250000, func(n int) string { return "[" + strings.Repeat(`"a\"b",`, n) + `""]` }},
	{"ladders", 500, func(n int) string {
		return "[" + joined(n, func(i int) string { return strings.Repeat("[", i) + strings.Repeat("]", i) + `1`[:b2i(i == 0)] }) + "]"
	}},
	{"objects in objects, each with many members", 250, func(n int) string {
		s := "0"
		m := joined(n, func(i int) string { return `"m` + itoa(i) + `":` + itoa(i) })
		return strings.Repeat("{"+m+`,"deep":`, n) + s + strings.Repeat("}", n)
	}},
}

func joined(n int, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(f(i))
	}
	return b.String()
}

// p02Scale: valid texts that are large in one way each. Everything that is done with the document is under the
// watchdog, which ends a case that takes as long as quadratic work would.
func p02Scale(c *Case) {
	x := p02Grown[c.Index]
	text := x.make(x.n)
	c.Note("%s: %d, %d bytes: %s", x.what, x.n, len(text), trunc(text, 200))
	c.Hit("grown")
	ref := refParse([]byte(text), false)
	if !ref.ok {
		fatalf("%s is not valid JSON", x.what)
	}
	for e := 0; e < 9; e++ {
		v, ok := parseWith(e, []byte(text))
		c.Eval(1)
		if !ok {
			c.Fail("%s rejects it", entryNames[e])
		}
		if e == c.Index%9 {
			if d := diffV(v, ref.v); d != "" {
				c.Fail("%s: %s", entryNames[e], d)
			}
			out, err := v.Marshal()
			if err != nil {
				c.Fail("does not marshal: %v", err)
			}
			if !refParse(out, false).v.equal(ref.v) {
				c.Fail("marshals to something else")
			}
		}
		if e%4 != c.Index%4 {
			continue
		}
		if _, ok := parseWith(e, []byte(text[:len(text)-1])); ok && (text[0] == '[' || text[0] == '{' || text[0] == '"') {
			c.Fail("%s accepts it without its last byte", entryNames[e])
		}
	}
	c.Distinct("grown", c.Index)
}

// p02Bombs: large hostile texts. A hang, a stack overflow or unbounded memory ends the process and is reported.
func p02Bombs(c *Case) {
	b := p02BombList[c.Index]
	text := strings.Repeat(b.open, b.n) + b.mid + strings.Repeat(b.cl, b.n)
	c.Note("%d x %q, %q, %d x %q", b.n, b.open, b.mid, b.n, b.cl)
	c.Hit("bombs")
	for e := 0; e < 9; e++ {
		v, ok := parseWith(e, []byte(text))
		c.Eval(1)
		if v == nil {
			c.Fail("%s returned nil", entryNames[e])
		}
		if ok != (v.ValueType() != jv.NotExist) {
			c.Fail("%s: ok=%v with a value of type %v", entryNames[e], ok, v.ValueType())
		}
		if ok && (b.open != "1" && b.open != " " && b.open != "" && b.cl == "") {
			c.Fail("%s accepts it", entryNames[e])
		}
		if ok && b.n <= 100000 && b.cl == "]" && b.open != "" {
			if _, err := v.Marshal(); err != nil {
				c.Fail("does not marshal: %v", err)
			}
		}
	}
	c.Distinct("bomb", c.Index)
}

// p02Small: many small texts, parsed one after the other by every entry point: the memory taken for each is in
// proportion to its length. The bound leaves several times what a value of the library takes for every byte of text.
func p02Small(c *Case) {
	r := c.R
	const rounds = 200
	texts := make([][]byte, rounds)
	total := 0
	for i := range texts {
		switch r.Intn(6) {
		case 0:
			texts[i] = []byte([]string{"1", "[]", "{}", `""`, "null", "[0]", "x", "", `{"a":1}`}[r.Intn(9)])
		case 1:
			texts[i] = nthWord(r.Intn(wordCount(len(p02Tokens), 3)), p02Tokens)
		case 2:
			texts[i] = mutate(r, []byte(renderPlain(genDoc(r, &genCfg{maxDepth: 2, maxKids: 3}))))
		default:
			texts[i] = []byte(renderPlain(genDoc(r, &genCfg{maxDepth: 2, maxKids: 3})))
		}
		if len(texts[i]) > 2000 {
			texts[i] = []byte("[1]")
		}
		total += len(texts[i])
	}
	kind := c.Index % 4
	c.Note("%d texts of %d bytes by entry point %d, such as %q", rounds, total, kind, texts[0])
	keep := make([]*jv.V, rounds)
	var v0 jv.V
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	for i, t := range texts {
		switch kind {
		case 0:
			keep[i], _ = jv.Unmarshal(t)
		case 1:
			keep[i], _ = jv.UnmarshalNoCopy(t)
		case 2:
			keep[i], _ = jv.UnmarshalString(string(t))
		default:
			_ = v0.UnmarshalJSON(t)
		}
	}
	runtime.ReadMemStats(&b)
	runtime.KeepAlive(keep)
	used := int64(b.TotalAlloc - a.TotalAlloc)
	if limit := int64(rounds*16384 + total*2048); used > limit {
		c.Fail("parsing %d texts of %d bytes in all takes %d bytes of memory, over %d", rounds, total, used, limit)
	}
	c.Eval(rounds)
	c.Hit("small_texts")
}
