package main

import (
	"encoding/json"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P01",
		Rule: "random and enumerated RFC 8259 texts (nesting, blanks, escapes, surrogate pairs, duplicate keys, all scalar kinds, boundary numbers) are parsed by every entry point " +
			"and the resulting tree is compared node by node with an independent reference parse; a case is non-trivial when its text is distinct and holds a container or an escape",
		Need: []string{"parsed_ok", "containers", "strings_with_escape", "duplicate_keys", "nesting_over_1000", "codepoints", "many_siblings", "key_families", "volume_mb", "boundaries", "seasons", "season_probes"},
		Suites: []Suite{
			{Name: "random", Quick: 720000, Thorough: 6000000, Run: p01Random},
			{Name: "codepoints", Quick: 0x110000 / 256, Thorough: 0x110000 / 256, Run: p01Codepoints},
			{Name: "escapes", Quick: 7200, Thorough: 40000, Run: p01Escapes},
			{Name: "keys", Quick: 1600, Thorough: 24000, Run: p01Keys},
			{Name: "sizes", Quick: 160, Thorough: 3000, Run: func(c *Case) {
				t, shape := sizedTree(c.R, &genCfg{}, sizeFor(c, 70000))
				st := genStyle(c.R)
				st.dup = false
				c.Note("%s, style %+v: %s", shape, st, trunc(t.canonSeq(), 1000))
				p01Check(c, render(c.R, t, st), t, c.R.Intn(9), c.R.Intn(9))
				c.Hit("sized_" + shape)
			}},
			{Name: "boundaries", Quick: 5000, Thorough: 100000, Run: func(c *Case) { p02Boundaries(c, "good") }},
			{Name: "large", Quick: 224, Thorough: 2800, Run: p01Large},
			{Name: "seasons", Quick: len(seasons), Thorough: 4 * len(seasons), Run: runSeason},
			{Name: "volume", Quick: 1, Thorough: 1, Run: p01Volume, Solo: true},
		},
	})
}

var entryNames = []string{"Unmarshal", "UnmarshalString", "UnmarshalNoCopy", "MustUnmarshal", "MustUnmarshalString", "MustUnmarshalNoCopy", "UnmarshalJSON", "UnmarshalBinary", "json.Unmarshal"}

// parseWith parses text through entry point e. Must* entry points report an error as "not exist".
func parseWith(e int, text []byte) (v *jv.V, ok bool) {
	var err error
	switch e {
	case 0:
		v, err = jv.Unmarshal(text)
	case 1:
		v, err = jv.UnmarshalString(string(text))
	case 2:
		v, err = jv.UnmarshalNoCopy(append([]byte(nil), text...))
	case 3:
		v = jv.MustUnmarshal(text)
		return v, v.ValueType() != jv.NotExist
	case 4:
		v = jv.MustUnmarshalString(string(text))
		return v, v.ValueType() != jv.NotExist
	case 5:
		v = jv.MustUnmarshalNoCopy(append([]byte(nil), text...))
		return v, v.ValueType() != jv.NotExist
	case 6:
		v = &jv.V{}
		err = v.UnmarshalJSON(text)
	case 7:
		v = &jv.V{}
		err = v.UnmarshalBinary(text)
	case 8:
		v = &jv.V{}
		err = json.Unmarshal(text, v)
	}
	return v, err == nil
}

func p01Check(c *Case, text []byte, want *RV, entries ...int) {
	for _, e := range entries {
		v, ok := parseWith(e, text)
		c.Eval(1)
		if !ok {
			c.Fail("%s rejects valid JSON", entryNames[e])
		}
		if d := diffV(v, want); d != "" {
			c.Fail("%s: wrong value: %s", entryNames[e], d)
		}
		c.Hit("parsed_ok")
	}
}

func p01Random(c *Case) {
	g := &genCfg{maxDepth: 1 + c.R.Intn(6), maxKids: 1 + c.R.Intn(8)}
	want := genTree(c.R, g, 0)
	st := genStyle(c.R)
	text := render(c.R, want, st)
	c.Note("text %q", text)
	ref := refParse(text, false)
	if !ref.ok || !ref.v.equal(want) {
		fatalf("generator and reference parser disagree on %q", text)
	}
	p01Check(c, text, want, 0, 1+c.R.Intn(8))
	if want.isCont() {
		c.Hit("containers")
	}
	if st.esc > 0 && strings.Contains(string(text), "\\") {
		c.Hit("strings_with_escape")
	}
	if st.dup {
		c.Hit("duplicate_keys")
	}
	if want.isCont() && want.size() > 1 || strings.Contains(string(text), "\\") {
		c.Distinct(text)
	}
	if c.Index < 64 {
		c.Sample("%q", trunc(string(text), 200))
	}
}

// p01Codepoints runs through every Unicode scalar value: raw and escaped, as a value and as a key
func p01Codepoints(c *Case) {
	base := rune(c.Index * 256)
	arr, obj := &RV{K: kArr}, rObj()
	var raw, esc, keys []byte
	n := 0
	for r := base; r < base+256; r++ {
		if r >= 0xD800 && r < 0xE000 {
			continue
		}
		s := string(r)
		arr.A = append(arr.A, rStr(s))
		obj.set(s+"k", rStr("k"+s+s))
		if n > 0 {
			raw, esc, keys = append(raw, ','), append(esc, ','), append(keys, ',')
		}
		raw = renderString(c.R, raw, s, style{})
		esc = append(uEscRune(append(esc, '"'), r, c.R.Intn(2) == 0), '"')
		k := style{esc: 1}
		keys = append(renderString(c.R, keys, s+"k", k), ':')
		keys = renderString(c.R, keys, "k"+s+s, k)
		n++
	}
	if n == 0 {
		return
	}
	c.HitN("codepoints", n)
	wrap := func(a, b string, t []byte) []byte { return append(append([]byte(a), t...), b...) }
	c.Note("code points U+%04X..U+%04X", base, base+255)
	p01Check(c, wrap("[", "]", raw), arr, 0, 1, 2)
	p01Check(c, wrap("[", "]", esc), arr, 0, 1, 2)
	p01Check(c, wrap("{", "}", keys), obj, 0, 2)
	c.Distinct("cp", c.Index)
}

// p01Escapes: long strings that mix raw bytes with every escape form, which are decoded in place
func p01Escapes(c *Case) {
	n := 1 + c.R.Intn(400)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(genRune(c.R))
	}
	want := rArr(rStr(b.String()), rObj(), rStr(b.String()))
	want.A[1].set(b.String(), rStr("v"))
	text := render(c.R, want, style{esc: 1 + c.R.Intn(2), ws: c.R.Intn(2)})
	c.Note("text %q", trunc(string(text), 8000))
	p01Check(c, text, want, 0, 1, 2, 8)
	c.HitN("strings_with_escape", 3)
	c.Distinct(text)
}

// p01Large: deep nesting, wide containers, long strings and long numbers
func p01Large(c *Case) {
	switch c.Index % 7 {
	case 6: // a lot of small containers, side by side
		n := 90000 + c.R.Intn(90000)
		if c.Index%2 == 0 {
			n = c.R.Intn(140000)
		}
		var b strings.Builder
		kind := c.R.Intn(5)
		kid := []string{"[]", "{}", `[1]`, `{"k":[]}`, `""`}[kind]
		obj := c.R.Intn(3) == 0
		b.WriteString("[{"[b2i(obj):][:1])
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			if obj {
				b.WriteString(`"` + itoa(i) + `":`)
			}
			b.WriteString(kid)
		}
		b.WriteString("]}"[b2i(obj):][:1])
		c.Note("%d siblings %s in an object: %v", n, kid, obj)
		e := c.R.Intn(9)
		v, ok := parseWith(e, []byte(b.String()))
		c.Eval(1)
		if !ok {
			c.Fail("%s rejects it", entryNames[e])
		}
		if v.Len() != n {
			c.Fail("%s: %d members, want %d", entryNames[e], v.Len(), n)
		}
		want := refParse([]byte(kid), false).v
		seen := 0
		one := func(x *jv.V) {
			seen++
			if d := diffV(x, want); d != "" {
				c.Fail("%s: %s", entryNames[e], d)
			}
		}
		v.RangeArray(func(i int, x *jv.V) bool { one(x); return true })
		v.RangeObjects(func(k string, x *jv.V) bool { one(x); return true })
		if seen != n {
			c.Fail("%s: iteration finds %d members of %d", entryNames[e], seen, n)
		}
		c.Hit("many_siblings")
		c.Distinct("siblings", c.Index)
	case 0: // deep
		d := 1000 + c.R.Intn(9000)
		open, cl := "[", "]"
		want := &RV{K: kArr}
		mk := func(x *RV) *RV { return rArr(x) }
		if c.R.Intn(2) == 0 {
			open, cl = `{"k":`, "}"
			want = rNum("1")
			mk = func(x *RV) *RV { o := rObj(); o.set("k", x); return o }
		}
		text := strings.Repeat(open, d)
		if open == "[" {
			text += "[]"
		} else {
			text += "1"
		}
		text += strings.Repeat(cl, d)
		c.Note("%d nested %s", d, open)
		v, err := jv.UnmarshalString(text)
		c.Eval(1)
		if err != nil {
			c.Fail("%d levels of nesting rejected: %v", d, err)
		}
		for i := 0; i < d; i++ {
			if v.Len() != 1 {
				c.Fail("level %d has %d children", i, v.Len())
			}
			if open == "[" {
				v, err = v.Get(0)
			} else {
				v, err = v.Get("k")
			}
			if err != nil {
				c.Fail("level %d: %v", i, err)
			}
		}
		_ = mk
		if s := diffV(v, want); s != "" {
			c.Fail("innermost value: %s", s)
		}
		c.Hit("nesting_over_1000")
		c.Hit("parsed_ok")
		c.Distinct("deep", open, d)
	case 1, 2: // wide
		n := 1 + c.R.Intn(30000)
		g := &genCfg{maxDepth: 1, maxKids: 3}
		want := &RV{K: kArr}
		if c.Index%7 == 2 {
			n /= 10
			want = rObj()
		}
		for i := 0; i < n; i++ {
			x := genTree(c.R, g, 0)
			if want.K == kArr {
				want.A = append(want.A, x)
			} else {
				want.Keys = append(want.Keys, itoa(i)+"é\n")
				want.O[itoa(i)+"é\n"] = x
			}
		}
		c.Note("wide container of %d", n)
		p01Check(c, render(c.R, want, style{ws: c.R.Intn(2), esc: c.R.Intn(2)}), want, c.R.Intn(9))
		c.Hit("wide")
		c.Distinct("wide", c.Index)
	case 3: // long strings
		n := 1 + c.R.Intn(1<<20)
		s := strings.Repeat(string(genRune(c.R))+string(genRune(c.R)), n/4+1)
		want := rArr(rStr(s), rStr(""))
		c.Note("string of %d bytes", len(s))
		p01Check(c, render(c.R, want, style{esc: c.R.Intn(2)}), want, c.R.Intn(3))
		c.Hit("long_string")
		c.Distinct("long", c.Index)
	case 4: // long numbers
		s := "0." + genDigits(c.R, 1+c.R.Intn(2000))
		if c.R.Intn(2) == 0 {
			s = string(byte('1'+c.R.Intn(9))) + genDigits(c.R, c.R.Intn(300)) + "." + genDigits(c.R, 1+c.R.Intn(300))
		}
		if !numberInRange(s) {
			return
		}
		want := rArr(rNum(s), rNum("1"))
		c.Note("number of %d digits", len(s))
		p01Check(c, render(c.R, want, style{}), want, c.R.Intn(3))
		c.Hit("long_number")
		c.Distinct(s)
	default: // value density swings: tiny documents between huge ones
		for i := 0; i < 200; i++ {
			var want *RV
			switch c.R.Intn(3) {
			case 0:
				want = rArr()
				for j := c.R.Intn(300); j > 0; j-- {
					want.A = append(want.A, rNum("1"))
				}
			case 1:
				want = rStr(strings.Repeat("s", c.R.Intn(5000)))
			default:
				want = genTree(c.R, &genCfg{maxDepth: 3, maxKids: 4}, 0)
			}
			text := render(c.R, want, style{})
			c.Note("density sequence step %d: %q", i, trunc(string(text), 300))
			p01Check(c, text, want, c.R.Intn(9))
		}
		c.Hit("density_sequences")
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// p01Keys: texts full of keys that look alike, the same ones again and again in one process
func p01Keys(c *Case) {
	r := c.R
	n := 20 + r.Intn(400)
	ks := keyFamily(r, n)
	want := &RV{K: kArr}
	for i := 0; i < len(ks); {
		o := rObj()
		for j := 1 + r.Intn(120); j > 0 && i < len(ks); j-- {
			o.set(ks[i], rNum(itoa(i)))
			if r.Intn(6) == 0 {
				o.O[ks[i]] = rStr(ks[r.Intn(len(ks))])
			}
			if r.Intn(20) == 0 {
				sub := rObj()
				sub.set(ks[r.Intn(len(ks))], rNull())
				sub.set(ks[i], rStr("inner"))
				o.O[ks[i]] = sub
			}
			i++
		}
		want.A = append(want.A, o)
	}
	st := style{ws: r.Intn(2), esc: r.Intn(2) * r.Intn(2)}
	text := render(r, want, st)
	c.Note("text %s", trunc(string(text), 8000))
	p01Check(c, text, want, r.Intn(9))
	c.HitN("key_families", len(ks))
	c.Distinct(text)
}

// p01Volume parses more than 2 and then more than 4 GiB in one process, so that whatever the library counts over
// its lifetime goes past 31 and 32 bits, and looks at ordinary texts in between
func p01Volume(c *Case) {
	const size = 64 << 20
	buf := make([]byte, size)
	want := rArr(rNum("1"), rStr("a"), rNull())
	for round := 0; round < 70; round++ {
		for i := range buf {
			buf[i] = " \n\t "[i&3]
		}
		switch round % 3 {
		case 0:
			copy(buf[size/2:], `[1,"a",null]`)
		case 1:
			copy(buf, `[1,`)
			copy(buf[size/2:], `"a"`)
			copy(buf[size-6:], `,null]`)
		default:
			copy(buf[size-12:], `[1,"a",null]`)
		}
		c.Note("parsing text %d of %d bytes", round, size)
		v, err := jv.UnmarshalNoCopy(buf)
		if err != nil {
			c.Fail("valid JSON rejected: %v", err)
		}
		if d := diffV(v, want); d != "" {
			c.Fail("%s", d)
		}
		c.Eval(1)
		c.HitN("volume_mb", size>>20)
		for i := 0; i < 20; i++ {
			t := genTree(c.R, &genCfg{maxDepth: 3, maxKids: 5}, 0)
			text := render(c.R, t, genStyle(c.R))
			c.Note("after %d MB: text %q", (round+1)*size>>20, text)
			p01Check(c, text, t, c.R.Intn(9))
		}
	}
	c.Distinct("volume")
}
