package main

import (
	"math"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Generators of values, texts and hostile bytes.

type genCfg struct {
	maxDepth  int
	maxKids   int
	nonFinite bool // NaN and infinities
	badUTF8   bool // malformed strings (only for values built by constructors)
	nulls     int  // weight of null, default 1
	keys      []string
	narrow    bool   // no wide nodes
	kin       string // most strings and keys are relatives of this one
}

// kinBase makes a string to draw relatives of
func kinBase(r *rand.Rand) string {
	n := []int{3 + r.Intn(14), 14 + r.Intn(8), 28 + r.Intn(10), 36 + r.Intn(40), 60 + r.Intn(140)}[r.Intn(5)]
	var b strings.Builder
	for b.Len() < n {
		if r.Intn(12) == 0 {
			b.WriteRune(genRune(r))
		} else {
			b.WriteByte("abcdefghijklmnopqrstuvwxyz0123456789-_. /"[r.Intn(41)])
		}
	}
	return b.String()
}

// kinOf makes a relative of base: of the same or nearly the same length and
// equal to it but for one place. Code that recognises strings it has seen by
// their ends, their length or a sample of their bytes takes it for another one.
func kinOf(r *rand.Rand, base string) string {
	u := []rune(base)
	p := r.Intn(len(u))
	switch r.Intn(8) {
	case 0:
		return base
	case 1:
		return string(u[:p]) + string(u[p+1:])
	case 2:
		return string(u[:p]) + string(genRune(r)) + string(u[p:])
	case 3: // two swapped
		q := r.Intn(len(u))
		u[p], u[q] = u[q], u[p]
	case 4: // upper case
		if u[p] >= 'a' && u[p] <= 'z' {
			u[p] -= 32
		}
	case 5: // in the middle
		p = len(u)/4 + r.Intn(len(u)/2+1)
		fallthrough
	default:
		u[p] = rune("abcdefghijklmnopqrstuvwxyz0123456789ABC\"\\<"[r.Intn(42)])
	}
	return string(u)
}

var nastyStrings = []string{
	"", " ", "a", "A", "key", "Key", "KEY", "\"", "\\", "/", "'", "\b", "\f", "\n", "\r", "\t", "\x00", "\x01", "\x1f", "\x7f",
	"\u0080", "\u00e9", "é", "ß", "İ", "ı", "K", "k", "ſ", "\u07ff", "\u0800", "\u2028", "\u2029", "\ufeff", "\uffff", "\ufffd", "\U00010000", "\U0001F600", "\U0010FFFF",
	"中文", "<script>&amp;</script>", "a/b", "\\u0041", "\\\"", "\"}", "],", "{\"a\":1}", "null", "true", "false", "0", "-1", "12345", "1.5e3", "1e999", "NaN",
	"\r\n", "  lead", "trail  ", "ab\x00cd", strings.Repeat("x", 31), strings.Repeat("\"", 17), strings.Repeat("é", 33), strings.Repeat("\U0001F600", 9),
	".", "-", "0x10", "k0", "k1", "k2", "k3", "K0", "K1", "ȺȾ", "ȺbC", "ΑΒΓ", "αβγ", "Σ", "σ", "ς",
}

var badStrings = []string{
	"\xff", "\x80", "a\xc2", "\xe0\x80", "\xed\xa0\x80", "\xf0\x82\x82\xac", "\xf5\x80\x80\x80", "x\xc3\x28y", "\xc0\xaf", "\xfe\xfe", "ok\xe4\xb8", "\xf4\x90\x80\x80",
}

func genRune(r *rand.Rand) rune {
	switch r.Intn(8) {
	case 0:
		return rune(r.Intn(0x20))
	case 1, 2, 3:
		return rune(0x20 + r.Intn(0x60))
	case 4:
		return rune(0x80 + r.Intn(0x780))
	case 5:
		x := rune(0x800 + r.Intn(0xF800))
		if x >= 0xD800 && x < 0xE000 {
			x -= 0x800
		}
		return x
	case 6:
		return rune(0x10000 + r.Intn(0x100000))
	default:
		return []rune{'"', '\\', '/', '<', '>', '&', '\'', 0x7f, 0x2028, 0x2029, 0xFFFD, 0xFFFF, 0xD7FF, 0xE000, 0x10FFFF, 0x7FF, 0x800}[r.Intn(17)]
	}
}

func genString(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0, 1:
		return nastyStrings[r.Intn(len(nastyStrings))]
	case 2:
		const al = "abcXYZ019 _-"
		n := r.Intn(12)
		b := make([]byte, n)
		for i := range b {
			b[i] = al[r.Intn(len(al))]
		}
		return string(b)
	default:
		n := r.Intn(10)
		if r.Intn(40) == 0 {
			n = r.Intn(300)
		}
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(genRune(r))
		}
		return b.String()
	}
}

func genBadString(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		return badStrings[r.Intn(len(badStrings))]
	}
	n := r.Intn(10)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	if r.Intn(3) == 0 { // somewhere in a long and otherwise plain string
		bad := string(b)
		if r.Intn(2) == 0 {
			bad = badStrings[r.Intn(len(badStrings))]
		}
		unit := []string{"x", "plain text ", "é", "中", "0"}[r.Intn(5)]
		return strings.Repeat(unit, r.Intn(1<<uint(1+r.Intn(9)))) + bad + strings.Repeat(unit, r.Intn(1<<uint(1+r.Intn(9))))
	}
	return string(b)
}

var edgeNumbers = []string{
	"0", "-0", "1", "-1", "9", "10", "127", "128", "255", "256", "-128", "-129", "32767", "32768", "65535", "65536",
	"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
	"9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740993",
	"9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809",
	"-9223372036854775807", "-9223372036854775808", "18446744073709551614", "18446744073709551615",
	"9999999999999999999", "10000000000000000000", "1000000000000000000", "999999999999999999",
	"0.0", "-0.0", "0.1", "0.5", "1.0", "1.5", "-1.5", "3.14159265358979323846264338327950288", "0e0", "0E+0", "-0e-0", "1e0", "1E5", "1e+5", "1e-5", "1.0e10", "123.456e-7",
	"1e21", "1e20", "1e-6", "1e-7", "1e308", "1.7976931348623157e308", "-1.7976931348623157e308", "2.2250738585072014e-308", "5e-324", "4.9e-324", "1e-324", "1e-400",
	"100000000000000000000.0", "12345678901234567890.5", "0.000000000000000000000000000001", "1e00", "1e007", "1.10", "1.100", "0.30000000000000004",
	"9223372036854775807.0", "9223372036854775808.0", "18446744073709551615.5", "-9223372036854775809.0", "1.0000000000000000000000000000000001",
}

// numbers beyond the representable range: must be rejected
var hugeNumbers = []string{
	"18446744073709551616", "18446744073709551617", "18446744073709551625", "18446744073709551620", "20000000000000000000", "28446744073709551616", "36893488147419103232",
	"99999999999999999999", "100000000000000000000", "184467440737095516150", "55340232221128654848", "46744073709551616000",
	"-9223372036854775809", "-9223372036854775810", "-9999999999999999999", "-10000000000000000000", "-18446744073709551616", "-18446744073709551615", "-18446744073709551617", "-27670116110564327424", "-99999999999999999999",
	"1e309", "-1e309", "1.8e308", "1e400", "-1e999", "1e99999", "123456789e400",
}

func genDigits(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte(r.Intn(10))
	}
	return string(b)
}

func genIntText(r *rand.Rand) string {
	switch r.Intn(5) {
	case 0:
		return strconv.Itoa(r.Intn(2000) - 1000)
	case 1:
		return strconv.FormatInt(int64(r.Uint64()), 10)
	case 2:
		return strconv.FormatUint(r.Uint64(), 10)
	case 3:
		return strconv.FormatInt(int64(r.Uint64())>>uint(r.Intn(64)), 10)
	default:
		return strconv.FormatUint(r.Uint64()>>uint(r.Intn(64)), 10)
	}
}

// genNumText makes a valid number text that is in range
func genNumText(r *rand.Rand) string {
	for {
		var s string
		switch r.Intn(6) {
		case 0:
			s = edgeNumbers[r.Intn(len(edgeNumbers))]
		case 1, 2:
			s = genIntText(r)
		case 3:
			f := math.Float64frombits(r.Uint64())
			if math.IsNaN(f) || math.IsInf(f, 0) {
				continue
			}
			s = strconv.FormatFloat(f, "eEfgG"[r.Intn(5)], r.Intn(20)-1, 64)
		case 4:
			s = strconv.FormatFloat(r.NormFloat64()*math.Pow(10, float64(r.Intn(30)-10)), "efg"[r.Intn(3)], r.Intn(12)-1, 64)
		default:
			if r.Intn(2) == 0 {
				s = "-"
			}
			if r.Intn(3) == 0 {
				s += "0"
			} else {
				s += string(byte('1'+r.Intn(9))) + genDigits(r, r.Intn(25))
			}
			if r.Intn(2) == 0 {
				s += "." + genDigits(r, 1+r.Intn(25))
			}
			if r.Intn(3) == 0 {
				s += []string{"e", "E", "e+", "E+", "e-", "E-"}[r.Intn(6)] + genDigits(r, 1+r.Intn(2))
			}
		}
		if validNumberText(s) && numberInRange(s) && len(s) < 400 {
			return s
		}
	}
}

func genScalar(r *rand.Rand, g *genCfg) *RV {
	nw := g.nulls
	if nw == 0 {
		nw = 1
	}
	switch n := r.Intn(7 + nw); {
	case n < 3:
		if g.badUTF8 && r.Intn(3) == 0 {
			return rStr(genBadString(r))
		}
		if g.kin != "" && r.Intn(4) != 0 {
			return rStr(kinOf(r, g.kin))
		}
		return rStr(genString(r))
	case n < 6:
		if g.nonFinite && r.Intn(4) == 0 {
			return rNaN([]float64{genAnyNaN(r), math.Inf(1), math.Inf(-1)}[r.Intn(3)])
		}
		return rNum(genNumText(r))
	case n < 7:
		return rBool(r.Intn(2) == 0)
	default:
		return rNull()
	}
}

// genAnyNaN is one of the many NaNs: either sign, quiet or signalling, any payload
func genAnyNaN(r *rand.Rand) float64 {
	switch r.Intn(4) {
	case 0:
		return math.NaN()
	case 1:
		return math.Copysign(math.NaN(), -1)
	}
	return math.Float64frombits(0x7FF<<52 | uint64(r.Intn(2))<<63 | 1<<uint(r.Intn(52)) | r.Uint64()>>uint(12+r.Intn(50)))
}

func genKey(r *rand.Rand, g *genCfg) string {
	if len(g.keys) > 0 {
		return g.keys[r.Intn(len(g.keys))]
	}
	if g.badUTF8 && r.Intn(10) == 0 {
		return genBadString(r)
	}
	if g.kin != "" && r.Intn(3) != 0 {
		return kinOf(r, g.kin)
	}
	return genString(r)
}

// keyFamily makes n different keys that look alike: a long shared prefix or
// suffix, a counter in the middle, keys that differ in one place, keys of one
// length, keys that are prefixes of each other. Code that compares, hashes or
// remembers keys by a part of them mixes these up.
func keyFamily(r *rand.Rand, n int) []string {
	pre := []string{"", "k", "field_", "configuration", "averyveryverylongsharedprefix_", "中文字段", "x-amz-meta-", "Key"}[r.Intn(8)]
	suf := []string{"", "_end", "-suffix", "结尾", "."}[r.Intn(5)]
	start := r.Intn(3) * r.Intn(1000)
	mode := r.Intn(6)
	seen := map[string]bool{}
	out := make([]string, 0, n)
	for i := 0; len(out) < n; i++ {
		var k string
		switch mode {
		case 0:
			k = pre + strconv.Itoa(start+i) + suf
		case 1:
			d := strconv.Itoa(start + i)
			k = pre + strings.Repeat("0", max(0, 6-len(d))) + d + suf
		case 2: // one place differs in a long key
			b := []byte(pre + strings.Repeat("a", 20) + suf)
			p := len(pre) + i%20
			b[p] = byte('A' + i/20%26)
			k = string(b)
			if i >= 520 {
				k += strconv.Itoa(i)
			}
		case 3: // prefixes of each other
			k = pre + strings.Repeat("ab", i/2)[:i/2*2] + strings.Repeat("c", i%2)
		case 4: // one length, any letters
			b := []byte(pre)
			for j := 0; j < 8; j++ {
				b = append(b, byte('a'+r.Intn(26)))
			}
			k = string(b) + suf
		default: // a shared prefix and a random tail
			k = pre + "shared__" + strings.Repeat("z", r.Intn(3)) + strconv.FormatUint(uint64(r.Intn(1<<uint(4+r.Intn(20)))), 36)
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		} else if i > 4*n+100 {
			mode, start, seen, out, i = 0, 0, map[string]bool{}, out[:0], 0
		}
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// wideCount is how many children a wide node has: around the sizes at which
// code likes to change its representation
func wideCount(r *rand.Rand) int {
	switch r.Intn(8) {
	case 0, 1, 2:
		return 9 + r.Intn(10)
	case 3, 4:
		return 24 + r.Intn(20)
	case 5, 6:
		return 60 + r.Intn(12)
	default:
		return 124 + r.Intn(12)
	}
}

// genWide makes a node with many children, mostly scalars
func genWide(r *rand.Rand, g *genCfg, depth int) *RV {
	kid := func() *RV {
		if r.Intn(40) == 0 && depth+1 < g.maxDepth {
			return genTree(r, &genCfg{maxDepth: depth + 3, maxKids: 3, nonFinite: g.nonFinite, badUTF8: g.badUTF8, nulls: g.nulls, keys: g.keys, kin: g.kin}, depth+1)
		}
		return genScalar(r, g)
	}
	n := wideCount(r)
	if r.Intn(2) == 0 {
		a := &RV{K: kArr}
		for i := 0; i < n; i++ {
			a.A = append(a.A, kid())
		}
		return a
	}
	o := rObj()
	if r.Intn(3) == 0 {
		for i := 0; i < n; i++ {
			o.set(genKey(r, g), kid())
		}
	}
	for _, k := range keyFamily(r, n-o.length()) {
		o.set(k, kid())
	}
	return o
}

func genTree(r *rand.Rand, g *genCfg, depth int) *RV {
	if depth == 0 && g.kin == "" && r.Intn(16) == 0 {
		h := *g
		h.kin = kinBase(r)
		g = &h
	}
	if depth >= g.maxDepth || r.Intn(5) == 0 {
		return genScalar(r, g)
	}
	if g.maxKids > 2 && !g.narrow && r.Intn(60) == 0 {
		return genWide(r, g, depth)
	}
	n := r.Intn(g.maxKids + 1)
	if r.Intn(2) == 0 {
		a := &RV{K: kArr}
		for i := 0; i < n; i++ {
			a.A = append(a.A, genKid(r, g, depth))
		}
		return a
	}
	o := rObj()
	for i := 0; i < n; i++ {
		o.set(genKey(r, g), genKid(r, g, depth))
	}
	return o
}

func genKid(r *rand.Rand, g *genCfg, depth int) *RV {
	if r.Intn(2) == 0 {
		return genScalar(r, g)
	}
	return genTree(r, g, depth+1)
}

// genDoc makes a document that is an array or an object
func genDoc(r *rand.Rand, g *genCfg) *RV {
	for {
		t := genTree(r, g, 0)
		if t.isCont() {
			return t
		}
	}
}

// ---------------------------------------------------------------- rendering with random styles

type style struct {
	ws    int // 0 none, 1 some, 2 a lot
	esc   int // 0 minimal, 1 random, 2 everything as \u
	dup   bool
	upper bool
}

func genStyle(r *rand.Rand) style {
	return style{ws: r.Intn(3), esc: r.Intn(3), dup: r.Intn(3) == 0, upper: r.Intn(2) == 0}
}

func ws(r *rand.Rand, b *[]byte, st style) {
	n := 0
	switch st.ws {
	case 1:
		if r.Intn(3) == 0 {
			n = 1
		}
	case 2:
		n = r.Intn(5)
	}
	for ; n > 0; n-- {
		*b = append(*b, " \t\r\n"[r.Intn(4)])
	}
}

func render(r *rand.Rand, v *RV, st style) []byte {
	var b []byte
	ws(r, &b, st)
	renderTo(r, &b, v, st)
	ws(r, &b, st)
	return b
}

func uEsc(b []byte, c rune, upper bool) []byte {
	const lo, up = "0123456789abcdef", "0123456789ABCDEF"
	h := lo
	if upper {
		h = up
	}
	return append(b, '\\', 'u', h[c>>12&15], h[c>>8&15], h[c>>4&15], h[c&15])
}

func uEscRune(b []byte, c rune, upper bool) []byte {
	if c >= 0x10000 {
		c -= 0x10000
		return uEsc(uEsc(b, 0xD800+c>>10, upper), 0xDC00+c&0x3FF, upper)
	}
	return uEsc(b, c, upper)
}

var shortEsc = map[rune]byte{'"': '"', '\\': '\\', '/': '/', 8: 'b', 12: 'f', 10: 'n', 13: 'r', 9: 't'}

// renderString renders a valid UTF-8 string as a JSON string in a random style
func renderString(r *rand.Rand, b []byte, s string, st style) []byte {
	b = append(b, '"')
	for _, c := range s {
		up := st.upper
		if st.esc == 1 {
			up = r.Intn(2) == 0
		}
		must := c < 0x20 || c == '"' || c == '\\'
		sh, hasShort := shortEsc[c]
		switch {
		case st.esc == 2 || st.esc == 1 && r.Intn(3) == 0:
			if hasShort && r.Intn(2) == 0 {
				b = append(b, '\\', sh)
			} else {
				b = uEscRune(b, c, up)
			}
		case must:
			if hasShort {
				b = append(b, '\\', sh)
			} else {
				b = uEscRune(b, c, up)
			}
		default:
			b = utf8.AppendRune(b, c)
		}
	}
	return append(b, '"')
}

func renderTo(r *rand.Rand, b *[]byte, v *RV, st style) {
	switch v.K {
	case kNull:
		*b = append(*b, "null"...)
	case kBool:
		*b = strconv.AppendBool(*b, v.B)
	case kNum:
		*b = append(*b, readable(v.N)...)
	case kStr:
		*b = renderString(r, *b, v.S, st)
	case kArr:
		*b = append(*b, '[')
		ws(r, b, st)
		for i, x := range v.A {
			if i > 0 {
				ws(r, b, st)
				*b = append(*b, ',')
				ws(r, b, st)
			}
			renderTo(r, b, x, st)
		}
		ws(r, b, st)
		*b = append(*b, ']')
	case kObj:
		*b = append(*b, '{')
		ws(r, b, st)
		first := true
		put := func(k string, x *RV) {
			if !first {
				ws(r, b, st)
				*b = append(*b, ',')
				ws(r, b, st)
			}
			first = false
			*b = renderString(r, *b, k, st)
			ws(r, b, st)
			*b = append(*b, ':')
			ws(r, b, st)
			renderTo(r, b, x, st)
		}
		for i, k := range v.Keys {
			if st.dup && r.Intn(5) == 0 {
				// a duplicate of a key that is still to come: the last one wins
				d := v.Keys[i+r.Intn(len(v.Keys)-i)]
				put(d, genTree(r, &genCfg{maxDepth: 2, maxKids: 2}, 0))
			}
			put(k, v.O[k])
		}
		ws(r, b, st)
		*b = append(*b, '}')
	}
}

// ---------------------------------------------------------------- hostile bytes

var mutTokens = []string{
	"{", "}", "[", "]", ",", ":", "\"", "\\", "null", "true", "false", "nul", "tru", "0", "-", "+", ".", "e", "E", "1", "-1", "01", "\\u", "\\ud800", "\\udc00", "\\u00", "\x00", "\x80", "\xff", "\xc2", "\xe2\x80", "\xf0\x9f\x98", " ", "\b", "\t", "/", "'", "//", "/*", "NaN", "Infinity", "\ufeff", "1e", "1.", ".5", "-.5", "\\'", "\"\"", "\"a\":1", "[]", "{}", "18446744073709551616", "1e999",
}

func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + r.Intn(3); n > 0; n-- {
		p := 0
		if len(b) > 0 {
			p = r.Intn(len(b))
		}
		switch r.Intn(8) {
		case 0: // delete a byte
			if len(b) > 0 {
				b = append(b[:p], b[p+1:]...)
			}
		case 1: // change a byte
			if len(b) > 0 {
				b[p] = byte(r.Intn(256))
			}
		case 2: // truncate
			b = b[:p]
		case 3, 4: // insert a token
			t := mutTokens[r.Intn(len(mutTokens))]
			b = append(b[:p:p], append([]byte(t), b[p:]...)...)
		case 5: // duplicate a span
			q := p + r.Intn(len(b)-p+1)
			if q-p < 200 {
				b = append(b[:q:q], append(append([]byte(nil), b[p:q]...), b[q:]...)...)
			}
		case 6: // swap two bytes
			if len(b) > 1 {
				q := r.Intn(len(b))
				b[p], b[q] = b[q], b[p]
			}
		default: // delete a span
			if len(b) > 0 {
				q := p + r.Intn(minInt(len(b)-p, 10)+1)
				b = append(b[:p], b[q:]...)
			}
		}
	}
	return b
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// nth decodes i as a word over an alphabet: words are ordered by length
func nthWord(i int, alphabet []string) []byte {
	n := len(alphabet)
	l, block := 0, 1
	for i >= block {
		i -= block
		l++
		block *= n
	}
	out := make([]string, l)
	for j := l - 1; j >= 0; j-- {
		out[j] = alphabet[i%n]
		i /= n
	}
	return []byte(strings.Join(out, ""))
}

// wordCount is the number of words of length <= l over n symbols
func wordCount(n, l int) int {
	t, b := 0, 1
	for i := 0; i <= l; i++ {
		t += b
		b *= n
	}
	return t
}

func genNaN(r *rand.Rand) float64 {
	return []float64{genAnyNaN(r), math.Inf(1), math.Inf(-1)}[r.Intn(3)]
}
