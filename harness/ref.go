package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// This file is the reference for JSON texts. It is written from RFC 8259 and shares no code with the
// library under test; selftest.go cross-checks it against encoding/json.

type kind uint8

const (
	kNull kind = iota
	kBool
	kNum
	kStr
	kArr
	kObj
)

var kindNames = [...]string{"null", "bool", "number", "string", "array", "object"}

// RV is a reference JSON value.
type RV struct {
	K kind
	B bool
	S string // kStr
	N string // kNum: number text; empty for a non-finite number
	F float64
	A []*RV
	// Keys is the key sequence: when set last, in ascending order
	Keys []string
	O    map[string]*RV
}

func rNull() *RV           { return &RV{K: kNull} }
func rBool(b bool) *RV     { return &RV{K: kBool, B: b} }
func rStr(s string) *RV    { return &RV{K: kStr, S: s} }
func rNum(t string) *RV    { return &RV{K: kNum, N: t} }
func rNaN(f float64) *RV   { return &RV{K: kNum, F: f} }
func rArr(a ...*RV) *RV    { return &RV{K: kArr, A: a} }
func rObj() *RV            { return &RV{K: kObj, O: map[string]*RV{}} }
func (r *RV) isCont() bool { return r.K == kArr || r.K == kObj }
func (r *RV) nonFin() bool { return r.K == kNum && r.N == "" }

// set sets a key: a key set again moves to the end of the sequence
func (r *RV) set(k string, v *RV) {
	if _, ok := r.O[k]; ok {
		r.dropKey(k)
	}
	r.Keys = append(r.Keys, k)
	r.O[k] = v
}

// length is the number of members or elements
func (r *RV) length() int {
	if r.K == kObj {
		return len(r.O)
	}
	return len(r.A)
}

func (r *RV) dropKey(k string) {
	for i, x := range r.Keys {
		if x == k {
			r.Keys = append(r.Keys[:i:i], r.Keys[i+1:]...)
			return
		}
	}
}

func (r *RV) del(k string) {
	r.dropKey(k)
	delete(r.O, k)
}

func (r *RV) clone() *RV {
	c := *r
	if r.A != nil {
		c.A = make([]*RV, len(r.A))
		for i, x := range r.A {
			c.A[i] = x.clone()
		}
	}
	if r.O != nil {
		c.O = make(map[string]*RV, len(r.O))
		for k, x := range r.O {
			c.O[k] = x.clone()
		}
		c.Keys = append([]string(nil), r.Keys...)
	}
	return &c
}

// size counts values
func (r *RV) size() int {
	n := 1
	for _, x := range r.A {
		n += x.size()
	}
	for _, x := range r.O {
		n += x.size()
	}
	return n
}

// canon prints a value unambiguously, keys sorted
func (r *RV) canon() string {
	var b strings.Builder
	r.canonTo(&b, false)
	return b.String()
}

// canonSeq prints a value unambiguously, in key sequence
func (r *RV) canonSeq() string {
	var b strings.Builder
	r.canonTo(&b, true)
	return b.String()
}

func (r *RV) canonTo(b *strings.Builder, seq bool) {
	switch r.K {
	case kNull:
		b.WriteString("null")
	case kBool:
		b.WriteString(strconv.FormatBool(r.B))
	case kNum:
		if r.N == "" {
			fmt.Fprintf(b, "<%v>", r.F)
		} else {
			b.WriteString(r.N)
		}
	case kStr:
		b.WriteString(strconv.QuoteToASCII(r.S))
	case kArr:
		b.WriteByte('[')
		for i, x := range r.A {
			if i > 0 {
				b.WriteByte(',')
			}
			x.canonTo(b, seq)
		}
		b.WriteByte(']')
	case kObj:
		b.WriteByte('{')
		ks := r.Keys
		if !seq {
			ks = append([]string(nil), r.Keys...)
			sort.Strings(ks)
		}
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.QuoteToASCII(k))
			b.WriteByte(':')
			r.O[k].canonTo(b, seq)
		}
		b.WriteByte('}')
	}
}

func (r *RV) equal(o *RV) bool {
	if r.K != o.K {
		return false
	}
	switch r.K {
	case kBool:
		return r.B == o.B
	case kNum:
		if r.N == "" && o.N == "" {
			return r.F == o.F || (r.F != r.F && o.F != o.F)
		}
		return r.N == o.N
	case kStr:
		return r.S == o.S
	case kArr:
		if len(r.A) != len(o.A) {
			return false
		}
		for i := range r.A {
			if !r.A[i].equal(o.A[i]) {
				return false
			}
		}
	case kObj:
		if len(r.O) != len(o.O) {
			return false
		}
		for k, x := range r.O {
			y, ok := o.O[k]
			if !ok || !x.equal(y) {
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- parsing

type refParser struct {
	b       []byte
	i       int
	lenient bool
	// lone reports a lone surrogate escape, big a number beyond the supported range: RFC 8259 allows
	// both syntactically and lets an implementation set limits
	lone, big, dup bool
	depth          int
	maxDepth       int
}

type refResult struct {
	v         *RV
	ok        bool
	lone, big bool
	dup       bool // an object has a key twice
	maxDepth  int
}

// refParse parses one JSON text by RFC 8259. With lenient it also accepts what the library documents or is
// known to tolerate: surplus or missing commas, raw control characters and \' in strings, \b as blank.
func refParse(b []byte, lenient bool) (res refResult) {
	p := &refParser{b: b, lenient: lenient}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(refErr); !ok {
				panic(r)
			}
			res = refResult{lone: p.lone, big: p.big, dup: p.dup, maxDepth: p.maxDepth}
		}
	}()
	p.blanks()
	v := p.value()
	p.blanks()
	if p.i != len(p.b) {
		p.bad()
	}
	return refResult{v: v, ok: true, lone: p.lone, big: p.big, dup: p.dup, maxDepth: p.maxDepth}
}

type refErr struct{}

func (p *refParser) bad() { panic(refErr{}) }

func (p *refParser) peek() byte {
	if p.i >= len(p.b) {
		p.bad()
	}
	return p.b[p.i]
}

func (p *refParser) blanks() {
	for p.i < len(p.b) {
		switch p.b[p.i] {
		case ' ', '\t', '\n', '\r':
		case '\b':
			if !p.lenient {
				return
			}
		default:
			return
		}
		p.i++
	}
}

func (p *refParser) lit(s string) {
	if p.i+len(s) > len(p.b) || string(p.b[p.i:p.i+len(s)]) != s {
		p.bad()
	}
	p.i += len(s)
}

func (p *refParser) value() *RV {
	switch c := p.peek(); {
	case c == 'n':
		p.lit("null")
		return rNull()
	case c == 't':
		p.lit("true")
		return rBool(true)
	case c == 'f':
		p.lit("false")
		return rBool(false)
	case c == '"':
		return rStr(p.str())
	case c == '-' || c >= '0' && c <= '9':
		return p.num()
	case c == '[':
		p.enter()
		defer p.leave()
		if p.lenient {
			return p.arrLenient()
		}
		return p.arr()
	case c == '{':
		p.enter()
		defer p.leave()
		return p.obj()
	}
	p.bad()
	return nil
}

func (p *refParser) enter() {
	p.depth++
	if p.depth > p.maxDepth {
		p.maxDepth = p.depth
	}
}
func (p *refParser) leave() { p.depth-- }

func (p *refParser) arr() *RV {
	r := &RV{K: kArr}
	p.i++
	p.blanks()
	if p.peek() == ']' {
		p.i++
		return r
	}
	for {
		p.blanks()
		r.A = append(r.A, p.value())
		p.blanks()
		switch p.peek() {
		case ',':
			p.i++
		case ']':
			p.i++
			return r
		default:
			p.bad()
		}
	}
}

func (p *refParser) arrLenient() *RV {
	r := &RV{K: kArr}
	p.i++
	for {
		p.blanks()
		switch p.peek() {
		case ',':
			p.i++
		case ']':
			p.i++
			return r
		default:
			r.A = append(r.A, p.value())
		}
	}
}

func (p *refParser) obj() *RV {
	r := rObj()
	p.i++
	p.blanks()
	first := true
	for {
		p.blanks()
		c := p.peek()
		if p.lenient {
			for c == ',' {
				p.i++
				p.blanks()
				c = p.peek()
			}
			if c == '}' {
				p.i++
				return r
			}
		} else if first && c == '}' {
			p.i++
			return r
		}
		first = false
		if c != '"' {
			p.bad()
		}
		k := p.str()
		p.blanks()
		if p.peek() != ':' {
			p.bad()
		}
		p.i++
		p.blanks()
		if _, ok := r.O[k]; ok {
			p.dup = true
		}
		r.set(k, p.value())
		p.blanks()
		if p.lenient {
			continue
		}
		switch p.peek() {
		case ',':
			p.i++
		case '}':
			p.i++
			return r
		default:
			p.bad()
		}
	}
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// validNumberText is the number grammar of RFC 8259
func validNumberText(s string) bool {
	i := 0
	if i < len(s) && s[i] == '-' {
		i++
	}
	if i >= len(s) {
		return false
	}
	if s[i] == '0' {
		i++
	} else if isDigit(s[i]) {
		for i < len(s) && isDigit(s[i]) {
			i++
		}
	} else {
		return false
	}
	if i < len(s) && s[i] == '.' {
		i++
		n := i
		for i < len(s) && isDigit(s[i]) {
			i++
		}
		if i == n {
			return false
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		n := i
		for i < len(s) && isDigit(s[i]) {
			i++
		}
		if i == n {
			return false
		}
	}
	return i == len(s)
}

func isFloatText(s string) bool { return strings.ContainsAny(s, ".eE") }

var (
	bigMinI64 = big.NewInt(math.MinInt64)
	bigMaxU64 = new(big.Int).SetUint64(math.MaxUint64)
)

// numberInRange tells whether a valid number text is within the range a 64-bit library can represent:
// integers in [-2^63, 2^64), anything with a fraction or an exponent finite as a float64.
func numberInRange(s string) bool {
	if isFloatText(s) {
		f, err := strconv.ParseFloat(s, 64)
		return err == nil && !math.IsInf(f, 0)
	}
	n, ok := new(big.Int).SetString(s, 10)
	return ok && n.Cmp(bigMinI64) >= 0 && n.Cmp(bigMaxU64) <= 0
}

func (p *refParser) num() *RV {
	j := p.i
	for j < len(p.b) && (isDigit(p.b[j]) || strings.IndexByte("+-.eE", p.b[j]) >= 0) {
		j++
	}
	s := string(p.b[p.i:j])
	if !validNumberText(s) {
		p.bad()
	}
	if !numberInRange(s) {
		p.big = true
	}
	p.i = j
	return rNum(s)
}

func hex4(b []byte) (rune, bool) {
	if len(b) < 4 {
		return 0, false
	}
	var r rune
	for _, c := range b[:4] {
		r <<= 4
		switch {
		case c >= '0' && c <= '9':
			r |= rune(c - '0')
		case c >= 'a' && c <= 'f':
			r |= rune(c-'a') + 10
		case c >= 'A' && c <= 'F':
			r |= rune(c-'A') + 10
		default:
			return 0, false
		}
	}
	return r, true
}

func (p *refParser) str() string {
	p.i++
	var out []byte
	for {
		c := p.peek()
		switch {
		case c == '"':
			p.i++
			return string(out)
		case c == '\\':
			p.i++
			e := p.peek()
			p.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case '\'':
				if !p.lenient {
					p.bad()
				}
				out = append(out, e)
			case 'b':
				out = append(out, 8)
			case 'f':
				out = append(out, 12)
			case 'n':
				out = append(out, 10)
			case 'r':
				out = append(out, 13)
			case 't':
				out = append(out, 9)
			case 'u':
				r, ok := hex4(p.b[p.i:])
				if !ok {
					p.bad()
				}
				p.i += 4
				if r >= 0xD800 && r < 0xE000 {
					ok := false
					if r < 0xDC00 && p.i+6 <= len(p.b) && p.b[p.i] == '\\' && p.b[p.i+1] == 'u' {
						if lo, k := hex4(p.b[p.i+2:]); k && lo >= 0xDC00 && lo < 0xE000 {
							r = (r-0xD800)<<10 + (lo - 0xDC00) + 0x10000
							p.i += 6
							ok = true
						}
					}
					if !ok {
						p.lone = true
						r = utf8.RuneError
					}
				}
				out = utf8.AppendRune(out, r)
			default:
				p.bad()
			}
		case c < 0x20:
			if !p.lenient {
				p.bad()
			}
			out = append(out, c)
			p.i++
		case c < 0x80:
			out = append(out, c)
			p.i++
		default:
			r, n := utf8.DecodeRune(p.b[p.i:])
			if r == utf8.RuneError && n <= 1 {
				p.bad() // RFC 8259: a JSON text is UTF-8
			}
			out = append(out, p.b[p.i:p.i+n]...)
			p.i += n
		}
	}
}

// ratOf is the exact value of a number text, or nil when its exponent is too large to write it out
func ratOf(s string) *big.Rat {
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		if n, err := strconv.Atoi(strings.TrimPrefix(s[i+1:], "+")); err != nil || n > 5000 || n < -5000 {
			return nil
		}
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return nil
	}
	return r
}

// sciOf is a number text as m * 10^e
func sciOf(s string) (m, e *big.Int) {
	m, e = new(big.Int), new(big.Int)
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		e.SetString(s[i+1:], 10)
		s = s[:i]
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		e.Sub(e, big.NewInt(int64(len(s)-i-1)))
		s = s[:i] + s[i+1:]
	}
	m.SetString(s, 10)
	return
}

// exactCmp compares the exact values of two number texts, however large their exponents
func exactCmp(a, b string) int {
	if x, y := ratOf(a), ratOf(b); x != nil && y != nil {
		return x.Cmp(y)
	}
	m1, e1 := sciOf(a)
	m2, e2 := sciOf(b)
	if m1.Sign() != m2.Sign() || m1.Sign() == 0 {
		return m1.Sign() - m2.Sign()
	}
	// where the exponents are further apart than the numbers have digits, they decide
	d := new(big.Int).Sub(e1, e2)
	far := big.NewInt(int64(len(m1.String()) + len(m2.String()) + 2))
	switch {
	case d.Cmp(far) > 0:
		return m1.Sign()
	case d.Cmp(far.Neg(far)) < 0:
		return -m1.Sign()
	case d.Sign() >= 0:
		m1.Mul(m1, new(big.Int).Exp(big.NewInt(10), d, nil))
	default:
		m2.Mul(m2, new(big.Int).Exp(big.NewInt(10), d.Neg(d), nil))
	}
	return m1.Cmp(m2)
}
