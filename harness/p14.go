package main

import (
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P14",
		Rule: "number pairs and triples around boundaries, in different spellings and representations, against math/big; random trees against respelled, permuted and rebuilt copies (equal) and against copies with one difference (unequal); " +
			"non-trivial: distinct pairs whose texts differ",
		Need: []string{"nan_itself", "num_equal", "num_less", "num_close", "nonfinite", "mixed_types", "tree_equal", "tree_changed", "transitive", "permuted", "huge_exponents", "operators"},
		Suites: []Suite{
			{Name: "numbers", Quick: 500000, Thorough: 6000000, Run: p14Numbers},
			{Name: "exponents", Quick: 30000, Thorough: 400000, Run: p14Exponents},
			{Name: "grid", Quick: 2000, Thorough: 4000, Run: p14Grid},
			{Name: "sizes", Quick: 96, Thorough: 2000, Run: p14Sized},
			{Name: "trees", Quick: 450000, Thorough: 2000000, Run: p14Trees},
			{Name: "types", Quick: 40000, Thorough: 100000, Run: p14Types},
			{Name: "life", Quick: 6000, Thorough: 90000, Run: lifeRun(genCfg{nulls: 2}, readEqual)},
		},
	})
}

// cmpNum is a number with its exact value
type cmpNum struct {
	v    *jv.V
	text string // "" for non-finite
	f    float64
	desc string
}

// exactText reads the text a value marshals to, which is the number it denotes
func textNum(v *jv.V, desc string) cmpNum {
	f := v.Float64()
	if b, err := v.Marshal(); err == nil {
		return cmpNum{v, string(b), f, desc + " " + string(b)}
	}
	return cmpNum{v, "", f, desc + " " + strconv.FormatFloat(f, 'g', -1, 64)}
}

func expSmall(s string) bool {
	i := strings.IndexAny(s, "eE")
	if i < 0 {
		return true
	}
	n, err := strconv.Atoi(strings.TrimPrefix(s[i+1:], "+"))
	return err == nil && n > -400 && n < 400
}

// respell writes the same number another way
func respell(r *rand.Rand, s string) string {
	if !expSmall(s) {
		return respellHuge(r, s)
	}
	x := ratOf(s)
	mant, exp := s, 0
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		mant = s[:i]
		exp, _ = strconv.Atoi(strings.TrimPrefix(s[i+1:], "+"))
	}
	neg := strings.HasPrefix(mant, "-")
	mant = strings.TrimPrefix(mant, "-")
	ip, fp, _ := strings.Cut(mant, ".")
	// move the point
	k := r.Intn(9) - 4
	for ; k > 0; k-- {
		if fp == "" {
			fp = "0"
		}
		ip += fp[:1]
		fp = fp[1:]
		exp--
	}
	for ; k < 0; k++ {
		if len(ip) <= 1 {
			ip = "0" + ip
		}
		fp = ip[len(ip)-1:] + fp
		ip = ip[:len(ip)-1]
		exp++
	}
	ip = strings.TrimLeft(ip, "0")
	if ip == "" {
		ip = "0"
	}
	if r.Intn(2) == 0 {
		fp += strings.Repeat("0", r.Intn(5))
	}
	out := ip
	if neg {
		out = "-" + out
	}
	if fp != "" {
		out += "." + fp
	}
	if exp != 0 || r.Intn(3) == 0 {
		out += []string{"e", "E"}[r.Intn(2)]
		if exp >= 0 && r.Intn(2) == 0 {
			out += "+"
		}
		out += strconv.Itoa(exp)
	}
	if !validNumberText(out) || !numberInRange(out) || ratOf(out).Cmp(x) != 0 || !expSmall(out) {
		return s
	}
	return out
}

// nudge writes a number that differs a little
func nudge(r *rand.Rand, s string) string {
	if !expSmall(s) {
		return nudgeHuge(r, s)
	}
	b := []byte(s)
	for try := 0; try < 20; try++ {
		out := ""
		switch r.Intn(4) {
		case 0:
			i := r.Intn(len(b))
			c := append([]byte(nil), b...)
			if isDigit(c[i]) {
				c[i] = '0' + byte(r.Intn(10))
			}
			out = string(c)
		case 1:
			if strings.HasPrefix(s, "-") {
				out = s[1:]
			} else {
				out = "-" + s
			}
		case 2:
			i := strings.IndexAny(s, "eE")
			m, e := s, ""
			if i >= 0 {
				m, e = s[:i], s[i:]
			}
			if !strings.Contains(m, ".") {
				m += ".0"
			}
			out = m + strings.Repeat("0", r.Intn(20)) + "1" + e
		default:
			i := strings.IndexAny(s, "eE")
			if i < 0 {
				out = s + "e" + []string{"1", "-1", "2"}[r.Intn(3)]
			} else {
				n, _ := strconv.Atoi(strings.TrimPrefix(s[i+1:], "+"))
				out = s[:i] + "e" + strconv.Itoa(n+r.Intn(3)-1)
			}
		}
		if validNumberText(out) && numberInRange(out) && expSmall(out) {
			return out
		}
	}
	return s
}

var hugeExps = []string{"400", "999", "1000", "1001", "9999", "10000", "32767", "32768", "65536", "99999", "100000", "1000000", "999999999", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297",
	"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "00000000000000000000000400", "340282366920938463463374607431768211456"}

// hugeNum writes a number with an exponent beyond any float: a tiny number, which parses as its text says, or zero
func hugeNum(r *rand.Rand) string {
	s := []string{"1", "2", "10", "12", "0", "0.0", "100", "1.5", "0.15", "9.99", "123456789.123456789", "0.000001"}[r.Intn(12)]
	if r.Intn(3) == 0 {
		s = strconv.FormatUint(uint64(r.Int63()), 10) + "." + strconv.Itoa(r.Intn(1000))
	}
	sign := "-"
	if strings.Trim(s, "0.") == "" {
		sign = []string{"-", "+", ""}[r.Intn(3)]
	}
	if r.Intn(3) == 0 {
		s = "-" + s
	}
	return s + []string{"e", "E"}[r.Intn(2)] + sign + hugeExps[r.Intn(len(hugeExps))]
}

func splitHuge(s string) (mant string, exp *big.Int) {
	i := strings.IndexAny(s, "eE")
	exp, _ = new(big.Int).SetString(s[i+1:], 10)
	return s[:i], exp
}

// respellHuge shifts the point of a number and corrects the exponent
func respellHuge(r *rand.Rand, s string) string {
	m, e := sciOf(s)
	d := m.String()
	neg := ""
	if m.Sign() < 0 {
		neg, d = "-", d[1:]
	}
	if m.Sign() == 0 {
		return hugeZero(r)
	}
	k := r.Intn(7)
	d += strings.Repeat("0", k)
	e.Sub(e, big.NewInt(int64(k)))
	if p := r.Intn(len(d) + 3); p > 0 { // p digits behind the point
		if p >= len(d) {
			d = strings.Repeat("0", p-len(d)+1) + d
		}
		d = d[:len(d)-p] + "." + d[len(d)-p:]
		e.Add(e, big.NewInt(int64(p)))
	}
	out := neg + d + []string{"e", "E"}[r.Intn(2)]
	if e.Sign() >= 0 && r.Intn(2) == 0 {
		out += "+"
	}
	out += e.String()
	if !validNumberText(out) || !numberInRange(out) || exactCmp(out, s) != 0 {
		return s
	}
	return out
}

func hugeZero(r *rand.Rand) string {
	for {
		if s := hugeNum(r); strings.Trim(s[:strings.IndexAny(s, "eE")], "-0.") == "" {
			return s
		}
	}
}

// nudgeHuge writes a number that differs a little
func nudgeHuge(r *rand.Rand, s string) string {
	m, e := splitHuge(s)
	out := s
	switch r.Intn(5) {
	case 0:
		e.Add(e, big.NewInt(int64(r.Intn(3)-1)))
		out = m + "e" + e.String()
	case 1: // by a power of two, where a conversion would wrap
		d := new(big.Int).Lsh(big.NewInt(1), []uint{16, 31, 32, 63, 64}[r.Intn(5)])
		out = m + "e" + e.Sub(e, d).String()
	case 2:
		if !strings.Contains(m, ".") {
			m += "."
		}
		out = m + strings.Repeat("0", r.Intn(20)) + "1e" + e.String()
	case 3:
		if out = "-" + s; s[0] == '-' {
			out = s[1:]
		}
	case 4:
		out = hugeNum(r)
	}
	if !validNumberText(out) || !numberInRange(out) {
		return s
	}
	return out
}

// p14Exponents: numbers with exponents of any size
func p14Exponents(c *Case) {
	r := c.R
	a := hugeNum(r)
	list := []string{a, respellHuge(r, a), nudgeHuge(r, a)}
	list = append(list, nudgeHuge(r, list[1]), hugeNum(r), []string{"0", "1", "-1", "0.0", "5e-324", "1e308", smallNum(r)}[r.Intn(7)])
	num := make([]cmpNum, len(list))
	for i, s := range list {
		num[i] = textNum(mustParse2(c, s), "parsed")
	}
	for i := range num {
		for j := range num {
			c.Note("%s and %s", num[i].desc, num[j].desc)
			p14Pair(c, num[i], num[j])
		}
	}
	c.Hit("huge_exponents")
	c.Distinct(list[0], list[2])
}

func smallNum(r *rand.Rand) string {
	for {
		s := genNumText(r)
		if expSmall(s) {
			return s
		}
	}
}

func genCmp(c *Case) cmpNum {
	r := c.R
	switch r.Intn(10) {
	case 0:
		return textNum(jv.NewFloat64([]float64{genAnyNaN(r), math.Inf(1), math.Inf(-1)}[r.Intn(3)]), "NewFloat64")
	case 1:
		f := genFiniteFloat(r)
		return textNum(jv.NewFloat64(f), "NewFloat64")
	case 2:
		return textNum(jv.NewFloat32(float32(r.NormFloat64()*math.Pow(2, float64(r.Intn(40))))), "NewFloat32")
	case 3:
		return textNum(jv.NewInt64(genInt64(r)), "NewInt64")
	case 4:
		return textNum(jv.NewUint64(uint64(genInt64(r))), "NewUint64")
	case 5:
		return textNum(jv.NewFloat64f(genFiniteFloat(r), "feEgG"[r.Intn(5)], r.Intn(8)), "NewFloat64f")
	}
	return textNum(mustParse(c, smallNum(r)), "parsed")
}

// derive makes a number related to n
func derive(c *Case, n cmpNum) cmpNum {
	r := c.R
	if n.text == "" || r.Intn(4) == 0 {
		return genCmp(c)
	}
	b, _ := n.v.Marshal()
	s := string(b)
	switch r.Intn(6) {
	case 0, 1:
		return textNum(mustParse2(c, respell(r, s)), "parsed")
	case 2, 3:
		return textNum(mustParse2(c, nudge(r, s)), "parsed")
	case 4:
		return textNum(jv.NewFloat64(n.v.Float64()), "NewFloat64")
	}
	return textNum(jv.NewFloat64(math.Nextafter(n.v.Float64(), float64(r.Intn(3)-1)*math.MaxFloat64)), "NewFloat64")
}

// mustParse2 parses a number that may be one of those floats whose text this library's parser refuses
func mustParse2(c *Case, s string) *jv.V {
	if !numberInRange(s) {
		f, _ := strconv.ParseFloat(s, 64)
		return jv.NewFloat64(f)
	}
	return mustParse(c, s)
}

func cmpOf(a, b cmpNum) (cmp int, ordered bool) {
	if a.text != "" && b.text != "" {
		return exactCmp(a.text, b.text), true
	}
	x, y := a.f, b.f
	if x != x || y != y {
		return 0, false
	}
	if a.text != "" {
		x = 0
	}
	if b.text != "" {
		y = 0
	}
	switch {
	case x < y:
		return -1, true
	case x > y:
		return 1, true
	}
	return 0, true
}

func p14Pair(c *Case, a, b cmpNum) {
	cmp, ord := cmpOf(a, b)
	c.Eval(5)
	c.Hit("operators")
	if got, want := a.v.Equal(b.v), ord && cmp == 0; got != want {
		c.Fail("Equal of [%s] and [%s] is %v", a.desc, b.desc, got)
	}
	for i, got := range []bool{a.v.GreaterThan(b.v), a.v.GreaterThanOrEqual(b.v), a.v.LessThan(b.v), a.v.LessThanOrEqual(b.v)} {
		want := ord && []bool{cmp > 0, cmp >= 0, cmp < 0, cmp <= 0}[i]
		if got != want {
			c.Fail("%s of [%s] and [%s] is %v", []string{"GreaterThan", "GreaterThanOrEqual", "LessThan", "LessThanOrEqual"}[i], a.desc, b.desc, got)
		}
	}
	switch {
	case a.text == "" || b.text == "":
		c.Hit("nonfinite")
	case cmp == 0:
		c.Hit("num_equal")
	default:
		c.Hit("num_less")
		if a.f == b.f {
			c.Hit("num_close")
		}
	}
}

func p14Numbers(c *Case) {
	a := genCmp(c)
	b := derive(c, a)
	d := derive(c, b)
	c.Note("%s, %s and %s", a.desc, b.desc, d.desc)
	all := []cmpNum{a, b, d}
	for _, x := range all {
		for _, y := range all {
			p14Pair(c, x, y)
		}
	}
	if a.v.Equal(b.v) && b.v.Equal(d.v) {
		if !a.v.Equal(d.v) {
			c.Fail("Equal is not transitive on [%s], [%s], [%s]", a.desc, b.desc, d.desc)
		}
		c.Hit("transitive")
	}
	// inside containers, numbers compare alike
	x, y := jv.NewObject(), jv.NewObject()
	x.MustSetArray().At("k")
	y.MustSetArray().At("k")
	x.MustAppend(a.v).InTheEnd("k")
	y.MustAppend(b.v).InTheEnd("k")
	if cmp, ord := cmpOf(a, b); x.Equal(y) != (ord && cmp == 0) {
		c.Fail("containers holding [%s] and [%s]: Equal is %v", a.desc, b.desc, x.Equal(y))
	}
	for _, z := range all { // the comparison changed nothing
		if got := textNum(z.v, ""); got.text == "" != (z.text == "") || got.text != "" && exactCmp(got.text, z.text) != 0 {
			c.Fail("[%s] changed by comparison", z.desc)
		}
	}
	if a.desc != b.desc {
		c.Distinct(a.desc, b.desc)
	}
	if c.Index < 8 {
		c.Sample("%s | %s | %s", a.desc, b.desc, d.desc)
	}
}

// p14Grid compares all pairs of a list of boundary numbers, one row at a time
func p14Grid(c *Case) {
	var list []cmpNum
	for _, s := range edgeNumbers {
		if expSmall(s) && numberInRange(s) {
			list = append(list, textNum(mustParse(c, s), "parsed"))
		}
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1 << 53, 1<<53 + 2, 1 << 63, 1 << 62, -(1 << 63), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1e20, 1e21, 1.5} {
		list = append(list, textNum(jv.NewFloat64(f), "NewFloat64"), textNum(jv.NewFloat32(float32(f)), "NewFloat32"))
	}
	for _, i := range []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, 1 << 62, 1<<62 + 1, 10, 100} {
		list = append(list, textNum(jv.NewInt64(i), "NewInt64"))
	}
	for _, u := range []uint64{0, 1, 1 << 63, 1<<63 + 1, math.MaxUint64, math.MaxUint64 - 1, 1<<53 + 1} {
		list = append(list, textNum(jv.NewUint64(u), "NewUint64"))
	}
	a := list[c.Index%len(list)]
	for _, b := range list {
		c.Note("%s and %s", a.desc, b.desc)
		p14Pair(c, a, b)
		c.Distinct(a.desc, b.desc)
	}
}

// p14Respell copies a tree with other number texts and key orders
func p14Respell(r *rand.Rand, t *RV) *RV {
	switch t.K {
	case kNum:
		if t.N != "" {
			return rNum(respell(r, t.N))
		}
	case kArr:
		n := &RV{K: kArr}
		for _, x := range t.A {
			n.A = append(n.A, p14Respell(r, x))
		}
		return n
	case kObj:
		n := rObj()
		for _, i := range r.Perm(len(t.Keys)) {
			n.set(t.Keys[i], p14Respell(r, t.O[t.Keys[i]]))
		}
		return n
	}
	return t.clone()
}

// change makes exactly one semantic difference somewhere in a copy of t
func change(r *rand.Rand, t *RV) (*RV, string) {
	n := t.clone()
	all := nodes(n, nil)
	if r.Intn(3) == 0 { // what a container has, in another arrangement
		if what := rearrange(r, all); what != "" {
			return n, what
		}
	}
	for {
		x := all[r.Intn(len(all))]
		switch x.K {
		case kNull:
			*x = *[]*RV{rBool(false), rStr("null"), rNum("0"), rArr(), rObj(), rStr("")}[r.Intn(6)]
			return n, "a null replaced"
		case kBool:
			if r.Intn(2) == 0 {
				x.B = !x.B
			} else {
				*x = *[]*RV{rNull(), rStr(strconv.FormatBool(x.B)), rNum("1")}[r.Intn(3)]
			}
			return n, "a boolean changed"
		case kStr:
			switch r.Intn(4) {
			case 0:
				x.S += string(genRune(r))
			case 1:
				*x = *[]*RV{rNull(), rArr(rStr(x.S)), rNum("0")}[r.Intn(3)]
			case 2:
				if len(x.S) == 0 {
					continue
				}
				rs := []rune(x.S)
				i := r.Intn(len(rs))
				rs[i] ^= 1
				if s := string(rs); s != x.S && strings.ToValidUTF8(s, "") == s && !strings.Contains(s, "\uFFFD") {
					x.S = s
				} else {
					x.S += "x"
				}
			default:
				if len(x.S) > 0 {
					rs := []rune(x.S)
					x.S = string(rs[:len(rs)-1])
				} else {
					x.S = "\x00"
				}
			}
			return n, "a string changed"
		case kNum:
			if x.N == "" {
				continue
			}
			s := nudge(r, x.N)
			if exactCmp(s, x.N) == 0 {
				*x = *rStr(x.N)
			} else {
				x.N = s
			}
			return n, "a number changed"
		case kArr:
			switch r.Intn(4) {
			case 0:
				x.A = append(x.A, rNull())
			case 1:
				if len(x.A) == 0 {
					continue
				}
				i := r.Intn(len(x.A))
				x.A = append(x.A[:i:i], x.A[i+1:]...)
			case 2:
				if len(x.A) > 1 {
					i := r.Intn(len(x.A) - 1)
					if p14Eq(x.A[i], x.A[i+1]) {
						continue
					}
					x.A[i], x.A[i+1] = x.A[i+1], x.A[i]
				} else {
					continue
				}
			default:
				if len(x.A) > 0 {
					continue
				}
				*x = *rObj()
			}
			return n, "an array changed"
		case kObj:
			switch r.Intn(5) {
			case 0:
				k := genString(r)
				if _, ok := x.O[k]; ok {
					continue
				}
				x.set(k, []*RV{rNull(), rNum("0")}[r.Intn(2)])
			case 1:
				if len(x.Keys) == 0 {
					continue
				}
				x.del(x.Keys[r.Intn(len(x.Keys))])
			case 2: // rename a key
				if len(x.Keys) == 0 {
					continue
				}
				k := x.Keys[r.Intn(len(x.Keys))]
				v := x.O[k]
				nk := k + "'"
				if up := strings.ToUpper(k); up != k && r.Intn(2) == 0 {
					nk = up
				}
				if _, ok := x.O[nk]; ok {
					continue
				}
				x.del(k)
				x.set(nk, v)
			case 3: // exchange two values
				if len(x.Keys) < 2 {
					continue
				}
				p := r.Perm(len(x.Keys))
				a, b := x.Keys[p[0]], x.Keys[p[1]]
				if p14Eq(x.O[a], x.O[b]) {
					continue
				}
				x.O[a], x.O[b] = x.O[b], x.O[a]
			default:
				if len(x.Keys) > 0 {
					continue
				}
				*x = RV{K: kArr}
			}
			return n, "an object changed"
		}
	}
}

// rearrange moves values about in one container of all, or between two: the same values in other places. It gives ""
// where that is no difference.
func rearrange(r *rand.Rand, all []*RV) string {
	var cs []*RV
	for _, x := range all {
		if x.length() > 1 {
			cs = append(cs, x)
		}
	}
	if len(cs) == 0 {
		return ""
	}
	x := cs[r.Intn(len(cs))]
	if r.Intn(2) == 0 { // the largest
		for _, y := range cs {
			if y.length() > x.length() {
				x = y
			}
		}
	}
	n := x.length()
	get := func(i int) *RV {
		if x.K == kArr {
			return x.A[i]
		}
		return x.O[x.Keys[i]]
	}
	put := func(i int, y *RV) {
		if x.K == kArr {
			x.A[i] = y
		} else {
			x.O[x.Keys[i]] = y
		}
	}
	was := make([]*RV, n)
	for i := range was {
		was[i] = get(i)
	}
	var what string
	switch r.Intn(4) {
	case 0:
		i, j := r.Intn(n), r.Intn(n)
		put(i, was[j])
		put(j, was[i])
		what = "two members exchanged"
	case 1: // rotated
		lo := r.Intn(n - 1)
		hi := lo + 2 + r.Intn(n-lo-1)
		for i := lo; i < hi; i++ {
			j := i + 1
			if j == hi {
				j = lo
			}
			put(i, was[j])
		}
		what = "members rotated"
	case 2:
		for i, j := range r.Perm(n) {
			put(i, was[j])
		}
		what = "members permuted"
	default: // twice the one, not at all the other
		i, j := r.Intn(n), r.Intn(n)
		put(i, was[j].clone())
		what = "a member replaced by a copy of another"
	}
	for i := range was {
		if !p14Eq(was[i], get(i)) {
			return what
		}
	}
	for i := range was {
		put(i, was[i])
	}
	return ""
}

// p14Eq is the reference equality
func p14Eq(a, b *RV) bool {
	if a.K != b.K || len(a.A) != len(b.A) || len(a.O) != len(b.O) {
		return false
	}
	switch a.K {
	case kBool:
		return a.B == b.B
	case kStr:
		return a.S == b.S
	case kNum:
		if a.N == "" || b.N == "" {
			return a.N == b.N && a.F == b.F
		}
		return exactCmp(a.N, b.N) == 0
	}
	for i := range a.A {
		if !p14Eq(a.A[i], b.A[i]) {
			return false
		}
	}
	for k, x := range a.O {
		y, ok := b.O[k]
		if !ok || !p14Eq(x, y) {
			return false
		}
	}
	return true
}

func limitExp(r *rand.Rand, t *RV) {
	huge := r.Intn(8) == 0
	for _, x := range nodes(t, nil) {
		if x.K == kNum && x.N != "" && !expSmall(x.N) {
			x.N = smallNum(r)
		}
		if huge && x.K == kNum && x.N != "" && r.Intn(4) == 0 {
			x.N = hugeNum(r)
		}
	}
}

func p14Trees(c *Case) {
	r := c.R
	g := histCfg(c)
	g.maxDepth = r.Intn(5)
	t := genTree(r, g, 0)
	limitExp(r, t)
	v := buildV(r, t, r.Intn(3))
	c.Note("%s", trunc(t.canonSeq(), 2000))
	if !v.Equal(v) {
		c.Fail("a value is not equal to itself")
	}
	// equal copies
	copies := []*jv.V{v}
	for i := 0; i < 3; i++ {
		u := t
		if i > 0 {
			u = p14Respell(r, t)
		}
		w := buildV(r, u, r.Intn(3))
		if i == 2 && u.isCont() {
			// come to the same content by detours
			if u.K == kObj {
				w.MustSetInt(1).At("detour")
				w.MustSetInt(1).At("detour", "x")
				w.MustDelete("detour")
				if x, ok := u.O["detour"]; ok {
					w.MustSet(buildV(r, x, 0)).At("detour")
				}
			} else {
				w.MustAppendNull().InTheBeginning()
				w.MustDelete(0)
			}
		}
		c.Note("%s and respelled %s", trunc(t.canonSeq(), 2000), trunc(u.canonSeq(), 2000))
		for _, x := range copies {
			if !x.Equal(w) || !w.Equal(x) {
				c.Fail("Equal is false")
			}
		}
		copies = append(copies, w)
		c.Eval(2 * len(copies))
		c.Hit("tree_equal")
		if t.canonSeq() != u.canonSeq() {
			c.Hit("permuted")
		}
	}
	// one difference
	for i := 0; i < 4; i++ {
		u, what := change(r, t)
		if p14Eq(t, u) {
			continue
		}
		if r.Intn(2) == 0 {
			u = p14Respell(r, u)
		}
		w := buildV(r, u, r.Intn(3))
		c.Note("%s and with %s %s", trunc(t.canonSeq(), 2000), what, trunc(u.canonSeq(), 2000))
		for _, x := range copies {
			if x.Equal(w) || w.Equal(x) {
				c.Fail("Equal is true")
			}
		}
		c.Eval(2 * len(copies))
		c.Hit("tree_changed")
		c.Distinct(t.canonSeq(), u.canonSeq())
		if c.Index < 4 {
			c.Sample("%s != %s", trunc(t.canonSeq(), 150), trunc(u.canonSeq(), 150))
		}
	}
	if d := diffV(v, t); d != "" {
		c.Fail("comparisons changed the value: %s", d)
	}
}

// sharingShell makes a document of the same content that has some nodes of v in it
func sharingShell(r *rand.Rand, v *jv.V, m *RV) *jv.V {
	if !m.isCont() || r.Intn(4) == 0 {
		return v
	}
	if m.K == kArr {
		w := jv.NewArray()
		for i, x := range m.A {
			w.MustAppend(sharingShell(r, v.MustGet(i), x)).InTheEnd()
		}
		return w
	}
	w := jv.NewObject()
	for _, i := range r.Perm(len(m.Keys)) {
		k := m.Keys[i]
		w.MustSet(sharingShell(r, v.MustGet(k), m.O[k])).At(k)
	}
	return w
}

// p14Types: pairs of any types, and the values that equal nothing
func p14Types(c *Case) {
	r := c.R
	mk := func() (*jv.V, *RV) {
		g := &genCfg{maxDepth: r.Intn(2), maxKids: 2, nulls: 2, nonFinite: true, keys: smallKeys}
		t := genTree(r, g, 0)
		limitExp(r, t)
		switch r.Intn(6) {
		case 0:
			t = []*RV{rNull(), rBool(false), rBool(true), rStr(""), rNum("0"), rNum("1"), rStr("0"), rStr("1"), rStr("true"), rArr(), rObj(), rStr("null"), rNum("-0"), rNum("0.0"), rArr(rNull()), rStr("[]"), rStr("{}")}[r.Intn(17)]
		}
		return buildV(r, t, 0), t
	}
	a, x := mk()
	b, y := mk()
	c.Note("%s and %s", x.canonSeq(), y.canonSeq())
	if a.Equal(b) != p14Eq(x, y) || b.Equal(a) != p14Eq(x, y) {
		c.Fail("Equal is %v and %v", a.Equal(b), b.Equal(a))
	}
	c.Eval(2)
	if x.K != kNum || y.K != kNum {
		if a.GreaterThan(b) || a.GreaterThanOrEqual(b) || a.LessThan(b) || a.LessThanOrEqual(b) {
			c.Fail("an ordering operator holds")
		}
		c.Eval(4)
		c.Hit("mixed_types")
	} else {
		p14Pair(c, textNum(a, ""), textNum(b, ""))
	}
	// the same nodes on both sides: NaN equals nothing even then
	sh := sharingShell(r, a, x)
	if got, want := a.Equal(a), p14Eq(x, x); got != want || sh.Equal(a) != want || a.Equal(sh) != want || sh.Equal(sh) != want {
		c.Fail("%s: Equal is %v for the value itself, %v and %v for one with the same nodes, want %v", x.canonSeq(), got, sh.Equal(a), a.Equal(sh), want)
	}
	if !p14Eq(x, x) {
		c.Hit("nan_itself")
	}
	c.Eval(4)
	bad := &jv.V{}
	for _, z := range []*jv.V{bad, nil} {
		if a.Equal(z) || bad.Equal(a) || z != nil && z.Equal(z) {
			c.Fail("a not existing or nil value equals something")
		}
	}
	if a.GreaterThan(bad) || a.LessThan(bad) || bad.GreaterThanOrEqual(a) || bad.LessThanOrEqual(a) {
		c.Fail("an ordering operator holds for a not existing value")
	}
	c.Distinct(x.canonSeq(), y.canonSeq())
}

// p14Sized: documents of many sizes, equal copies and copies with one difference anywhere
func p14Sized(c *Case) {
	r := c.R
	t, shape := sizedTree(r, &genCfg{}, sizeFor(c, 70000))
	limitExp(r, t)
	v := buildV(r, t, r.Intn(3))
	c.Note("%s: %s", shape, trunc(t.canonSeq(), 1000))
	u := p14Respell(r, t)
	w := buildV(r, u, r.Intn(3))
	if !v.Equal(w) || !w.Equal(v) || !v.Equal(v) {
		c.Fail("Equal is false for %s", trunc(u.canonSeq(), 1000))
	}
	c.Eval(3)
	for k := 0; k < 12; k++ {
		x, what := change(r, t)
		if p14Eq(t, x) {
			continue
		}
		c.Note("%s: %s and with %s", shape, trunc(t.canonSeq(), 1000), what)
		w := buildV(r, x, []int{0, 1, 1}[r.Intn(3)])
		if v.Equal(w) || w.Equal(v) {
			c.Fail("Equal is true for %s", trunc(x.canonSeq(), 1000))
		}
		c.Eval(2)
		c.Distinct("sized", c.Index, k)
	}
	c.Hit("sized_" + shape)
}
