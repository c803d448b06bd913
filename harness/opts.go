package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// mOpts is a combination of marshal options, as the library gets it and as a model of what it asks for.
type mOpts struct {
	opts []jv.Option
	desc string

	nan  int // 0 error, 1 float, 2 null, 3 string
	nanF float64
	nanS string
	inf  int
	infF float64
	infP string
	infN string

	omitNull     bool
	indent       bool
	prefix, ind  string
	utf8, noHTML bool
	noSlash      bool

	order int // 0 none, 1 ascending, 2 key sequence, 3 set sequence, 4 less function
	seq   []string
	rank  map[string]int
	less  func(a, b string) bool // strict order over keys
}

const (
	oNaN = 1 << iota
	oOmit
	oIndent
	oEsc
	oOrder
	oAll = oNaN | oOmit | oIndent | oEsc | oOrder
)

var optStrings = []string{"", "NaN", "inf", "Infinity", "+Inf", "-Inf", "+", "++x", "\"", "\\", "a/b", "<&>", "é", "\u2028", "中", "\U0001F600", "\n", "\x00", "\x0b", "\x7f", "\" }"}
var optFloats = []float64{0, 1, -1, math.Copysign(0, -1), 1e21, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, -2.25, math.NaN(), math.Inf(1), math.Inf(-1)}
var indents = []string{"", " ", "  ", "\t", "    ", "\t ", "\n"}

// revLess and lenLess are total orders for the less function option
func revLess(a, b string) bool { return a > b }
func lenLess(a, b string) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	return a < b
}

func jvLess(f func(a, b string) bool) jv.MarshalLessFunc {
	return func(_ *jv.ParentInfo, k1, k2 string, _, _ *jv.V) bool { return f(k1, k2) }
}

// genOpts picks random options of the kinds in mask. keys are candidates for key sequences.
func genOpts(r *rand.Rand, mask int, keys []string) *mOpts {
	o := &mOpts{}
	var fn []jv.Option
	var ds []string
	add := func(op jv.Option, format string, a ...any) {
		fn = append(fn, op)
		ds = append(ds, fmt.Sprintf(format, a...))
	}
	structStyle := mask&^(oNaN|oOmit|oOrder) == 0 && r.Intn(2) == 0 || r.Intn(4) == 0
	var st jv.Opt
	var decoys []jv.Option // overridden by what comes later
	decoyed := 0
	decoy := func(l ...jv.Option) {
		for r.Intn(2) == 0 {
			decoys = append(decoys, l[r.Intn(len(l))])
			decoyed++
		}
	}
	if mask&oNaN != 0 {
		o.nan, o.inf = r.Intn(4), r.Intn(4)
		if r.Intn(2) == 0 {
			o.nan, o.inf = 1+r.Intn(3), 1+r.Intn(3)
		}
		o.nanF, o.infF = optFloats[r.Intn(len(optFloats))], optFloats[r.Intn(len(optFloats))]
		if r.Intn(2) == 0 {
			o.nanF, o.infF = optFloats[r.Intn(10)], optFloats[r.Intn(10)]
		}
		o.nanS = optStrings[r.Intn(len(optStrings))]
		o.infP, o.infN = optStrings[r.Intn(len(optStrings))], optStrings[r.Intn(len(optStrings))]
		if structStyle {
			st.FloatNaNHandleType = jv.FloatNaNHandleType(o.nan)
			st.FloatNaNToFloat, st.FloatNaNToString = o.nanF, o.nanS
			st.FloatInfHandleType = jv.FloatInfHandleType(o.inf)
			st.FloatInfToFloat, st.FloatInfPositiveToString, st.FloatInfNegativeToString = o.infF, o.infP, o.infN
		} else {
			if r.Intn(6) == 0 {
				f := optFloats[r.Intn(len(optFloats))]
				if o.nan != 0 {
					decoy(jv.OptFloatNaNToFloat(f), jv.OptFloatNaNToNull(), jv.OptFloatNaNToString("decoy"), jv.OptFloatNaNToStringNaN())
				}
				if o.inf != 0 {
					decoy(jv.OptFloatInfToFloat(f), jv.OptFloatInfToNull(), jv.OptFloatInfToString("decoy+", "decoy-"), jv.OptFloatInfToStringInf())
				}
			}
			switch o.nan {
			case 1:
				add(jv.OptFloatNaNToFloat(o.nanF), "NaNToFloat(%v)", o.nanF)
			case 2:
				add(jv.OptFloatNaNToNull(), "NaNToNull")
			case 3:
				if o.nanS == "" && r.Intn(2) == 0 {
					add(jv.OptFloatNaNToStringNaN(), "NaNToStringNaN")
				} else {
					add(jv.OptFloatNaNToString(o.nanS), "NaNToString(%q)", o.nanS)
				}
			}
			switch o.inf {
			case 1:
				add(jv.OptFloatInfToFloat(o.infF), "InfToFloat(%v)", o.infF)
			case 2:
				add(jv.OptFloatInfToNull(), "InfToNull")
			case 3:
				if r.Intn(4) == 0 {
					o.infP, o.infN = "", ""
					add(jv.OptFloatInfToStringInf(), "InfToStringInf")
				} else {
					add(jv.OptFloatInfToString(o.infP, o.infN), "InfToString(%q,%q)", o.infP, o.infN)
				}
			}
		}
	}
	if mask&oOmit != 0 && r.Intn(2) == 0 {
		o.omitNull = true
		if structStyle {
			st.OmitNull = true
		} else {
			add(jv.OptOmitNull(true), "OmitNull")
		}
	}
	if mask&oOrder != 0 {
		o.order = r.Intn(5)
		switch o.order {
		case 1:
			if structStyle {
				st.MarshalLessFunc = jv.DefaultStringSequence
			} else {
				add(jv.OptDefaultStringSequence(), "DefaultStringSequence")
			}
		case 2:
			o.seq = genSeq(r, keys)
			if len(o.seq) == 0 {
				o.order = 0
			}
			if structStyle {
				st.MarshalKeySequence = o.seq
			} else {
				add(jv.OptKeySequence(o.seq), "KeySequence(%q)", o.seq)
			}
		case 3:
			// the structure has no field for it
			add(jv.OptSetSequence(), "SetSequence")
		case 4:
			o.less = [](func(a, b string) bool){revLess, lenLess}[r.Intn(2)]
			if structStyle {
				st.MarshalLessFunc = jvLess(o.less)
			} else {
				add(jv.OptKeySequenceWithLessFunc(jvLess(o.less)), "LessFunc")
			}
		}
	}
	if mask&oEsc != 0 {
		if o.utf8 = r.Intn(2) == 0; o.utf8 {
			add(jv.OptUTF8(), "UTF8")
		}
		switch r.Intn(4) {
		case 0, 1:
			o.noHTML = true
			add(jv.OptEscapeHTML(false), "EscapeHTML(false)")
		case 2:
			add(jv.OptEscapeHTML(true), "EscapeHTML(true)")
		}
		switch r.Intn(4) {
		case 0, 1:
			o.noSlash = true
			add(jv.OptEscapeSlash(false), "EscapeSlash(false)")
		case 2:
			add(jv.OptEscapeSlash(true), "EscapeSlash(true)")
		}
	}
	if mask&oIndent != 0 && r.Intn(2) == 0 {
		o.indent = true
		o.prefix, o.ind = genIndent(r), genIndent(r)
		add(jv.OptIndent(o.prefix, o.ind), "Indent(%q,%q)", o.prefix, o.ind)
	}
	r.Shuffle(len(fn), func(i, j int) { fn[i], fn[j] = fn[j], fn[i]; ds[i], ds[j] = ds[j], ds[i] })
	o.opts = append(o.opts, decoys...)
	if structStyle {
		o.opts = append(o.opts, st)
		ds = append([]string{fmt.Sprintf("Opt{omit %v nan %d,%v,%q inf %d,%v,%q,%q order %d %q}", st.OmitNull, o.nan, o.nanF, o.nanS, o.inf, o.infF, o.infP, o.infN, o.order, o.seq)}, ds...)
	}
	o.opts = append(o.opts, fn...)
	o.desc = strings.Join(ds, " ")
	if decoyed > 0 {
		o.desc = fmt.Sprintf("%d overridden NaN and Inf options, then %s", decoyed, o.desc)
	}
	return o
}

func genSeq(r *rand.Rand, keys []string) []string {
	var seq []string
	seen := map[string]bool{}
	for n := r.Intn(6); n > 0; n-- {
		k := ""
		if len(keys) > 0 && r.Intn(4) != 0 {
			k = keys[r.Intn(len(keys))]
		} else {
			k = genString(r)
		}
		if !seen[k] {
			seen[k] = true
			seq = append(seq, k)
		}
	}
	return seq
}

// allKeys lists the keys of a tree
func allKeys(t *RV) []string {
	set := map[string]bool{}
	var walk func(t *RV)
	walk = func(t *RV) {
		for _, x := range t.A {
			walk(x)
		}
		for k, x := range t.O {
			set[k] = true
			walk(x)
		}
	}
	walk(t)
	return sortedKeys(set)
}

// loose marks a number whose spelling is not prescribed
func loose(f float64) *RV {
	b, _ := json.Marshal(f)
	return &RV{K: kNum, N: string(b), B: true}
}

type outcome struct {
	v        *RV
	fail     bool
	replaced int
	omitted  int
}

// apply is the model of what the options do to a value
func (o *mOpts) apply(t *RV) outcome {
	var out outcome
	out.v = o.applyTo(t, &out)
	return out
}

func (o *mOpts) applyTo(t *RV, out *outcome) *RV {
	switch t.K {
	case kNum:
		if !t.nonFin() {
			return t
		}
		out.replaced++
		how, f := o.inf, o.infF
		s := o.infP
		if s == "" {
			s = "+Inf"
		}
		switch {
		case t.F != t.F:
			how, f, s = o.nan, o.nanF, o.nanS
			if s == "" {
				s = "NaN"
			}
		case t.F < 0:
			f = -f
			switch {
			case o.infN != "":
				s = o.infN
			case o.infP != "":
				s = "-" + strings.TrimLeft(o.infP, "+")
			default:
				s = "-Inf"
			}
		}
		switch how {
		case 1:
			if math.IsNaN(f) || math.IsInf(f, 0) {
				out.fail = true
				return t
			}
			return loose(f)
		case 2:
			return rNull()
		case 3:
			return rStr(s)
		}
		out.fail = true
		return t
	case kArr:
		n := &RV{K: kArr}
		for _, x := range t.A {
			n.A = append(n.A, o.applyTo(x, out))
		}
		return n
	case kObj:
		n := rObj()
		for _, k := range o.sorted(t.Keys) {
			x := t.O[k]
			if o.omitNull && x.K == kNull {
				out.omitted++
				continue
			}
			n.set(k, o.applyTo(x, out)) // replaced by null is not omitted
		}
		return n
	}
	return t
}

// sorted gives keys (in set sequence) in the requested order
func (o *mOpts) sorted(keys []string) []string {
	ks := append([]string(nil), keys...)
	switch o.order {
	case 1:
		sort.Strings(ks)
	case 2:
		if len(ks) < 2 {
			return ks
		}
		rank := o.rank
		if rank == nil {
			rank = map[string]int{}
			for i, k := range o.seq {
				rank[k] = i + 1
			}
			if len(o.seq) > 50 { // worth keeping
				o.rank = rank
			}
		}
		sort.Slice(ks, func(i, j int) bool {
			a, b := rank[ks[i]], rank[ks[j]]
			switch {
			case a > 0 && b > 0:
				return a < b
			case a > 0 || b > 0:
				return a > 0
			}
			return ks[i] < ks[j]
		})
	case 4:
		sort.Slice(ks, func(i, j int) bool { return o.less(ks[i], ks[j]) })
	}
	return ks
}

// diffOut compares a parsed output with the expected value; ordered also compares key sequences
func diffOut(got, want *RV, ordered bool, path string) string {
	if got.K != want.K {
		return fmt.Sprintf("%s: got %s, want %s", trunc(path, 200), trunc(got.canon(), 300), trunc(want.canon(), 300))
	}
	switch got.K {
	case kNum:
		if got.N == want.N {
			return ""
		}
		if want.B {
			if a, b := ratOf(got.N), ratOf(want.N); a != nil && b != nil && a.Cmp(b) == 0 && strings.HasPrefix(got.N, "-") == strings.HasPrefix(want.N, "-") {
				return "" // the sign is there for zero, too
			}
		}
		return fmt.Sprintf("%s: number %s, want %s", trunc(path, 200), trunc(got.N, 300), trunc(want.N, 300))
	case kArr:
		if len(got.A) != len(want.A) {
			return fmt.Sprintf("%s: %d elements, want %d", trunc(path, 200), len(got.A), len(want.A))
		}
		for i := range got.A {
			if d := diffOut(got.A[i], want.A[i], ordered, path+"["+strconv.Itoa(i)+"]"); d != "" {
				return d
			}
		}
		return ""
	case kObj:
		if len(got.Keys) != len(want.Keys) {
			return fmt.Sprintf("%s: keys %s, want %s", trunc(path, 200), trunc(fmt.Sprintf("%q", got.Keys), 400), trunc(fmt.Sprintf("%q", want.Keys), 400))
		}
		for i, k := range want.Keys {
			if ordered && got.Keys[i] != k {
				return fmt.Sprintf("%s: key order %s, want %s", trunc(path, 200), trunc(fmt.Sprintf("%q", got.Keys), 400), trunc(fmt.Sprintf("%q", want.Keys), 400))
			}
			x, ok := got.O[k]
			if !ok {
				return fmt.Sprintf("%s: no key %q in %s", trunc(path, 200), trunc(k, 100), trunc(fmt.Sprintf("%q", got.Keys), 400))
			}
			if d := diffOut(x, want.O[k], ordered, path+"."+strconv.Quote(k)); d != "" {
				return d
			}
		}
		return ""
	}
	if !got.equal(want) {
		return fmt.Sprintf("%s: got %s, want %s", trunc(path, 200), trunc(got.canon(), 300), trunc(want.canon(), 300))
	}
	return ""
}

// strict parses an output that must be strictly valid JSON without duplicate keys
func strict(c *Case, out []byte, what string) *RV {
	res := refParse(out, false)
	if !res.ok || res.dup {
		c.Fail("%s: not valid JSON (duplicate keys: %v): %s", what, res.dup, trunc(strconv.QuoteToASCII(string(out)), 2000))
	}
	if res.lone {
		c.Fail("%s: lone surrogate escape in the output %s", what, trunc(string(out), 2000))
	}
	if !json.Valid(out) {
		c.Fail("%s: encoding/json finds the output invalid: %s", what, trunc(strconv.QuoteToASCII(string(out)), 2000))
	}
	return res.v
}

// checkMarshal marshals v under o and compares with the model; t is the value v denotes, with its set sequence.
// exact=false skips the comparison of content (malformed strings). It returns the output.
func checkMarshal(c *Case, v *jv.V, t *RV, o *mOpts, exact bool) ([]byte, *RV) {
	want := o.apply(t)
	out, err := v.Marshal(o.opts...)
	c.Eval(1)
	if (err != nil) != want.fail {
		c.Fail("Marshal error is %v, expected a failure: %v; output %s", err, want.fail, trunc(string(out), 1000))
	}
	must := v.MustMarshal(o.opts...)
	musts := v.MustMarshalString(o.opts...)
	s, serr := v.MarshalString(o.opts...)
	if (serr != nil) != (err != nil) {
		c.Fail("MarshalString: %v, Marshal: %v", serr, err)
	}
	if err != nil {
		c.Hit("refused")
		if !errors.Is(err, jv.ErrUnsupportedFloat) && !errors.Is(err, jv.ErrUnsupportedFloatInOpt) {
			c.Fail("unexpected error %v", err)
		}
		if len(out) != 0 || len(must) != 0 || musts != "" || s != "" {
			c.Fail("text returned together with an error: %q %q %q %q", out, must, musts, s)
		}
		return nil, nil
	}
	got := strict(c, out, "Marshal")
	ordered := o.order != 0
	if exact {
		if d := diffOut(got, want.v, ordered, "$"); d != "" {
			c.Fail("%s\noutput %s", d, trunc(string(out), 2000))
		}
	}
	for i, x := range []string{string(must), musts, s} {
		if x == string(out) {
			continue
		}
		if ordered {
			c.Fail("%s gives %s, Marshal gives %s", []string{"MustMarshal", "MustMarshalString", "MarshalString"}[i], trunc(x, 1000), trunc(string(out), 1000))
		}
		y := strict(c, []byte(x), "Must/String variant")
		if !y.equal(got) {
			c.Fail("variant %d gives %s, Marshal gives %s", i, trunc(x, 1000), trunc(string(out), 1000))
		}
	}
	if o.indent {
		var a, b bytes.Buffer
		if err := json.Compact(&a, out); err != nil {
			c.Fail("json.Compact: %v", err)
		}
		if err := json.Indent(&b, a.Bytes(), o.prefix, o.ind); err != nil {
			c.Fail("json.Indent: %v", err)
		}
		if !bytes.Equal(out, b.Bytes()) {
			c.Fail("indented output %q, encoding/json indents it as %q", trunc(string(out), 1500), trunc(b.String(), 1500))
		}
		c.Hit("indented")
	} else if !o.indent {
		var a bytes.Buffer
		if err := json.Compact(&a, out); err != nil || !bytes.Equal(a.Bytes(), out) {
			c.Fail("output without OptIndent is not compact: %q", trunc(string(out), 1500))
		}
	}
	c.HitN("replaced_nonfinite", want.replaced)
	c.HitN("omitted_members", want.omitted)
	if ordered {
		c.Hit("ordered")
	}
	c.Hit("marshalled")
	return out, got
}

// roundTrip parses an output with the library and with encoding/json
func roundTrip(c *Case, out []byte, got *RV) {
	back, err := jv.Unmarshal(out)
	if err != nil && refParse(out, false).big {
		// an integer beyond 64 bits: only a float constructor writes one
		if c.W.prop.ID != "P04" {
			return
		}
		c.Known("float-spelled-as-big-integer", "own output does not parse: %v: %s", err, trunc(string(out), 2000))
		return
	}
	if err != nil {
		c.Fail("own output does not parse: %v: %s", err, trunc(string(out), 2000))
	}
	if d := diffV(back, got); d != "" {
		c.Fail("own output parses differently: %s: %s", d, trunc(string(out), 2000))
	}
	d := json.NewDecoder(bytes.NewReader(out))
	d.UseNumber()
	var x any
	if err := d.Decode(&x); err != nil {
		c.Fail("encoding/json cannot decode the output: %v", err)
	}
	if !reflect.DeepEqual(x, got.goValue()) {
		c.Fail("encoding/json decodes the output differently: %s", trunc(string(out), 2000))
	}
}
