package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// Observing a *jv.V through its public API only.

func kindOf(v *jv.V) (kind, bool) {
	switch v.ValueType() {
	case jv.Null:
		return kNull, true
	case jv.Boolean:
		return kBool, true
	case jv.Number:
		return kNum, true
	case jv.String:
		return kStr, true
	case jv.Array:
		return kArr, true
	case jv.Object:
		return kObj, true
	}
	return 0, false
}

// diffV compares a library value with a reference value; "" means equal. Number texts are compared exactly.
func diffV(v *jv.V, r *RV) string { return diffAt(v, r, "$", true) }

// diffLoose compares numbers by exact value instead of by text
func diffLoose(v *jv.V, r *RV) string { return diffAt(v, r, "$", false) }

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("…(%d bytes)", len(s))
	}
	return s
}

// largest sizes compared by diffV in this process. Not recorded in the race build, where the atomic operations would
// order what the goroutines do.
var (
	trackSizes  bool
	largestSeen [3]int64 // array, object, string
)

func sizeSeen(k kind, r *RV) {
	i, n := 0, int64(len(r.A))
	switch k {
	default:
		return
	case kArr:
	case kObj:
		i, n = 1, int64(len(r.O))
	case kStr:
		i, n = 2, int64(len(r.S))
	}
	for {
		old := atomic.LoadInt64(&largestSeen[i])
		if n <= old || atomic.CompareAndSwapInt64(&largestSeen[i], old, n) {
			return
		}
	}
}

func diffAt(v *jv.V, r *RV, path string, exact bool) string {
	if v == nil {
		return path + ": nil *V"
	}
	k, ok := kindOf(v)
	if !ok || k != r.K {
		return fmt.Sprintf("%s: type is %v, want %s", trunc(path, 200), v.ValueType(), kindNames[r.K])
	}
	if trackSizes {
		sizeSeen(k, r)
	}
	switch k {
	case kBool:
		if v.Bool() != r.B {
			return fmt.Sprintf("%s: %v, want %v", trunc(path, 200), v.Bool(), r.B)
		}
	case kStr:
		if v.String() != r.S {
			return fmt.Sprintf("%s: string %s, want %s", trunc(path, 200), trunc(strconv.QuoteToASCII(v.String()), 300), trunc(strconv.QuoteToASCII(r.S), 300))
		}
	case kNum:
		if r.N == "" {
			if f := v.Float64(); f != r.F && !(f != f && r.F != r.F) {
				return fmt.Sprintf("%s: number %v, want %v", trunc(path, 200), f, r.F)
			}
			return ""
		}
		b, err := v.Marshal()
		if err != nil {
			return fmt.Sprintf("%s: number %s does not marshal: %v", trunc(path, 200), r.N, err)
		}
		if string(b) != r.N {
			if !exact {
				if x, y := ratOf(string(b)), ratOf(r.N); x != nil && y != nil && x.Cmp(y) == 0 {
					return ""
				}
			}
			return fmt.Sprintf("%s: number %s, want %s", trunc(path, 200), trunc(string(b), 300), trunc(r.N, 300))
		}
	case kArr:
		if v.Len() != len(r.A) {
			return fmt.Sprintf("%s: array of %d, want %d", trunc(path, 200), v.Len(), len(r.A))
		}
		msg, n := "", 0
		v.RangeArray(func(i int, c *jv.V) bool {
			if i != n || i >= len(r.A) {
				msg = fmt.Sprintf("%s: iteration gave index %d at step %d", trunc(path, 200), i, n)
				return false
			}
			n++
			msg = diffAt(c, r.A[i], path+"["+strconv.Itoa(i)+"]", exact)
			return msg == ""
		})
		if msg != "" {
			return msg
		}
		if n != len(r.A) {
			return fmt.Sprintf("%s: iteration visited %d of %d elements", trunc(path, 200), n, len(r.A))
		}
	case kObj:
		if v.Len() != len(r.O) {
			return fmt.Sprintf("%s: object of %d keys, want %d: got %s want %s", trunc(path, 200), v.Len(), len(r.O), trunc(keysOf(v), 300), trunc(fmt.Sprintf("%q", r.Keys), 300))
		}
		msg, n := "", 0
		v.RangeObjects(func(k string, c *jv.V) bool {
			x, ok := r.O[k]
			if !ok {
				msg = fmt.Sprintf("%s: unexpected key %s", trunc(path, 200), trunc(strconv.QuoteToASCII(k), 300))
				return false
			}
			n++
			msg = diffAt(c, x, path+"."+strconv.QuoteToASCII(k), exact)
			return msg == ""
		})
		if msg != "" {
			return msg
		}
		if n != len(r.O) {
			return fmt.Sprintf("%s: iteration visited %d of %d keys", trunc(path, 200), n, len(r.O))
		}
	}
	return ""
}

func keysOf(v *jv.V) string {
	var ks []string
	v.RangeObjects(func(k string, _ *jv.V) bool { ks = append(ks, k); return true })
	sort.Strings(ks)
	return fmt.Sprintf("%q", ks)
}

// snap reads a whole library value into a reference value, with object keys in the library's set sequence.
// ok is false when a node is not a JSON value.
func snap(v *jv.V) (*RV, bool) {
	if v == nil {
		return nil, false
	}
	k, ok := kindOf(v)
	if !ok {
		return nil, false
	}
	r := &RV{K: k}
	switch k {
	case kBool:
		r.B = v.Bool()
	case kStr:
		r.S = v.String()
	case kNum:
		b, err := v.Marshal()
		if err != nil {
			r.F = v.Float64()
		} else {
			r.N = string(b)
		}
	case kArr:
		v.RangeArray(func(_ int, c *jv.V) bool {
			x, o := snap(c)
			if !o {
				ok = false
				return false
			}
			r.A = append(r.A, x)
			return true
		})
	case kObj:
		r.O = map[string]*RV{}
		v.RangeObjectsBySetSequence(func(k string, c *jv.V) bool {
			x, o := snap(c)
			if !o {
				ok = false
				return false
			}
			r.Keys = append(r.Keys, k)
			r.O[k] = x
			return true
		})
	}
	return r, ok
}

// pointers lists every node reachable from v with its path, for identity checks
func pointers(v *jv.V) map[string]*jv.V {
	m := map[string]*jv.V{}
	var walk func(v *jv.V, path string)
	walk = func(v *jv.V, path string) {
		m[path] = v
		if v == nil {
			return
		}
		v.RangeArray(func(i int, c *jv.V) bool { walk(c, path+"["+strconv.Itoa(i)+"]"); return true })
		v.RangeObjects(func(k string, c *jv.V) bool { walk(c, path+"."+strconv.Quote(k)); return true })
	}
	walk(v, "$")
	return m
}

// scalarV makes a library scalar by a constructor. Only for scalars whose text a constructor can produce;
// otherwise it parses the text.
func scalarV(rnd *rand.Rand, r *RV) *jv.V {
	switch r.K {
	case kNull:
		if rnd.Intn(2) == 0 {
			return jv.New(nil)
		}
		return jv.NewNull()
	case kBool:
		if rnd.Intn(2) == 0 {
			return jv.New(r.B)
		}
		return jv.NewBool(r.B)
	case kStr:
		if rnd.Intn(2) == 0 {
			return jv.New(r.S)
		}
		return jv.NewString(r.S)
	case kNum:
		if r.N == "" {
			return jv.NewFloat64(r.F)
		}
		if !isFloatText(r.N) && r.N != "-0" {
			if i, err := strconv.ParseInt(r.N, 10, 64); err == nil {
				if rnd.Intn(2) == 0 {
					return jv.New(i)
				}
				return jv.NewInt64(i)
			}
			if u, err := strconv.ParseUint(r.N, 10, 64); err == nil {
				return jv.NewUint64(u)
			}
		} else if f, err := strconv.ParseFloat(r.N, 64); err == nil && !math.IsInf(f, 0) {
			if b, _ := json.Marshal(f); string(b) == r.N {
				return jv.NewFloat64(f)
			}
		}
		v, err := jv.UnmarshalString(readable(r.N))
		if err != nil {
			panic(fmt.Sprintf("valid number %q rejected: %v", r.N, err))
		}
		return v
	}
	panic("not a scalar")
}

// buildV builds a library value for r in one of several ways: constructors and Set, parsing, or a mixture.
// Key sequences are those of r. Strings are kept byte by byte only if they are valid UTF-8 or built by
// constructors, so trees with malformed strings must use how=0.
func buildV(rnd *rand.Rand, r *RV, how int) *jv.V {
	if how == 1 {
		v, err := jv.Unmarshal([]byte(renderPlain(r)))
		if err != nil {
			panic(fmt.Sprintf("valid JSON rejected: %v: %s", err, trunc(renderPlain(r), 500)))
		}
		return v
	}
	switch r.K {
	case kArr:
		v := jv.NewArray()
		for _, x := range r.A {
			c := buildSub(rnd, x, how)
			switch rnd.Intn(3) {
			case 0:
				v.MustAppend(c).InTheEnd()
			case 1:
				_, _ = v.Append(c).InTheEnd()
			default:
				v.MustSet(c).At(v.Len())
			}
		}
		return v
	case kObj:
		v := jv.NewObject()
		for _, k := range r.Keys {
			c := buildSub(rnd, r.O[k], how)
			switch rnd.Intn(3) {
			case 0:
				v.MustSet(c).At(k)
			case 1:
				_, _ = v.Set(c).At(k)
			default:
				v.At(k).Set(c)
			}
		}
		return v
	}
	return scalarV(rnd, r)
}

func buildSub(rnd *rand.Rand, r *RV, how int) *jv.V {
	if how == 2 && rnd.Intn(4) == 0 && !hasNonFinite(r) {
		how = 1
	}
	return buildV(rnd, r, how)
}

func hasNonFinite(r *RV) bool {
	if r.nonFin() {
		return true
	}
	for _, x := range r.A {
		if hasNonFinite(x) {
			return true
		}
	}
	for _, x := range r.O {
		if hasNonFinite(x) {
			return true
		}
	}
	return false
}

func hasNull(r *RV) bool {
	if r.K == kNull {
		return true
	}
	for _, x := range r.A {
		if hasNull(x) {
			return true
		}
	}
	for _, x := range r.O {
		if hasNull(x) {
			return true
		}
	}
	return false
}

// renderPlain renders r compactly with encoding/json's string escapes, keys in sequence
func renderPlain(r *RV) string {
	var b strings.Builder
	renderPlainTo(&b, r, readable)
	return b.String()
}

// renderExact keeps every number as it is written
func renderExact(r *RV) string {
	var b strings.Builder
	renderPlainTo(&b, r, func(n string) string { return n })
	return b.String()
}

// readable gives a number text the library reads: floats it writes as integers of more than 64 bits are not read back
// (the known finding of P04, where they are tested), so they get an exponent
func readable(n string) string {
	if len(n) < 19 || strings.ContainsAny(n, ".eE") {
		return n
	}
	if _, err := strconv.ParseInt(n, 10, 64); err == nil {
		return n
	}
	if _, err := strconv.ParseUint(n, 10, 64); err == nil {
		return n
	}
	return n + "e0"
}

func renderPlainTo(b *strings.Builder, r *RV, num func(string) string) {
	switch r.K {
	case kNull:
		b.WriteString("null")
	case kBool:
		b.WriteString(strconv.FormatBool(r.B))
	case kNum:
		if r.N == "" {
			panic("non-finite number rendered")
		}
		b.WriteString(num(r.N))
	case kStr:
		j, _ := json.Marshal(r.S)
		b.Write(j)
	case kArr:
		b.WriteByte('[')
		for i, x := range r.A {
			if i > 0 {
				b.WriteByte(',')
			}
			renderPlainTo(b, x, num)
		}
		b.WriteByte(']')
	case kObj:
		b.WriteByte('{')
		for i, k := range r.Keys {
			if i > 0 {
				b.WriteByte(',')
			}
			j, _ := json.Marshal(k)
			b.Write(j)
			b.WriteByte(':')
			renderPlainTo(b, r.O[k], num)
		}
		b.WriteByte('}')
	}
}

func mustParse(c *Case, text string) *jv.V {
	v, err := jv.UnmarshalString(text)
	if err != nil {
		c.Fail("valid JSON %s rejected: %v", trunc(text, 1000), err)
	}
	return v
}

// samePointers tells whether every place holds the same node
func samePointers(a, b map[string]*jv.V) bool {
	if len(a) != len(b) {
		return false
	}
	for k, p := range a {
		if b[k] != p {
			return false
		}
	}
	return true
}

// reparses tells whether the library can read the number texts in r back (see the known finding of P04)
func reparses(r *RV) bool {
	for _, x := range nodes(r, nil) {
		if x.K == kNum && !numberInRange(x.N) {
			return false
		}
	}
	return true
}
