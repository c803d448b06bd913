package main

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P23",
		Rule: "values as fields, elements, map values and interfaces of random Go types are encoded by encoding/json (also indented, streamed and without HTML escaping), gob and the binary methods, the texts compared with what they must denote, and decoded into fresh " +
			"and into used targets that are then read, edited and marshalled against a model; broken texts and values without JSON must be refused; non-trivial: distinct enclosing values",
		Need: []string{"nearly_the_same", "json_encoded", "json_decoded", "reused_targets", "gob_decoded", "binary_decoded", "refused_not_exist", "refused_nan", "refused_texts", "nil_pointers", "streams", "embedded_any", "used_after", "used_targets_direct", "second_level"},
		Suites: []Suite{
			{Name: "json", Quick: 150000, Thorough: 2500000, Run: p23JSON},
			{Name: "gob", Quick: 30000, Thorough: 400000, Run: p23Gob},
			{Name: "reuse", Quick: 100000, Thorough: 2000000, Run: p23Reuse},
			{Name: "broken", Quick: 150000, Thorough: 2000000, Run: p23Broken},
			{Name: "sizes", Quick: 160, Thorough: 3000, Run: p23Sized},
			{Name: "stream", Quick: 30000, Thorough: 400000, Run: p23Stream},
			{Name: "life", Quick: 6000, Thorough: 90000, Run: lifeRun(genCfg{nulls: 2}, readEncodings)},
		},
	})
}

// encSpec is an enclosing type: p *V, v V, q **V, s struct, l slice, a array, m map, i int, t string, y any holding a *V
type encSpec struct {
	k    byte
	sub  []*encSpec
	omit bool // a pointer field under omitempty
}

type encCtx struct {
	c      *Case
	noAny  bool
	noNil  bool
	noOmit bool
	noNull bool
}

func (x *encCtx) spec(depth int, addr bool) *encSpec {
	r := x.c.R
	n := r.Intn(12)
	if depth >= 3 && n >= 5 {
		n = r.Intn(5)
	}
	switch n {
	case 0, 1:
		return &encSpec{k: 'p'}
	case 2:
		if addr {
			return &encSpec{k: 'v'}
		}
		return &encSpec{k: 'p'}
	case 3:
		return &encSpec{k: 'q'}
	case 4:
		if !x.noAny {
			return &encSpec{k: 'y'}
		}
		return &encSpec{k: "it"[r.Intn(2)]}
	case 5, 6, 7:
		s := &encSpec{k: 's'}
		for i := 1 + r.Intn(4); i > 0; i-- {
			f := x.spec(depth+1, addr)
			f.omit = f.k == 'p' && !x.noOmit && r.Intn(4) == 0
			s.sub = append(s.sub, f)
		}
		return s
	case 8, 9:
		return &encSpec{k: 'l', sub: []*encSpec{x.spec(depth+1, true)}}
	case 10:
		return &encSpec{k: 'a', sub: []*encSpec{x.spec(depth+1, addr)}}
	}
	return &encSpec{k: 'm', sub: []*encSpec{x.spec(depth+1, false)}}
}

var typPV = reflect.TypeOf((*jv.V)(nil))

func (s *encSpec) typ() reflect.Type {
	switch s.k {
	case 'p':
		return typPV
	case 'v':
		return typeV
	case 'q':
		return reflect.PointerTo(typPV)
	case 'y':
		return reflect.TypeOf((*any)(nil)).Elem()
	case 'i':
		return reflect.TypeOf(0)
	case 't':
		return reflect.TypeOf("")
	case 's':
		var fs []reflect.StructField
		for i, f := range s.sub {
			tag := fmt.Sprintf(`json:"k%d"`, i)
			if f.omit {
				tag = fmt.Sprintf(`json:"k%d,omitempty"`, i)
			}
			fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: f.typ(), Tag: reflect.StructTag(tag)})
		}
		return reflect.StructOf(fs)
	case 'l':
		return reflect.SliceOf(s.sub[0].typ())
	case 'a':
		return reflect.ArrayOf(2, s.sub[0].typ())
	}
	return reflect.MapOf(reflect.TypeOf(""), s.sub[0].typ())
}

func (x *encCtx) doc() (*jv.V, *RV) {
	r := x.c.R
	t := genTree(r, &genCfg{maxDepth: 2, maxKids: 3}, 0)
	for x.noNull && t.K == kNull {
		t = genTree(r, &genCfg{maxDepth: 2, maxKids: 3}, 0)
	}
	return buildV(r, t, r.Intn(3)), t
}

// fill sets v and gives the JSON it must become
func (x *encCtx) fill(s *encSpec, v reflect.Value) *RV {
	c := x.c
	r := c.R
	switch s.k {
	case 'p':
		if !x.noNil && r.Intn(8) == 0 {
			v.SetZero()
			c.Hit("nil_pointers")
			return rNull()
		}
		d, t := x.doc()
		v.Set(reflect.ValueOf(d))
		return t
	case 'v':
		d, t := x.doc()
		v.Set(reflect.ValueOf(d).Elem())
		return t
	case 'q':
		if !x.noNil && r.Intn(8) == 0 {
			v.SetZero()
			return rNull()
		}
		d, t := x.doc()
		v.Set(reflect.ValueOf(&d))
		c.Hit("second_level")
		return t
	case 'y':
		d, t := x.doc()
		v.Set(reflect.ValueOf(d))
		c.Hit("embedded_any")
		return t
	case 'i':
		n := r.Intn(1000) + 1
		v.SetInt(int64(n))
		return rNum(strconv.Itoa(n))
	case 't':
		t := "t" + genString(r)
		v.SetString(t)
		return rStr(t)
	case 's':
		o := rObj()
		for i, f := range s.sub {
			t := x.fill(f, v.Field(i))
			if f.omit && v.Field(i).IsNil() {
				continue
			}
			o.set("k"+strconv.Itoa(i), t)
		}
		return o
	case 'l':
		a := rArr()
		n := r.Intn(4)
		v.Set(reflect.MakeSlice(v.Type(), n, n+r.Intn(3)))
		for i := 0; i < n; i++ {
			a.A = append(a.A, x.fill(s.sub[0], v.Index(i)))
		}
		return a
	case 'a':
		a := rArr()
		for i := 0; i < 2; i++ {
			a.A = append(a.A, x.fill(s.sub[0], v.Index(i)))
		}
		return a
	}
	o := rObj()
	v.Set(reflect.MakeMap(v.Type()))
	for n := r.Intn(4); n > 0; n-- {
		k := genString(r)
		e := reflect.New(v.Type().Elem()).Elem()
		o.set(k, x.fill(s.sub[0], e))
		v.SetMapIndex(reflect.ValueOf(k), e)
	}
	return o
}

// check compares a decoded Go value with the JSON it was decoded from; values found are used afterwards
func (x *encCtx) check(s *encSpec, v reflect.Value, t *RV, path string, nulls bool) {
	c := x.c
	switch s.k {
	case 'p', 'q':
		if s.k == 'q' {
			if v.IsNil() {
				if t.K != kNull {
					c.Fail("%s: nil, want %s", path, t.canon())
				}
				return
			}
			v = v.Elem()
		}
		if v.IsNil() {
			if t.K != kNull {
				c.Fail("%s: nil, want %s", path, t.canon())
			}
			return
		}
		x.use(v.Interface().(*jv.V), t, path)
	case 'v':
		x.use(v.Addr().Interface().(*jv.V), t, path)
	case 'i':
		if strconv.FormatInt(v.Int(), 10) != t.N {
			c.Fail("%s: %d, want %s", path, v.Int(), t.N)
		}
	case 't':
		if v.String() != t.S {
			c.Fail("%s: %q, want %q", path, v.String(), t.S)
		}
	case 's':
		for i, f := range s.sub {
			k := "k" + strconv.Itoa(i)
			if y, ok := t.O[k]; ok {
				x.check(f, v.Field(i), y, path+"."+k, nulls)
			} else if !v.Field(i).IsNil() {
				c.Fail("%s.%s: should be nil", path, k)
			}
		}
	case 'l', 'a':
		if v.Len() != len(t.A) {
			c.Fail("%s: %d elements, want %d", path, v.Len(), len(t.A))
		}
		for i := 0; i < v.Len(); i++ {
			x.check(s.sub[0], v.Index(i), t.A[i], path+"["+strconv.Itoa(i)+"]", nulls)
		}
	case 'm':
		for k, y := range t.O {
			e := v.MapIndex(reflect.ValueOf(k))
			if !e.IsValid() {
				c.Fail("%s: no key %q", path, k)
			}
			x.check(s.sub[0], e, y, path+"."+k, nulls)
		}
	}
}

// use compares a decoded value with its model, then works with it
func (x *encCtx) use(v *jv.V, t *RV, path string) {
	c := x.c
	if d := diffV(v, t); d != "" {
		c.Fail("decoded at %s: %s", path, d)
	}
	if c.R.Intn(4) == 0 {
		if !v.Equal(buildV(c.R, t, 0)) {
			c.Fail("decoded at %s: not Equal to %s", path, t.canon())
		}
	}
	if c.R.Intn(3) == 0 {
		u := t.clone()
		for i := 0; i < 2 && u.isCont(); i++ {
			editBoth(c, v, u, &genCfg{maxDepth: 2, maxKids: 2})
			if d := diffV(v, u); d != "" {
				c.Fail("decoded at %s, then edited: %s", path, d)
			}
		}
		if u.isCont() {
			checkMarshal(c, v, u, &mOpts{}, true)
		}
		c.Hit("used_after")
	}
	c.Eval(1)
}

// jsonForm encodes with encoding/json in one of its ways
func jsonForm(c *Case, x any) ([]byte, error) {
	switch c.R.Intn(5) {
	case 0:
		return json.MarshalIndent(x, " ", "\t")
	case 1:
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		e.SetEscapeHTML(false)
		err := e.Encode(x)
		return b.Bytes(), err
	case 2:
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		e.SetIndent("", "  ")
		err := e.Encode(x)
		return b.Bytes(), err
	}
	return json.Marshal(x)
}

func p23JSON(c *Case) {
	r := c.R
	x := &encCtx{c: c, noAny: r.Intn(2) == 0}
	s := x.spec(0, true)
	if len(s.sub) == 0 {
		s = &encSpec{k: "sl"[r.Intn(2)], sub: []*encSpec{s}}
	}
	p := reflect.New(s.typ())
	t := x.fill(s, p.Elem())
	c.Note("%v: %s", s.typ(), trunc(t.canonSeq(), 2000))
	b, err := jsonForm(c, p.Interface())
	if err != nil {
		c.Fail("encoding/json: %v", err)
	}
	got := strict(c, b, "encoding/json")
	if d := diffOut(got, t, false, "$"); d != "" {
		c.Fail("encoded by encoding/json: %s\n%s", d, trunc(string(b), 2000))
	}
	c.Hit("json_encoded")
	c.Distinct(s.typ().String(), t.canon())
	if c.Index < 6 {
		c.Sample("%v: %s", s.typ(), trunc(string(b), 200))
	}
	if !x.noAny {
		return
	}
	if r.Intn(2) == 0 {
		st := genStyle(r)
		st.dup = false // a duplicate may have another type than the field
		b = render(r, t, st)
	}
	q := reflect.New(s.typ())
	if err := json.Unmarshal(b, q.Interface()); err != nil {
		c.Fail("encoding/json cannot decode %s into %v: %v", trunc(string(b), 1500), s.typ(), err)
	}
	x.check(s, q.Elem(), t, "$", true)
	c.Hit("json_decoded")
	// into a used target
	if r.Intn(2) == 0 && !hasOmit(s) {
		q := reflect.New(s.typ())
		old := x.fill(s, q.Elem())
		c.NoteMore("; decoded over %s", trunc(old.canonSeq(), 1000))
		if err := json.Unmarshal(b, q.Interface()); err != nil {
			c.Fail("encoding/json cannot decode %s into a used target: %v", trunc(string(b), 1500), err)
		}
		x.check(s, q.Elem(), t, "used $", true)
		c.Hit("reused_targets")
	}
}

func hasOmit(s *encSpec) bool {
	if s.omit {
		return true
	}
	for _, x := range s.sub {
		if hasOmit(x) {
			return true
		}
	}
	return false
}

func p23Gob(c *Case) {
	r := c.R
	x := &encCtx{c: c, noAny: true, noNil: true, noOmit: true}
	s := x.spec(1, true)
	s = &encSpec{k: 's', sub: []*encSpec{s}}
	p := reflect.New(s.typ())
	t := x.fill(s, p.Elem())
	c.Note("gob of %v: %s", s.typ(), trunc(t.canonSeq(), 2000))
	var b bytes.Buffer
	enc := gob.NewEncoder(&b)
	n := 1 + r.Intn(2)
	for i := 0; i < n; i++ {
		if err := enc.Encode(p.Interface()); err != nil {
			c.Fail("gob encoder: %v", err)
		}
	}
	dec := gob.NewDecoder(&b)
	for i := 0; i < n; i++ {
		q := reflect.New(s.typ())
		if err := dec.Decode(q.Interface()); err != nil {
			c.Fail("gob decoder: %v", err)
		}
		x.checkGob(s, q.Elem(), t)
	}
	c.Hit("gob_decoded")
	c.Distinct(s.typ().String(), t.canon())
}

// checkGob is check, but gob leaves empty containers nil
func (x *encCtx) checkGob(s *encSpec, v reflect.Value, t *RV) { x.check(s, v, t, "gob $", false) }

// p23Reuse decodes text after text into one value, which is used in between
func p23Reuse(c *Case) {
	r := c.R
	x := &encCtx{c: c}
	g := &genCfg{maxDepth: 2, maxKids: 4}
	if r.Intn(2) == 0 {
		g.keys = smallKeys
	}
	v := &jv.V{}
	if r.Intn(2) == 0 {
		v = buildV(r, genTree(r, g, 0), r.Intn(3))
	}
	holder := struct {
		V *jv.V
		W jv.V
	}{V: v}
	c.Note("reused value")
	for i := 2 + r.Intn(4); i > 0; i-- {
		t := genTree(r, g, 0)
		if now, ok := snap(v); ok && r.Intn(3) == 0 { // what is there already, in other words
			t = now.clone()
			rephrase(r, t)
			for _, x := range nodes(t, nil) {
				if x.K == kNum {
					x.N = readable(x.N)
				}
			}
			if r.Intn(4) == 0 && t.isCont() {
				all := nodes(t, nil)
				*all[r.Intn(len(all))] = *genScalar(r, g)
			}
			c.Hit("nearly_the_same")
		}
		text := render(r, t, genStyle(r))
		keep := append([]byte(nil), text...)
		how := r.Intn(6)
		var err error
		target := v
		into := v
		if how == 5 {
			into = &holder.W
		}
		held := heldParts(into)
		switch how {
		case 0:
			err = v.UnmarshalJSON(text)
		case 1:
			err = v.UnmarshalBinary(text)
			c.Hit("binary_decoded")
		case 2:
			err = json.Unmarshal(text, v)
		case 3:
			err = json.NewDecoder(bytes.NewReader(text)).Decode(v)
		case 4:
			if t.K == kNull {
				continue
			}
			err = json.Unmarshal([]byte(`{"V":`+string(text)+`}`), &holder)
			if err == nil && holder.V != v {
				c.Fail("decoding replaces the pointer")
			}
		default:
			err = json.Unmarshal([]byte(`{"W":`+string(text)+`}`), &holder)
			target = &holder.W
		}
		c.NoteMore("; by %d %s", how, trunc(string(text), 600))
		if err != nil {
			c.Fail("decoding %s: %v", trunc(string(text), 1000), err)
		}
		if !bytes.Equal(keep, text) {
			c.Fail("decoding changes its input")
		}
		for j := range text {
			text[j] = 'x'
		}
		if d := diffV(target, t); d != "" {
			c.Fail("decoded into a used value: %s", d)
		}
		for _, p := range held {
			if d := diffV(p.v, p.t); d != "" {
				c.Fail("decoding changed a former member of the value, which is a value of its own: %s", d)
			}
			c.Hit("former_members_kept")
		}
		c.Hit("used_targets_direct")
		// nothing is left of what was there before
		if t.K == kObj {
			for _, k := range allKeys(t) {
				if _, ok := t.O[k]; !ok {
					continue
				}
				y, err := target.Caseless().Get(strings.ToUpper(k))
				if err != nil && strings.ToLower(strings.ToUpper(k)) == strings.ToLower(k) {
					c.Fail("caseless read of %q: %v", k, err)
				}
				_ = y
			}
			if _, err := target.Caseless().Get("never there"); err == nil {
				c.Fail("caseless read finds a key that is not there")
			}
			for _, k := range smallKeys {
				want := false
				for kk := range t.O {
					if strings.ToLower(kk) == strings.ToLower(k) {
						want = true
					}
				}
				if _, err := target.Caseless().Get(k); (err == nil) != want {
					c.Fail("caseless read of %q in a reused value: %v, present: %v", k, err, want)
				}
			}
			out, err := target.Marshal(jv.OptSetSequence())
			if err != nil {
				c.Fail("Marshal: %v", err)
			}
			if d := diffOut(strict(c, out, "Marshal"), t, true, "$"); d != "" {
				c.Fail("set order in a reused value: %s", d)
			}
		}
		b, err := target.MarshalBinary()
		if err != nil {
			c.Fail("MarshalBinary: %v", err)
		}
		w := &jv.V{}
		if err := w.UnmarshalBinary(b); err != nil {
			c.Fail("UnmarshalBinary of MarshalBinary: %v", err)
		}
		if d := diffV(w, t); d != "" {
			c.Fail("binary round trip: %s", d)
		}
		x.use(target, t, "reused")
		c.Distinct(t.canon(), how)
	}
}

type heldPart struct {
	v *jv.V
	t *RV
}

// heldParts lists the members of v, with what they are
func heldParts(v *jv.V) (out []heldPart) {
	add := func(x *jv.V) {
		if t, _ := snap(x); t != nil && len(out) < 40 {
			out = append(out, heldPart{x, t})
		}
	}
	for _, x := range v.ForRangeArr() {
		add(x)
		for _, y := range x.ForRangeArr() {
			add(y)
		}
		for _, y := range x.ForRangeObj() {
			add(y)
		}
	}
	for _, x := range v.ForRangeObj() {
		add(x)
		for _, y := range x.ForRangeArr() {
			add(y)
		}
	}
	return
}

// p23Broken: what must be refused
func p23Broken(c *Case) {
	r := c.R
	t := genTree(r, &genCfg{maxDepth: 2, maxKids: 3}, 0)
	text := mutate(r, render(r, t, genStyle(r)))
	c.Note("%q", trunc(string(text), 2000))
	refused := func(x any, what string) {
		for i, f := range []func() ([]byte, error){
			func() ([]byte, error) { return json.Marshal(x) },
			func() ([]byte, error) { return json.Marshal(map[string]any{"k": []any{1, x}}) },
			func() ([]byte, error) { return json.MarshalIndent([]any{x}, "", " ") },
		} {
			if b, err := f(); err == nil || len(b) != 0 {
				c.Fail("%s encoded by encoding/json (%d): %q %v", what, i, b, err)
			}
		}
	}
	if c.Index%4 == 0 {
		// no JSON for these
		for _, v := range []*jv.V{{}, jv.New(make(chan int)), jv.MustUnmarshal([]byte("{")), jv.NewObject().MustGet("x")} {
			refused(v, "NotExist value")
			if b, err := v.MarshalBinary(); err == nil || len(b) != 0 {
				c.Fail("MarshalBinary of a NotExist value: %q %v", b, err)
			}
			if b, err := v.MarshalJSON(); err == nil || len(b) != 0 {
				c.Fail("MarshalJSON of a NotExist value: %q %v", b, err)
			}
			var buf bytes.Buffer
			if err := gob.NewEncoder(&buf).Encode([]*jv.V{v}); err == nil {
				c.Fail("gob encodes a NotExist value")
			}
			c.Hit("refused_not_exist")
		}
		n := jv.NewFloat64([]float64{genAnyNaN(r), math.Inf(1), math.Inf(-1)}[r.Intn(3)])
		a := jv.NewArray()
		a.MustAppendObject().InTheEnd()
		a.MustSet(n).At(0, "x")
		for _, v := range []*jv.V{n, a} {
			refused(v, "non-finite value")
			if b, err := v.MarshalBinary(); err == nil || len(b) != 0 {
				c.Fail("MarshalBinary of a non-finite value: %q %v", b, err)
			}
			c.Hit("refused_nan")
		}
	}
	ref := refParse(text, true)
	var verdict []bool
	for how := 0; how < 2; how++ {
		old := genTree(r, &genCfg{maxDepth: 2, maxKids: 3}, 0)
		v := buildV(r, old, r.Intn(3))
		var err error
		if how == 0 {
			err = v.UnmarshalJSON(text)
		} else {
			err = v.UnmarshalBinary(text)
		}
		verdict = append(verdict, err == nil)
		if err != nil {
			c.Hit("refused_texts")
			_ = v.ValueType()
			_, _ = v.Marshal()
			continue
		}
		if !ref.ok {
			c.Fail("accepted a text that is not JSON: %q", trunc(string(text), 1000))
		}
	}
	if verdict[0] != verdict[1] {
		c.Fail("UnmarshalJSON and UnmarshalBinary disagree on %q", trunc(string(text), 1000))
	}
	// encoding/json reports the error of the value
	strictRef := refParse(text, false)
	var h struct{ V *jv.V }
	err := json.Unmarshal([]byte(`{"V":`+string(text)+`}`), &h)
	if json.Valid([]byte(`{"V":` + string(text) + `}`)) {
		if (err == nil) != verdict[0] && strictRef.ok {
			c.Fail("encoding/json with a value inside: %v; alone accepted: %v; text %q", err, verdict[0], trunc(string(text), 1000))
		}
	} else if err == nil {
		c.Fail("encoding/json accepts %q", trunc(string(text), 1000))
	}
	c.Eval(1)
	c.Distinct(text)
}

// p23Stream decodes a stream of values
func p23Stream(c *Case) {
	r := c.R
	var b bytes.Buffer
	var ts []*RV
	e := json.NewEncoder(&b)
	for n := 1 + r.Intn(6); n > 0; n-- {
		t := genTree(r, &genCfg{maxDepth: 2, maxKids: 3}, 0)
		ts = append(ts, t)
		if r.Intn(2) == 0 {
			b.Write(render(r, t, genStyle(r)))
			b.WriteByte('\n')
		} else if err := e.Encode(buildV(r, t, r.Intn(3))); err != nil {
			c.Fail("Encode: %v", err)
		}
	}
	c.Note("stream %q", trunc(b.String(), 2000))
	d := json.NewDecoder(io.MultiReader(&oneByte{&b, r.Intn(2) == 0}))
	x := &encCtx{c: c}
	v := &jv.V{}
	var all []*jv.V
	for i, t := range ts {
		if r.Intn(3) != 0 {
			v = &jv.V{}
		} else if i > 0 {
			all[i-1] = nil // decoded over
		}
		if err := d.Decode(v); err != nil {
			c.Fail("Decode %d: %v", i, err)
		}
		if diff := diffV(v, t); diff != "" {
			c.Fail("value %d of the stream: %s", i, diff)
		}
		all = append(all, v)
		c.Hit("streams")
	}
	// the decoder reuses its buffer: earlier values must not change
	for i, t := range ts {
		if all[i] == nil {
			continue
		}
		if diff := diffV(all[i], t); diff != "" {
			c.Fail("value %d of the stream, at its end: %s", i, diff)
		}
	}
	_ = x
	c.Eval(len(ts))
	c.Distinct(len(ts), ts[0].canon())
}

type oneByte struct {
	r  io.Reader
	on bool
}

func (o *oneByte) Read(p []byte) (int, error) {
	if o.on && len(p) > 3 {
		p = p[:3]
	}
	return o.r.Read(p)
}

// p23Sized: large values through every standard interface
func p23Sized(c *Case) {
	r := c.R
	t, shape := sizedTree(r, &genCfg{}, sizeFor(c, 70000))
	v := buildV(r, t, r.Intn(3))
	c.Note("%s: %s", shape, trunc(t.canonSeq(), 1000))
	type box struct {
		A int
		X *jv.V
		Z string
	}
	src := box{1, v, "z"}
	var dst box
	how := ""
	switch r.Intn(6) {
	case 0:
		how = "encoding/json, in a structure"
		b, err := json.Marshal(src)
		if err == nil {
			err = json.Unmarshal(b, &dst)
		}
		if err != nil {
			c.Fail("%s: %v", how, err)
		}
	case 1:
		how = "gob, in a structure"
		var b bytes.Buffer
		err := gob.NewEncoder(&b).Encode(src)
		if err == nil {
			err = gob.NewDecoder(&b).Decode(&dst)
		}
		if err != nil {
			c.Fail("%s: %v", how, err)
		}
	case 2:
		how = "MarshalBinary and UnmarshalBinary"
		b, err := v.MarshalBinary()
		dst.X = &jv.V{}
		if err == nil {
			err = dst.X.UnmarshalBinary(b)
		}
		if err != nil {
			c.Fail("%s: %v", how, err)
		}
	case 3:
		how = "a stream of values"
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		for i := 0; i < 3; i++ {
			if err := e.Encode(v); err != nil {
				c.Fail("%s: %v", how, err)
			}
		}
		d := json.NewDecoder(&b)
		for i := 0; i < 3; i++ {
			dst.X = &jv.V{}
			if err := d.Decode(dst.X); err != nil {
				c.Fail("%s: %v", how, err)
			}
			if df := diffLoose(dst.X, t); df != "" {
				c.Fail("%s, value %d: %s", how, i, df)
			}
		}
	case 4:
		how = "UnmarshalJSON over a used value"
		b, err := v.MarshalJSON()
		u, _ := sizedTree(r, &genCfg{}, 1000)
		dst.X = buildV(r, u, r.Intn(3))
		if err == nil {
			err = dst.X.UnmarshalJSON(b)
		}
		if err != nil {
			c.Fail("%s: %v", how, err)
		}
	default:
		how = "a map of values in encoding/json"
		b, err := json.Marshal(map[string]any{"x": v, "l": []*jv.V{v, v}})
		var m struct {
			X *jv.V
			L []jv.V
		}
		if err == nil {
			err = json.Unmarshal(b, &m)
		}
		if err != nil || len(m.L) != 2 {
			c.Fail("%s: %v", how, err)
		}
		for i := range m.L {
			if d := diffLoose(&m.L[i], t); d != "" && t.K != kNull {
				c.Fail("%s: %s", how, d)
			}
		}
		dst.X = m.X
	}
	c.NoteMore("; %s", how)
	if d := diffLoose(dst.X, t); d != "" {
		c.Fail("%s: %s", how, d)
	}
	if d := diffV(v, t); d != "" {
		c.Fail("encoding changed the value: %s", d)
	}
	c.Eval(2)
	c.Hit("sized_" + shape)
	c.Distinct("sized", c.Index)
}
