package main

import (
	"bytes"
	"encoding/base64"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"strings"

	"github.com/Andrew-M-C/go.jsonvalue/beta"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P17",
		Rule: "populations of live documents made by every entry point, in random histories of reading, marshalling, comparing, iterating, editing one of them, overwriting inputs and outputs the caller owns, dropping documents and " +
			"collecting garbage; after each step the documents touched, and regularly all of them and every string and byte slice handed out, are compared with independent copies; non-trivial: distinct documents re-verified after a scribble",
		Need: []string{"scribbled_input", "scribbled_output", "kept_outputs", "kept_strings", "verified_documents", "edited", "read", "collected", "guard_bytes", "no_copy", "scribbled_collection", "decoded_into_nodes", "emptied_then_copied", "edited_copies", "sized_documents", "long_bytes", "churned_values", "twins"},
		Suites: []Suite{
			{Name: "population", Quick: 6000, Thorough: 60000, Run: p17Population},
			{Name: "inputs", Quick: 160000, Thorough: 300000, Run: p17Inputs},
			{Name: "errors", Quick: 120000, Thorough: 300000, Run: p17Errors},
			{Name: "copies", Quick: 60000, Thorough: 600000, Run: p17Copies},
			{Name: "twins", Quick: 40000, Thorough: 400000, Run: p17Twins},
			{Name: "age", Quick: 104, Thorough: 2000, Run: p17Age},
			{Name: "life", Quick: 4000, Thorough: 90000, Run: lifeRun(genCfg{nulls: 2}, readCopies)},
		},
	})
}

// owned is memory the caller owns, with a private copy of what it should hold
type owned struct {
	b    []byte
	want []byte
	s    string // or a string
	what string
}

type popDoc struct {
	v  *jv.V
	t  *RV
	id int
}

type population struct {
	c    *Case
	docs []*popDoc
	own  []*owned
	n    int
	log  []string
}

func (p *population) did(format string, a ...any) {
	p.log = append(p.log, fmt.Sprintf(format, a...))
	l := p.log
	if len(l) > 40 {
		l = l[len(l)-40:]
	}
	p.c.Note("%s", strings.Join(l, "; "))
}

func (p *population) check(d *popDoc, when string) {
	if x := diffV(d.v, d.t); x != "" {
		p.c.Fail("document %d is different %s: %s; it should be %s", d.id, when, x, trunc(d.t.canon(), 1000))
	}
	p.c.Eval(1)
	p.c.Hit("verified_documents")
}

func (p *population) checkAll(when string) {
	for _, d := range p.docs {
		p.check(d, when)
	}
	for _, o := range p.own {
		if o.b != nil && !bytes.Equal(o.b, o.want) {
			p.c.Fail("%s handed out earlier is different %s: %q, was %q", o.what, when, trunc(string(o.b), 600), trunc(string(o.want), 600))
		}
		if o.b == nil && o.s != string(o.want) {
			p.c.Fail("%s handed out earlier is different %s: %q, was %q", o.what, when, trunc(o.s, 600), trunc(string(o.want), 600))
		}
	}
}

func (p *population) keep(b []byte, what string) {
	p.own = append(p.own, &owned{b: b, want: append([]byte{}, b...), what: what})
	p.c.Hit("kept_outputs")
}

func (p *population) keepString(s, what string) {
	p.own = append(p.own, &owned{s: s, want: []byte(s), what: what})
	p.c.Hit("kept_strings")
}

func fillBytes(c *Case, b []byte) {
	b = b[:cap(b)]
	x := byte(c.R.Intn(256))
	if c.R.Intn(3) == 0 {
		copy(b, "{\"scribbled\":[1,2,3,\"\\u0041\"]}")
		return
	}
	for i := range b {
		b[i] = x
	}
}

// guarded returns the text in the middle of a larger buffer, with spare capacity, and the buffer
func guarded(c *Case, text []byte) (b, whole []byte) {
	pre, post := c.R.Intn(20), c.R.Intn(40)
	whole = make([]byte, pre+len(text)+post)
	for i := range whole {
		whole[i] = 0xA5
	}
	copy(whole[pre:], text)
	return whole[pre : pre+len(text)], whole
}

func guardsIntact(c *Case, b, whole []byte, what string) {
	for i := range whole {
		in := cap(whole)-cap(b) <= i && i < cap(whole)-cap(b)+len(b)
		if !in && whole[i] != 0xA5 {
			c.Fail("%s writes outside its argument, at offset %d of %d (argument %d to %d)", what, i, len(whole), cap(whole)-cap(b), cap(whole)-cap(b)+len(b))
		}
	}
	c.Hit("guard_bytes")
}

// p17Parse makes a document of t by a parsing entry point; the buffers are overwritten before returning, except
// those the document may keep
func p17Parse(c *Case, t *RV) (*jv.V, string) {
	r := c.R
	text := render(r, t, genStyle(r))
	b, whole := guarded(c, text)
	var v *jv.V
	var err error
	what := ""
	copying := true
	switch r.Intn(9) {
	case 0, 1:
		what = "Unmarshal"
		v, err = jv.Unmarshal(b)
	case 2:
		what = "MustUnmarshal"
		v = jv.MustUnmarshal(b)
	case 3:
		what = "UnmarshalNoCopy"
		v, err = jv.UnmarshalNoCopy(b)
		copying = false
		c.Hit("no_copy")
	case 4:
		what = "UnmarshalString"
		s := string(text)
		keep := strings.Clone(s)
		v, err = jv.UnmarshalString(s)
		if s != keep {
			c.Fail("UnmarshalString changes its argument")
		}
	case 5:
		what = "UnmarshalJSON"
		v = &jv.V{}
		err = v.UnmarshalJSON(b)
	case 6:
		what = "UnmarshalBinary"
		v = &jv.V{}
		err = v.UnmarshalBinary(b)
	case 7:
		what = "json.Unmarshal"
		v = nil
		err = json.Unmarshal(b, &v)
		if t.K == kNull { // null leaves a pointer nil
			v = jv.NewNull()
		}
	default:
		what = "json.RawMessage"
		v, err = jv.Import(json.RawMessage(b))
	}
	if err != nil {
		c.Fail("%s rejects %s: %v", what, trunc(string(text), 1000), err)
	}
	guardsIntact(c, b, whole, what)
	if copying {
		if !bytes.Equal(b, text) {
			c.Fail("%s changes its argument from %q to %q", what, trunc(string(text), 600), trunc(string(b), 600))
		}
		fillBytes(c, whole)
		c.Hit("scribbled_input")
	}
	return v, what
}

func p17Inputs(c *Case) {
	r := c.R
	t := genTree(r, &genCfg{maxDepth: 3, maxKids: 5}, 0)
	if r.Intn(4) == 0 {
		t = rStr(genString(r) + genString(r))
	}
	c.Note("%s", trunc(t.canon(), 2000))
	v, what := p17Parse(c, t)
	if d := diffV(v, t); d != "" {
		c.Fail("overwriting the argument of %s changes the document: %s", what, d)
	}
	c.Eval(1)
	// every kind of output
	for i := 0; i < 3; i++ {
		b, how, _ := p17Output(c, v)
		if b == nil {
			continue
		}
		fillBytes(c, b)
		c.Hit("scribbled_output")
		if d := diffV(v, t); d != "" {
			c.Fail("overwriting the result of %s changes the document: %s", how, d)
		}
		b2, _ := v.Marshal(jv.OptSetSequence())
		keep := append([]byte{}, b2...)
		b3, _ := v.Marshal(jv.OptSetSequence())
		fillBytes(c, b3)
		if !bytes.Equal(b2, keep) {
			c.Fail("two outputs of Marshal share memory")
		}
	}
	// bytes given to constructors and setters
	raw := make([]byte, r.Intn(50))
	if r.Intn(8) == 0 {
		raw = make([]byte, r.Intn(1<<uint(6+r.Intn(8))))
		c.Hit("long_bytes")
	}
	r.Read(raw)
	was := append([]byte{}, raw...)
	enc := base64.StdEncoding.EncodeToString(raw)
	o, a := jv.NewObject(), jv.NewArray()
	var vs []*jv.V
	vs = append(vs, jv.NewBytes(raw), jv.New(raw))
	x, _ := o.SetBytes(raw).At("k")
	y, _ := a.AppendBytes(raw).InTheEnd()
	z, _ := o.Set(raw).At("k2")
	vs = append(vs, x, y, z)
	fillBytes(c, raw)
	for i, x := range vs {
		if x.String() != enc {
			c.Fail("overwriting bytes given to constructor %d changes its value: %q", i, x.String())
		}
		b := x.Bytes()
		fillBytes(c, b)
		b2, _ := o.GetBytes("k")
		fillBytes(c, b2)
		if x.String() != enc || o.MustGet("k").String() != enc {
			c.Fail("overwriting the result of Bytes changes the value")
		}
		if b3, _ := o.GetBytes("k"); !bytes.Equal(x.Bytes(), was) || !bytes.Equal(b3, was) {
			c.Fail("overwriting the result of Bytes changes later results of Bytes")
		}
	}
	// parameters
	if t.K == kArr || t.K == kObj {
		params := []any{"a", 1}
		_, _ = v.Get("zz", params...)
		if params[0] != "a" || params[1] != 1 {
			c.Fail("Get changes its parameters")
		}
	}
	// collections handed out
	m := v.ForRangeObj()
	for k := range m {
		delete(m, k)
	}
	l := v.ForRangeArr()
	for i := range l {
		l[i] = jv.NewString("scribble")
	}
	c.Hit("scribbled_collection")
	if d := diffV(v, t); d != "" {
		c.Fail("changing the collection made for an iteration changes the document: %s", d)
	}
	// options given as slices and structures
	seq := []string{"b", "a", "c"}
	keep := append([]string{}, seq...)
	out1, _ := v.Marshal(jv.OptKeySequence(seq))
	for i := range seq {
		if seq[i] != keep[i] {
			c.Fail("Marshal changes the key sequence it was given")
		}
		seq[i] = "scribbled"
	}
	if d := diffV(v, t); d != "" || !json.Valid(out1) {
		c.Fail("overwriting the key sequence changes the document or its output: %s", d)
	}
	c.Distinct(t.canon())
}

func p17Output(c *Case, v *jv.V) ([]byte, string, int) {
	form := c.R.Intn(7)
	b, what := p17OutputOf(c, v, form)
	return b, what, form
}

func p17OutputOf(c *Case, v *jv.V, form int) ([]byte, string) {
	var b []byte
	var err error
	what := ""
	switch form {
	case 0:
		what = "Marshal"
		b, err = v.Marshal()
	case 1:
		what = "MustMarshal"
		b = v.MustMarshal(jv.OptSetSequence(), jv.OptUTF8())
	case 2:
		what = "MarshalJSON"
		b, err = v.MarshalJSON()
	case 3:
		what = "MarshalBinary"
		b, err = v.MarshalBinary()
	case 4:
		what = "Bytes"
		b = v.Bytes()
	case 5:
		what = "json.Marshal"
		b, err = json.Marshal([]*jv.V{v, v})
	default:
		what = "Export to json.RawMessage"
		var raw json.RawMessage
		err = v.Export(&raw)
		b = raw
	}
	if err != nil {
		c.Fail("%s gives error %v", what, err)
	}
	return b, what
}

// p17Errors: failing calls neither change nor keep what they are given, nor disturb a neighbour
func p17Errors(c *Case) {
	r := c.R
	t := genTree(r, &genCfg{maxDepth: 3, maxKids: 5}, 0)
	v, _ := p17Parse(c, t)
	text := render(r, genTree(r, &genCfg{maxDepth: 3, maxKids: 4}, 0), genStyle(r))
	bad := mutate(r, append([]byte{}, text...))
	b, whole := guarded(c, bad)
	c.Note("neighbour %s; bad text %q", trunc(t.canon(), 1000), trunc(string(bad), 1000))
	var x *jv.V
	var err error
	nocopy := r.Intn(3) == 0
	if nocopy {
		x, err = jv.UnmarshalNoCopy(b)
	} else {
		x, err = jv.Unmarshal(b)
		if !bytes.Equal(b, bad) {
			c.Fail("Unmarshal changes its argument from %q to %q", bad, b)
		}
	}
	guardsIntact(c, b, whole, "parsing")
	if err == nil && !nocopy {
		want, ok := snap(x)
		fillBytes(c, whole)
		if ok {
			if d := diffV(x, want); d != "" {
				c.Fail("overwriting the argument changes the document: %s", d)
			}
		}
	}
	if err != nil {
		// the value that came with the error is not a window to the input
		fillBytes(c, whole)
		_ = x.String()
		_, _ = x.Marshal()
		c.Hit("rejected")
	}
	if d := diffV(v, t); d != "" {
		c.Fail("parsing another text changes a document: %s", d)
	}
	c.Eval(1)
	c.Distinct(string(bad))
}

func p17Population(c *Case) {
	r := c.R
	p := &population{c: c}
	g := &genCfg{maxDepth: 3, maxKids: 5}
	steps := 30 + r.Intn(60)
	for i := 0; i < steps; i++ {
		n := r.Intn(18)
		if len(p.docs) == 0 {
			n = 0
		}
		var d *popDoc
		if len(p.docs) > 0 {
			d = p.docs[r.Intn(len(p.docs))]
		}
		switch n {
		case 0, 1, 2:
			t := genTree(r, g, 0)
			if r.Intn(3) == 0 {
				t = genDoc(r, g)
			}
			if r.Intn(60) == 0 {
				t, _ = sizedTree(r, g, ladder[r.Intn(13)])
				c.Hit("sized_documents")
			}
			d = &popDoc{t: t, id: p.n}
			p.n++
			how := "built"
			switch r.Intn(4) {
			case 0:
				d.v = buildV(r, t, 0)
			case 1: // cloned from another one
				src := p.pick()
				if src != nil {
					d.t = src.t.clone()
					d.v, how = p17Clone(c, src)
					break
				}
				fallthrough
			default:
				d.v, how = p17Parse(c, t)
			}
			p.docs = append(p.docs, d)
			p.did("document %d by %s: %s", d.id, how, trunc(d.t.canon(), 200))
		case 3, 4, 5:
			b, how, form := p17Output(c, d.v)
			if r.Intn(2) == 0 {
				p.keep(b, how)
				p.did("%s of document %d kept", how, d.id)
			} else {
				first := append([]byte{}, b...)
				fillBytes(c, b)
				c.Hit("scribbled_output")
				if b2, _ := p17OutputOf(c, d.v, form); !bytes.Equal(b2, first) {
					x, y := refParse(b2, false), refParse(first, false)
					if !x.ok || !y.ok || x.v.canon() != y.v.canon() {
						c.Fail("%s of document %d gives %q, and %q after its first result was overwritten", how, d.id, trunc(string(first), 500), trunc(string(b2), 500))
					}
				}
				c.Eval(1)
				p.did("%s of document %d overwritten", how, d.id)
			}
		case 6:
			s, err := d.v.MarshalString(jv.OptSetSequence())
			if err != nil {
				c.Fail("MarshalString: %v", err)
			}
			p.keepString(s, "MarshalString")
			p.keepString(d.v.String(), "String")
			p.did("strings of document %d", d.id)
		case 7:
			// strings out of the document, and its keys
			d.v.RangeObjects(func(k string, x *jv.V) bool {
				p.keepString(k, "key")
				p.keepString(x.String(), "String of a member")
				return r.Intn(4) > 0
			})
			d.v.RangeArray(func(i int, x *jv.V) bool {
				p.keepString(x.String(), "String of an element")
				return r.Intn(4) > 0
			})
			p.did("strings inside document %d", d.id)
		case 8, 9:
			p17Read(c, d, p.pick())
			c.Hit("read")
			p.did("document %d read", d.id)
		case 10, 11:
			if d.t.isCont() {
				editBoth(c, d.v, d.t, g)
				c.Hit("edited")
				p.did("document %d edited", d.id)
			}
		case 12:
			// drop a document
			for j, x := range p.docs {
				if x == d {
					p.docs = append(p.docs[:j], p.docs[j+1:]...)
					break
				}
			}
			p.did("document %d dropped", d.id)
			d = nil
		case 13:
			// churn
			for j := 0; j < 5; j++ {
				v, _ := p17Parse(c, genTree(r, g, 0))
				_, _ = v.Marshal()
				_, _ = jv.Unmarshal(mutate(r, []byte(renderPlain(genTree(r, g, 0)))))
			}
			p.did("churn")
		case 14:
			if c.Index%4 == 0 {
				runtime.GC()
				c.Hit("collected")
				p.did("garbage collected")
			}
			if len(p.own) > 60 {
				p.own = p.own[30:]
			}
		case 15, 16:
			// decode another text into a node inside a document, or into the document itself
			var in []*RV
			nodeOf := map[*RV]*jv.V{}
			var walk func(m *RV, v *jv.V)
			walk = func(m *RV, v *jv.V) {
				in = append(in, m)
				nodeOf[m] = v
				for i, x := range m.A {
					walk(x, v.MustGet(i))
				}
				for _, k := range m.Keys {
					walk(m.O[k], v.MustGet(k))
				}
			}
			walk(d.t, d.v)
			m := in[r.Intn(len(in))]
			t := genTree(r, &genCfg{maxDepth: 1, maxKids: 3}, 0)
			b, whole := guarded(c, render(r, t, genStyle(r)))
			how, err := "", error(nil)
			switch r.Intn(3) {
			case 0:
				how, err = "UnmarshalJSON", nodeOf[m].UnmarshalJSON(b)
			case 1:
				how, err = "UnmarshalBinary", nodeOf[m].UnmarshalBinary(b)
			default:
				if t.K == kNull {
					continue
				}
				how, err = "json.Unmarshal", json.Unmarshal(b, nodeOf[m])
			}
			if err != nil {
				c.Fail("%s into a node: %v", how, err)
			}
			guardsIntact(c, b, whole, how)
			fillBytes(c, whole)
			was := trunc(m.canon(), 100)
			*m = *t
			c.Hit("decoded_into_nodes")
			p.did("%s into node %s of document %d: %s", how, was, d.id, trunc(t.canon(), 100))
		default:
			// an edit of one node of one document, through a failing and then a good call
			_, _ = d.v.Set("x").At(-1<<40, "nowhere")
			_ = d.v.Delete("nowhere", "at", "all")
			_, _ = d.v.Append(1).InTheEnd("nowhere", 5)
			p.did("rejected edits of document %d", d.id)
		}
		if d != nil {
			p.check(d, "after a step on it")
			c.Distinct(d.t.canon())
		}
		if x := p.pick(); x != nil {
			p.check(x, "after a step on another one")
		}
		if i%10 == 9 {
			p.checkAll("after some steps")
		}
	}
	p.checkAll("in the end")
}

func (p *population) pick() *popDoc {
	if len(p.docs) == 0 {
		return nil
	}
	return p.docs[p.c.R.Intn(len(p.docs))]
}

// p17Clone copies a document in one of the ways the library offers
func p17Clone(c *Case, d *popDoc) (*jv.V, string) {
	how := c.R.Intn(5)
	if !reparses(d.t) {
		how *= 3 // Import or New
	}
	switch how {
	case 0:
		v, err := jv.Import(d.v)
		if err != nil {
			c.Fail("Import of a value: %v", err)
		}
		return v, "Import"
	case 1:
		b, err := d.v.Marshal(jv.OptSetSequence())
		if err != nil {
			c.Fail("Marshal: %v", err)
		}
		v, err := jv.UnmarshalNoCopy(b)
		if err != nil {
			c.Fail("reading it back: %v", err)
		}
		return v, "Marshal and UnmarshalNoCopy"
	case 2:
		v := &jv.V{}
		if err := d.v.Export(v); err != nil {
			c.Fail("Export to a value: %v", err)
		}
		return v, "Export"
	case 3, 6, 9, 12:
		return jv.New(d.v), "New"
	}
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(d.v); err != nil {
		c.Fail("gob: %v", err)
	}
	v := &jv.V{}
	if err := gob.NewDecoder(&buf).Decode(v); err != nil {
		c.Fail("gob: %v", err)
	}
	return v, "gob"
}

// p17Read calls a lot of functions that only read
func p17Read(c *Case, d, other *popDoc) {
	r := c.R
	v := d.v
	v.RangeObjects(func(k string, x *jv.V) bool {
		x.RangeObjectsBySetSequence(func(string, *jv.V) bool { return true })
		return true
	})
	v.RangeArray(func(int, *jv.V) bool { return true })
	for x := range v.IterObjects() {
		_ = x.K
	}
	for x := range v.IterArray() {
		_ = x.I
	}
	_ = v.Equal(other.v)
	_ = other.v.Equal(v)
	_ = v.GreaterThan(other.v) || v.LessThan(other.v) || v.LessThanOrEqual(other.v) || v.GreaterThanOrEqual(other.v)
	_, _ = v.Get("a")
	_, _ = v.Get(0)
	for k := range d.t.O {
		_, _ = v.Caseless().Get(strings.ToUpper(k))
		_, _ = v.GetString(k)
		_, _ = v.GetInt(k)
		_, _ = v.GetFloat64(k)
		_, _ = v.GetBool(k)
		_, _ = v.GetBytes(k)
		_, _ = v.GetObject(k)
		_, _ = v.GetArray(k)
	}
	_ = beta.Contains(v, other.v)
	_, _ = v.Int(), v.Float64()
	_ = v.Len()
	var dst any
	_ = v.Export(&dst)
	_, _ = jv.Import(v)
	o := genOpts(r, -1, []string{"a", "b"})
	_, _ = v.Marshal(o.opts...)
	_ = v.String()
}

// p17Copies: a document, often with parts emptied member by member, is copied in every way, and the copies and it are
// then edited in turn; also many empty containers made in different ways, all filled afterwards
func p17Copies(c *Case) {
	r := c.R
	p := &population{c: c}
	g := &genCfg{maxDepth: 1 + r.Intn(2), maxKids: 1 + r.Intn(4)}
	t := genTree(r, g, 0)
	for n := 0; n < 5 && !t.isCont(); n++ {
		t = genTree(r, g, 0)
	}
	if !t.isCont() {
		t = rArr(t)
	}
	first := &popDoc{t: t, id: 0}
	if r.Intn(2) == 0 {
		first.v = buildV(r, t, 0)
	} else {
		first.v, _ = p17Parse(c, t)
	}
	p.docs = append(p.docs, first)
	p.did("document 0: %s", trunc(t.canon(), 300))
	for i, n := 0, 4+r.Intn(10); i < n; i++ {
		d := p.pick()
		switch r.Intn(5) {
		case 0: // empty one container of it
			if x, y := p17Node(r, d, 0); x.length() > 0 {
				p.did("document %d: %s emptied", d.id, trunc(x.canon(), 100))
				for x.length() > 0 {
					if x.K == kObj {
						k := x.Keys[r.Intn(len(x.Keys))]
						x.del(k)
						y.MustDelete(k)
					} else {
						j := r.Intn(len(x.A))
						x.A = append(x.A[:j:j], x.A[j+1:]...)
						y.MustDelete(j)
					}
				}
				c.Hit("emptied_then_copied")
			}
			if r.Intn(3) == 0 {
				continue
			}
			fallthrough
		case 1, 2:
			if len(p.docs) < 5 {
				e := &popDoc{t: d.t.clone(), id: len(p.docs)}
				how := ""
				e.v, how = p17Clone(c, d)
				p.docs = append(p.docs, e)
				p.did("document %d is a copy of %d by %s", e.id, d.id, how)
			}
		case 3: // put something new into a container of it
			x, y := p17Node(r, d, 0)
			t := genTree(r, &genCfg{maxDepth: 1, maxKids: 2}, 1)
			if x.K == kObj {
				k := genKey(r, g)
				x.set(k, t)
				y.MustSet(buildV(r, t, 0)).At(k)
				p.did("document %d: %q set", d.id, k)
			} else {
				x.A = append(x.A[:len(x.A):len(x.A)], t)
				y.MustAppend(buildV(r, t, 0)).InTheEnd()
				p.did("document %d: appended", d.id)
			}
			c.Hit("edited_copies")
		default:
			if d.t.isCont() {
				editBoth(c, d.v, d.t, g)
				p.did("document %d edited", d.id)
				c.Hit("edited_copies")
			}
		}
		p.checkAll("after a step")
	}
	for _, d := range p.docs {
		c.Distinct(d.t.canon())
	}
}

// p17Node picks a container inside a document, with its value
func p17Node(r *rand.Rand, d *popDoc, depth int) (*RV, *jv.V) {
	x, y := d.t, d.v
	for r.Intn(3) > 0 {
		var in []any
		for i, m := range x.A {
			if m.isCont() {
				in = append(in, i)
			}
		}
		for _, k := range x.Keys {
			if x.O[k].isCont() {
				in = append(in, k)
			}
		}
		if len(in) == 0 {
			break
		}
		switch k := in[r.Intn(len(in))].(type) {
		case int:
			x = x.A[k]
			y = y.MustGet(k)
		case string:
			x = x.O[k]
			y = y.MustGet(k)
		}
	}
	return x, y
}
