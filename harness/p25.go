package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P25",
		Rule: "random histories of edits, deletions, re-sets, moves of members, reads, sorts, caseless lookups and deletions, failing edits, clones by Import and by marshalling, and parsed children, in lock step with a model that remembers when each key was last set; " +
			"after every step both observers, for every object of the document and of the documents it was cloned from; parsed texts with duplicate keys; large objects; imported structs; non-trivial: distinct documents reached",
		Need: []string{"ok_Set", "ok_Delete", "reset_same", "moved", "reads", "caseless_deletes", "caseless_reads", "import_clones", "text_clones", "parsed_children", "dup_texts", "big_objects", "structs", "embedded", "observed", "aged"},
		Suites: []Suite{
			{Name: "histories", Quick: 80000, Thorough: 800000, Run: p25Histories},
			{Name: "flat", Quick: 48000, Thorough: 800000, Run: p25Flat},
			{Name: "parsed", Quick: 160000, Thorough: 2000000, Run: p25Parsed},
			{Name: "big", Quick: 64, Thorough: 2000, Run: p25Big},
			{Name: "aged", Quick: 32, Thorough: 1000, Run: p25Aged},
			{Name: "imports", Quick: 24000, Thorough: 300000, Run: p25Imports},
			{Name: "life", Quick: 6000, Thorough: 90000, Run: lifeRun(genCfg{nulls: 2}, readSequence)},
		},
	})
}

// seqText renders with the set sequence and compares, in order, with the model
func (h *Hist) seqText() string {
	s, err := h.v.MarshalString(jv.OptSetSequence())
	if err != nil {
		h.fail("marshalling with OptSetSequence: %v", err)
	}
	p := refParse([]byte(s), false)
	if !p.ok {
		h.fail("OptSetSequence gives invalid JSON %s", trunc(s, 500))
	}
	markLoose(h.m)
	if d := diffOut(p.v, h.m, true, "$"); d != "" {
		h.fail("OptSetSequence: %s; output %s", d, trunc(s, 800))
	}
	h.c.Eval(1)
	h.c.Hit("observed")
	return s
}

// objs lists the objects of the document
func (h *Hist) objs(min int) []*RV {
	var out []*RV
	for _, x := range nodes(h.m, nil) {
		if x.K == kObj && len(x.Keys) >= min {
			out = append(out, x)
		}
	}
	return out
}

func flipCase(s string, n int) string {
	switch n {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return s
}

// seqStep does one step which is not an ordinary edit
func (h *Hist) seqStep() {
	r, c := h.c.R, h.c
	log := func(format string, a ...any) {
		h.log = append(h.log, fmt.Sprintf(format, a...))
		c.NoteMore("; %s", h.log[len(h.log)-1])
	}
	c.Eval(1)
	switch r.Intn(9) {
	case 0, 1: // set a member to the node it has
		os := h.objs(1)
		if len(os) == 0 {
			return
		}
		o := os[r.Intn(len(os))]
		k := o.Keys[r.Intn(len(o.Keys))]
		log("member %q set again to its own value", k)
		x := o.O[k]
		if _, err := h.ptr[o].Set(h.ptr[x]).At(k); err != nil {
			h.fail("Set: %v", err)
		}
		o.set(k, x)
		c.Hit("reset_same")
	case 2: // move a member to another key
		os := h.objs(1)
		if len(os) == 0 {
			return
		}
		o := os[r.Intn(len(os))]
		k := o.Keys[r.Intn(len(o.Keys))]
		to := genKey(r, h.g)
		log("member %q moved to %q", k, to)
		x := o.O[k]
		if err := h.ptr[o].Delete(k); err != nil {
			h.fail("Delete: %v", err)
		}
		h.ptr[o].MustSet(h.ptr[x]).At(to)
		o.del(k)
		o.set(to, x)
		c.Hit("moved")
	case 3: // reads of all kinds
		log("reads")
		h.v.RangeObjects(func(k string, v *jv.V) bool { return r.Intn(4) != 0 })
		for range h.v.IterObjects() {
		}
		for range h.v.ForRangeObj() {
		}
		_ = h.v.String()
		_, _ = h.v.Marshal(jv.OptDefaultStringSequence())
		_, _ = h.v.Marshal(jv.OptKeySequence([]string{"b", "a"}), jv.OptOmitNull(true))
		_, _ = h.v.Marshal(jv.OptKeySequenceWithLessFunc(jvLess(revLess)))
		var x any
		_ = h.v.Export(&x)
		_ = h.v.Equal(h.v)
		_, _ = json.Marshal(h.v)
		c.Hit("reads")
	case 4: // caseless
		os := h.objs(1)
		if len(os) == 0 {
			return
		}
		o := os[r.Intn(len(os))]
		k := o.Keys[r.Intn(len(o.Keys))]
		ask := flipCase(k, r.Intn(3))
		hit, n := k, 0
		if _, ok := o.O[ask]; ok {
			hit, n = ask, 1
		} else {
			for _, y := range o.Keys {
				if strings.ToLower(y) == strings.ToLower(ask) {
					hit = y
					n++
				}
			}
		}
		if n != 1 { // which one is taken is not specified
			return
		}
		if r.Intn(2) == 0 {
			log("caseless Get %q", ask)
			v, err := h.ptr[o].Caseless().Get(ask)
			if err != nil || v != h.ptr[o.O[hit]] {
				h.fail("caseless Get gives %v, %v", v, err)
			}
			c.Hit("caseless_reads")
			return
		}
		log("caseless Delete %q", ask)
		if err := h.ptr[o].Caseless().Delete(ask); err != nil {
			h.fail("caseless Delete: %v", err)
		}
		o.del(hit)
		c.Hit("caseless_deletes")
	case 5: // go on with a deep copy, while the old document stays as it is
		if h.m.size() > 150 {
			return
		}
		log("cloned by Import")
		v, err := jv.Import(h.v)
		if err != nil {
			h.fail("Import: %v", err)
		}
		old := h.m
		h.m, h.v = old.clone(), v
		if len(h.det) < 6 && old.isCont() {
			h.det = append(h.det, old)
		}
		c.Hit("import_clones")
	case 6: // go on with what its text parses to
		s := h.seqText()
		if !reparses(h.m) {
			return
		}
		log("cloned by text")
		var v *jv.V
		var err error
		switch r.Intn(3) {
		case 0:
			v, err = jv.UnmarshalString(s)
		case 1:
			v, err = jv.Unmarshal([]byte(s))
		default:
			v, err = jv.UnmarshalNoCopy([]byte(s))
		}
		if err != nil {
			h.fail("parsing %s: %v", trunc(s, 500), err)
		}
		h.m, h.v = refParse([]byte(s), false).v, v
		h.det = nil
		c.Hit("text_clones")
	case 7: // set a parsed child
		os := h.objs(0)
		if len(os) == 0 {
			return
		}
		o := os[r.Intn(len(os))]
		text := render(r, contTree(c, h.g), genStyle(r))
		k := genKey(r, h.g)
		log("member %q set to parsed %s", k, trunc(string(text), 300))
		p := refParse(text, false)
		v := mustParse(c, string(text))
		h.ptr[o].MustSet(v).At(k)
		o.set(k, p.v)
		h.ptr[p.v] = v
		c.Hit("parsed_children")
	default:
		h.sortSome()
	}
}

func p25Run(c *Case, h *Hist, steps int, ops [6]int, odds int) {
	for i := 0; i < steps; i++ {
		if c.R.Intn(odds) == 0 {
			h.seqStep()
		} else {
			h.edit(ops)
		}
		h.verify(true)
		h.seqText()
		c.Distinct(h.m.canonSeq())
		if h.m.size() > 300 {
			h.trim()
		}
	}
	if c.Index < 3 {
		c.Sample("%s; %s", trunc(h.init, 100), trunc(fmt.Sprint(h.log), 400))
	}
}

func p25Histories(c *Case) {
	g := histCfg(c)
	h := newHist(c, g, contTree(c, g), c.R.Intn(3))
	h.bad = []int{0, 3, 10}[c.R.Intn(3)]
	p25Run(c, h, 1+c.R.Intn(24), [6]int{6, 1, 1, 1, 1, 4}, 3)
}

// p25Flat: one object, few keys, long histories
func p25Flat(c *Case) {
	g := &genCfg{maxDepth: 0, maxKids: 2, keys: []string{"a", "b", "c", "d", "e", "f", "g", "A", "B"}[:2+c.R.Intn(8)]}
	h := newHist(c, g, rObj(), c.R.Intn(3))
	h.bad = 2
	p25Run(c, h, 10+c.R.Intn(50), [6]int{6, 0, 0, 0, 0, 3}, 5)
}

// p25Aged: objects with a long history
func p25Aged(c *Case) {
	g := &genCfg{maxDepth: 0, maxKids: 2, keys: []string{"a", "b", "c", "d", "e", "f", "g", "A", "B"}}
	m := rObj()
	for i := c.R.Intn(9); i > 0; i-- {
		m.set(genKey(c.R, g), numOf(i))
	}
	if c.R.Intn(3) == 0 { // larger objects
		for _, k := range keyFamily(c.R, 3+c.R.Intn(40)) {
			m.set(k, numOf(1))
		}
	}
	h := newHist(c, g, m, c.R.Intn(3))
	h.bad = 0
	n := []int{1 << 8, 1 << 15, 1 << 16, 1 << 16, 1 << 16, 3 << 15}[c.R.Intn(6)] - c.R.Intn(20)
	h.age(h.m, n, genKey(c.R, g))
	h.verify(true)
	// and further sets, the order looked at after every one
	ks := append([]string(nil), h.m.Keys...)
	for i := 300 + c.R.Intn(300); i > 0 && len(ks) > 1; i-- {
		k := ks[c.R.Intn(len(ks))]
		h.v.MustSetInt(i).At(k)
		h.m.set(k, numOf(i))
		j := 0
		h.v.RangeObjectsBySetSequence(func(x string, _ *jv.V) bool {
			if j >= len(h.m.Keys) || h.m.Keys[j] != x {
				c.Fail("after setting key %q %d times and some more sets: member %d in set sequence is %q, want %q", k, n, j, x, h.m.Keys)
			}
			j++
			return true
		})
	}
	h.ptr = map[*RV]*jv.V{}
	h.verify(true)
	p25Run(c, h, 40, [6]int{6, 0, 0, 0, 0, 3}, 5)
}

func p25Parsed(c *Case) {
	g := &genCfg{maxDepth: 1 + c.R.Intn(4), maxKids: 1 + c.R.Intn(8), keys: smallKeys}
	if c.R.Intn(2) == 0 {
		g.keys = nil
	}
	text := render(c.R, contTree(c, g), genStyle(c.R))
	p := refParse(text, false)
	c.Note("text %q", text)
	if p.dup {
		c.Hit("dup_texts")
	}
	h := &Hist{c: c, g: g, m: p.v, ptr: map[*RV]*jv.V{}, init: string(c.note)}
	b := append([]byte{}, text...)
	switch c.R.Intn(3) {
	case 0:
		h.v = mustParse(c, string(text))
	case 1:
		v, err := jv.Unmarshal(b)
		if err != nil {
			c.Fail("Unmarshal: %v", err)
		}
		for i := range b {
			b[i] = 'x'
		}
		h.v = v
	default:
		v, err := jv.UnmarshalNoCopy(b)
		if err != nil {
			c.Fail("UnmarshalNoCopy: %v", err)
		}
		h.v = v
	}
	h.verify(true)
	h.seqText()
	c.Distinct(h.m.canonSeq())
}

// p25Big: many keys, set in a shuffled order, with deletions and re-sets
func p25Big(c *Case) {
	r := c.R
	n := 500 + r.Intn(4000)
	if c.Index%4 == 0 {
		n = sizeFor(c, 40000)
	}
	c.Note("%d keys", n)
	m := rObj()
	var v *jv.V
	if r.Intn(2) == 0 {
		v = jv.NewObject()
	} else {
		perm := r.Perm(n)
		var b strings.Builder
		b.WriteByte('{')
		for i, k := range perm {
			if i > 0 {
				b.WriteByte(',')
			}
			fmt.Fprintf(&b, `"k%d":%d`, k, i)
			m.set("k"+strconv.Itoa(k), rNum(strconv.Itoa(i)))
		}
		b.WriteByte('}')
		v = mustParse(c, b.String())
		c.NoteMore(" parsed first")
	}
	// model: the step of the last set
	at := map[string]int{}
	for i, k := range m.Keys {
		at[k] = i - len(m.Keys)
	}
	steps := 2 * n
	order := map[int]string{}
	for i := 0; i < steps; i++ {
		k := "k" + strconv.Itoa(r.Intn(n))
		switch r.Intn(5) {
		case 0:
			_, had := at[k]
			if err := v.Delete(k); (err == nil) != had {
				c.Fail("Delete(%q) at step %d: %v", k, i, err)
			}
			delete(at, k)
		default:
			switch r.Intn(12) {
			case 0:
				v.MustSetNull().At(k)
			case 1:
				v.MustSetString("s").At(k)
			case 2:
				v.MustSetObject().At(k)
			case 3:
				v.MustSetArray().At(k)
			case 4:
				v.MustSetBool(true).At(k)
			default:
				v.MustSetInt(i).At(k)
			}
			at[k] = i
		}
	}
	for k, i := range at {
		order[i] = k
	}
	var want []string
	for i := -n; i < steps; i++ {
		if k, ok := order[i]; ok {
			want = append(want, k)
		}
	}
	check := func(what string, got []string) {
		if len(got) != len(want) {
			c.Fail("%s: %d keys, want %d", what, len(got), len(want))
		}
		for i := range got {
			if got[i] != want[i] {
				c.Fail("%s: key %d is %q, want %q", what, i, got[i], want[i])
			}
		}
		c.Eval(1)
		c.Hit("observed")
	}
	seq := func(v *jv.V) (ks []string) {
		v.RangeObjectsBySetSequence(func(k string, _ *jv.V) bool { ks = append(ks, k); return true })
		return
	}
	check("RangeObjectsBySetSequence", seq(v))
	s, err := v.MarshalString(jv.OptSetSequence())
	if err != nil {
		c.Fail("Marshal: %v", err)
	}
	check("OptSetSequence", refParse([]byte(s), false).v.Keys)
	check("parsed again", seq(mustParse(c, s)))
	w, err := jv.Import(v)
	if err != nil {
		c.Fail("Import: %v", err)
	}
	check("deep copy", seq(w))
	c.Distinct(s)
	c.Hit("big_objects")
}

// p25Imports: an imported struct has its members in encoding/json's order, and goes on from there
func p25Imports(c *Case) {
	r := c.R
	sx := &specCtx{r: r, used: map[string]bool{}, noMap: true, noAny: true, noV: true}
	spec := sx.structSpec(3, true)
	p := reflect.New(spec.typ(true))
	x := &fillCtx{budget: 300}
	fillValue(r, p.Elem(), x, false, 0)
	c.Note("type %s", trunc(spec.typ(true).String(), 2000))
	text, err := json.Marshal(p.Interface())
	if err != nil {
		return
	}
	v, err := jv.Import(p.Interface())
	if err != nil {
		c.Fail("Import: %v; encoding/json gives %s", err, trunc(string(text), 800))
	}
	c.NoteMore(" as %s", trunc(string(text), 2000))
	c.Hit("structs")
	if spec.has(func(s *tSpec) bool {
		for _, f := range s.fields {
			if f.embedded {
				return true
			}
		}
		return false
	}) {
		c.Hit("embedded")
	}
	out, err := v.Marshal(jv.OptSetSequence())
	if err != nil {
		return
	}
	c.Eval(1)
	sameJSON(c, out, text, true, "OptSetSequence of the imported struct")
	c.Distinct(string(out))
	t, ok := snap(v)
	if !ok {
		c.Fail("the import has nodes that are not JSON")
	}
	h := &Hist{c: c, g: &genCfg{maxDepth: 1, maxKids: 2}, v: v, m: t, ptr: map[*RV]*jv.V{}, init: string(c.note)}
	h.verify(true)
	p25Run(c, h, 4, [6]int{6, 1, 0, 0, 0, 4}, 6)
}
