package main

import (
	"encoding/json"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/Andrew-M-C/go.jsonvalue/beta"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	both := []string{"race", "plain"}
	register(&Prop{
		ID: "P18",
		Rule: "mixed workloads of goroutines on documents of their own, each checked by the sequential monitors; goroutines reading one shared document in different orders against results of an equal document read alone; " +
			"option setters against marshalling goroutines with every output matched to one setting and the history checked to be that of an atomic register; in a race detector build and a plain one; " +
			"non-trivial: distinct shared documents and distinct histories of settings",
		Need: []string{"independent_ops", "shared_reads", "wide_shared", "register_reads", "register_writes", "settings_seen", "overlapping_reads", "shared_input", "explicit_over_default", "resets"},
		Suites: []Suite{
			{Name: "independent", Quick: 520, Thorough: 4000, Run: p18Independent, Variants: both},
			{Name: "shared", Quick: 1400, Thorough: 12000, Run: p18Shared, Variants: both},
			{Name: "register", Quick: 520, Thorough: 5000, Run: p18Register, Variants: both},
		},
	})
}

// ---------------------------------------------------------------- separate documents

func p18Independent(c *Case) {
	r := c.R
	n := 2 + r.Intn(7)
	c.Note("%d goroutines on separate documents", n)
	// one input text and one set of options for all of them: these may be shared
	t := genTree(r, &genCfg{maxDepth: 3, maxKids: 5}, 0)
	input := render(r, t, genStyle(r))
	inputS := string(input)
	so := genOpts(r, oAll, allKeys(t))
	seq := append([]string{}, allKeys(t)...)
	steps := 6 + r.Intn(10)
	c.parallel(n, func(c *Case, g int) {
		r := c.R
		for i := 0; i < steps; i++ {
			switch r.Intn(9) {
			case 0, 1:
				x := genTree(r, &genCfg{maxDepth: 3, maxKids: 5}, 0)
				v, what := p17Parse(c, x)
				if d := diffV(v, x); d != "" {
					c.Fail("%s with others at work: %s", what, d)
				}
				checkMarshal(c, v, x, genOpts(r, oAll, allKeys(x)), true)
			case 2:
				// the same input bytes and options
				v, err := jv.Unmarshal(input)
				if err != nil {
					c.Fail("parsing a shared input: %v", err)
				}
				if r.Intn(2) == 0 {
					v, err = jv.UnmarshalString(inputS)
				}
				if err != nil || diffV(v, t) != "" {
					c.Fail("parsing a shared input: %v %s", err, diffV(v, t))
				}
				checkMarshal(c, v, t, so, true)
				_, _ = v.Marshal(jv.OptKeySequence(seq))
				c.Hit("shared_input")
			case 3, 4:
				x := genDoc(r, &genCfg{maxDepth: 3, maxKids: 4})
				v := buildV(r, x, r.Intn(3))
				for k := 0; k < 4; k++ {
					editBoth(c, v, x, &genCfg{maxDepth: 2, maxKids: 3})
				}
				if d := diffV(v, x); d != "" {
					c.Fail("editing with others at work: %s", d)
				}
			case 5:
				sx := &specCtx{r: r, used: map[string]bool{}}
				spec := sx.structSpec(2, true)
				f := &fillCtx{nilOK: true, budget: 100}
				p := newValue(spec)
				fillValue(r, p.Elem(), f, false, 0)
				p15Check(c, p.Interface(), "importing with others at work")
			case 6:
				x := genTree(r, &genCfg{maxDepth: 3, maxKids: 4}, 0)
				v := buildV(r, x, r.Intn(3))
				d := &popDoc{v: v, t: x}
				p17Read(c, d, d)
				if d := diffV(v, x); d != "" {
					c.Fail("reading with others at work: %s", d)
				}
			case 7:
				bad := mutate(r, append([]byte{}, input...))
				ref := refParse(bad, false)
				v, err := jv.Unmarshal(bad)
				if ref.ok && err == nil && !ref.dup && !ref.lone {
					if d := diffV(v, ref.v); d != "" {
						c.Fail("parsing with others at work: %s", d)
					}
				}
			default:
				x := genTree(r, &genCfg{maxDepth: 2, maxKids: 3}, 0)
				v := buildV(r, x, 0)
				w, err := jv.Import(v)
				if err != nil || !w.Equal(v) {
					c.Fail("copying with others at work: %v", err)
				}
			}
			c.Hit("independent_ops")
		}
	})
	c.Distinct(string(input))
}

// ---------------------------------------------------------------- one shared document, only read

// readOp is a reading operation whose result is a text that does not depend on map order
type readOp struct {
	name string
	f    func(v *jv.V) string
}

func canonOut(b []byte, err error, ordered bool) string {
	if err != nil {
		return "error" // which value is met first depends on map order
	}
	x := refParse(b, false)
	if !x.ok {
		return "invalid " + string(b)
	}
	if ordered {
		return string(b)
	}
	return x.v.canon()
}

func readOps(c *Case, t *RV, other *jv.V) []readOp {
	r := c.R
	var ops []readOp
	add := func(name string, f func(v *jv.V) string) { ops = append(ops, readOp{name, f}) }
	for i := 0; i < 4; i++ {
		o := genOpts(r, oAll, allKeys(t))
		add("Marshal "+o.desc, func(v *jv.V) string {
			b, err := v.Marshal(o.opts...)
			return canonOut(b, err, o.order != 0)
		})
	}
	add("Marshal", func(v *jv.V) string { b, err := v.Marshal(); return canonOut(b, err, false) })
	add("Marshal by set sequence", func(v *jv.V) string { b, err := v.Marshal(jv.OptSetSequence()); return canonOut(b, err, true) })
	add("MarshalJSON", func(v *jv.V) string { b, err := json.Marshal(v); return canonOut(b, err, false) })
	add("String", func(v *jv.V) string {
		if v.IsString() {
			return v.String()
		}
		return fmt.Sprint(len(v.String()))
	})
	add("Export", func(v *jv.V) string {
		var x any
		err := v.Export(&x)
		b, _ := json.Marshal(x)
		return canonOut(b, err, false)
	})
	add("Import", func(v *jv.V) string {
		w, err := jv.Import(v)
		if err != nil {
			return err.Error()
		}
		w.MustSet(1).At("edited") // the copy is our own
		w.MustAppend(1).InTheEnd()
		if v.IsObject() {
			w.MustDelete("edited")
		}
		if v.IsArray() {
			w.MustDelete(-1)
		}
		return fmt.Sprint(w.Equal(v), v.Equal(w))
	})
	add("Equal", func(v *jv.V) string { return fmt.Sprint(v.Equal(other), other.Equal(v), v.Equal(v)) })
	add("compare", func(v *jv.V) string {
		return fmt.Sprint(v.GreaterThan(other), v.LessThan(other), v.GreaterThanOrEqual(v), v.LessThanOrEqual(other))
	})
	add("Contains", func(v *jv.V) string { return fmt.Sprint(beta.Contains(v, other), beta.Contains(v, v)) })
	add("types", func(v *jv.V) string {
		return fmt.Sprint(v.ValueType(), v.Len(), v.IsObject(), v.IsArray(), v.IsNumber(), v.IsFloat(), v.IsInteger(), v.IsNegative(), v.IsPositive(), v.GreaterThanInt64Max(), v.IsNull())
	})
	add("walk", func(v *jv.V) string {
		x, ok := snap(v)
		if !ok {
			return "not a value"
		}
		return x.canonSeq()
	})
	add("iterators", func(v *jv.V) string {
		var l []string
		for x := range v.IterObjects() {
			l = append(l, fmt.Sprintf("%q %s", x.K, x.V.ValueType()))
		}
		for k := range v.ForRangeObj() {
			l = append(l, k)
		}
		sort.Strings(l)
		for x := range v.IterArray() {
			l = append(l, fmt.Sprint(x.I, x.V.ValueType()))
		}
		return strings.Join(l, ",") + fmt.Sprint(len(v.ForRangeArr()))
	})
	// every scalar, by every getter
	h := &Hist{c: c, g: &genCfg{}, m: t, bad: 30}
	for i := 0; i < 6; i++ {
		if !t.isCont() {
			break
		}
		ps := h.path(t, 4)
		if len(ps) == 0 {
			continue
		}
		first, rest, _ := spell(newRand(1), ps)
		add("Get "+paramsString(ps), func(v *jv.V) string {
			x, err := v.Get(first, rest...)
			if err != nil {
				return "error " + err.Error()
			}
			s, e1 := v.GetString(first, rest...)
			n, e2 := v.GetInt64(first, rest...)
			f, e3 := v.GetFloat64(first, rest...)
			b, e4 := v.GetBool(first, rest...)
			y, e5 := v.GetBytes(first, rest...)
			_, e6 := v.GetObject(first, rest...)
			_, e7 := v.GetArray(first, rest...)
			e8 := v.GetNull(first, rest...)
			return fmt.Sprint(x.ValueType(), s, e1, n, e2, math.Float64bits(f), e3, b, e4, y, e5, e6, e7, e8, x.Int(), x.Uint64(), x.Int32(), math.Float32bits(x.Float32()))
		})
	}
	return ops
}

func p18Shared(c *Case) {
	r := c.R
	t := genDoc(r, &genCfg{maxDepth: 3, maxKids: 6, nonFinite: r.Intn(4) == 0})
	switch r.Intn(8) {
	case 0:
		t = genWide(r, &genCfg{maxDepth: 2, maxKids: 4}, 0)
		c.Hit("wide_shared")
	case 1:
		if r.Intn(3) == 0 {
			t = rObj()
			for _, k := range keyFamily(r, 250+r.Intn(300)) {
				t.set(k, numOf(r.Intn(9)))
			}
			c.Hit("wide_shared")
		}
	}
	how := r.Intn(3)
	if hasNonFinite(t) {
		how = 0
	}
	t0 := t.clone()
	past := prehistory(c, t)
	seed := r.Int63()
	// two documents made in the same way: one is read alone, the other by all at once and by no one before that
	mk := func() *jv.V {
		v := buildV(newRand(seed), t0.clone(), how)
		if seed%3 == 0 && how == 1 {
			v, _ = jv.UnmarshalNoCopy([]byte(renderPlain(t0)))
		}
		for _, f := range past {
			f(v)
		}
		return v
	}
	alone, shared := mk(), mk()
	ot := t.clone()
	other, otherAlone := buildV(r, ot, 0), buildV(r, ot, 0)
	if r.Intn(2) == 0 {
		o := genTree(r, &genCfg{maxDepth: 2, maxKids: 4}, 0)
		other, otherAlone = buildV(newRand(seed), o, 0), buildV(newRand(seed), o, 0)
	}
	opSeed := r.Int63()
	mkOps := func(o *jv.V) []readOp {
		old := c.R
		c.R = newRand(opSeed)
		defer func() { c.R = old }()
		return readOps(c, t, o)
	}
	opsAlone, ops := mkOps(otherAlone), mkOps(other)
	want := make([]string, len(ops))
	for i, o := range opsAlone {
		want[i] = o.f(alone)
	}
	n := 2 + r.Intn(7)
	c.Note("%d goroutines reading %s", n, trunc(t.canon(), 1500))
	rounds := 1 + r.Intn(3)
	c.parallel(n, func(c *Case, g int) {
		for k := 0; k < rounds; k++ {
			for _, i := range c.R.Perm(len(ops)) {
				if got := ops[i].f(shared); got != want[i] {
					c.Fail("%s gives %s, alone it gives %s", ops[i].name, trunc(got, 600), trunc(want[i], 600))
				}
				c.Eval(1)
				if c.R.Intn(20) == 0 {
					runtime.Gosched()
				}
			}
			c.HitN("shared_reads", len(ops))
		}
	})
	if d := diffV(shared, t); d != "" {
		c.Fail("reading from several goroutines changes the document: %s", d)
	}
	c.Distinct(t.canon(), n)
}

// prehistory makes edits (and some reads) for documents to go through before they are shared, and does them to t.
// Whatever a read would tidy up afterwards is there to be tidied up.
func prehistory(c *Case, t *RV) (past []func(v *jv.V)) {
	r := c.R
	if !t.isCont() || r.Intn(3) == 0 {
		return nil
	}
	c.Hit("shared_with_a_past")
	type place struct {
		t    *RV
		path []any
	}
	at := func(v *jv.V, p []any) *jv.V {
		if len(p) == 0 {
			return v
		}
		x, err := v.Get(p[0], p[1:]...)
		if err != nil {
			c.Fail("Get%v before sharing: %v", p, err)
		}
		return x
	}
	ok := func(err error) {
		if err != nil {
			c.Fail("an edit before sharing: %v", err)
		}
	}
	for k := 1 + r.Intn(5); k > 0; k-- {
		var ps []place
		var walk func(x *RV, p []any)
		walk = func(x *RV, p []any) {
			if !x.isCont() {
				return
			}
			ps = append(ps, place{x, p})
			for i, y := range x.A {
				walk(y, append(p[:len(p):len(p)], i))
			}
			for _, k := range x.Keys {
				walk(x.O[k], append(p[:len(p):len(p)], k))
			}
		}
		walk(t, nil)
		p := ps[r.Intn(len(ps))]
		if r.Intn(3) == 0 {
			p = ps[0]
		}
		x, path := p.t, p.path
		do := func(f func(v *jv.V)) { past = append(past, func(v *jv.V) { f(at(v, path)) }) }
		n := 1
		if r.Intn(3) == 0 {
			n = []int{10, 70, 130, 300}[r.Intn(4)]
		}
		if x.K == kArr {
			for ; n > 0; n-- {
				le := len(x.A)
				m := genScalar(r, &genCfg{})
				switch {
				case le > 0 && r.Intn(2) == 0:
					i := r.Intn(le)
					do(func(v *jv.V) { ok(v.Delete(i)) })
					x.A = append(x.A[:i:i], x.A[i+1:]...)
				case le > 0 && r.Intn(2) == 0:
					i := r.Intn(le)
					do(func(v *jv.V) { _, err := v.Insert(buildV(newRand(1), m, 0)).Before(i); ok(err) })
					x.A = append(x.A[:i:i], append([]*RV{m}, x.A[i:]...)...)
				default:
					do(func(v *jv.V) { _, err := v.Append(buildV(newRand(1), m, 0)).InTheEnd(); ok(err) })
					x.A = append(x.A, m)
				}
			}
			continue
		}
		keys := append([]string(nil), x.Keys...)
		if len(keys) == 0 || r.Intn(4) == 0 {
			keys = append(keys, "past1", "past2", "PAST1")
		}
		one := keys[r.Intn(len(keys))]
		mode := r.Intn(3)
		for ; n > 0; n-- {
			k := one
			if mode == 0 {
				k = keys[r.Intn(len(keys))]
			}
			if x.O[k] != nil && r.Intn(4) == 0 {
				do(func(v *jv.V) { ok(v.Delete(k)) })
				x.del(k)
				if mode == 1 && n < 3 {
					continue
				}
			}
			if r.Intn(40) == 0 {
				form := r.Intn(4)
				do(func(v *jv.V) {
					switch form {
					case 0:
						_, _ = v.Caseless().Get(strings.ToUpper(k))
					case 1:
						_, _ = v.Marshal(jv.OptSetSequence())
					case 2:
						v.RangeObjectsBySetSequence(func(string, *jv.V) bool { return true })
					default:
						_, _ = v.Marshal(jv.OptDefaultStringSequence())
					}
				})
			}
			m := genScalar(r, &genCfg{})
			do(func(v *jv.V) { _, err := v.Set(buildV(newRand(1), m, 0)).At(k); ok(err) })
			x.set(k, m)
		}
	}
	return past
}

// ---------------------------------------------------------------- default options as a register

type regOp struct {
	write  bool
	id     int
	s, e   int64
	custom bool
}

func p18Register(c *Case) {
	r := c.R
	defer jv.ResetDefaultMarshalOptions()
	jv.ResetDefaultMarshalOptions()
	v := jv.NewObject()
	v.MustSet(math.NaN()).At("nan")
	v.MustSet(math.Inf(1)).At("inf")
	v.MustSet(math.Inf(-1)).At("ninf")
	v.MustSetNull().At("null")
	v.MustSetString("<é/").At("html")
	v.MustSet([]int{1, 2}).At("arr")
	keys := []string{"nan", "inf", "ninf", "null", "html", "arr"}
	resets := r.Intn(3) == 0
	writers, readers, per := 1+r.Intn(4), 1+r.Intn(5), 5+r.Intn(30)
	mk := func(id int) []jv.Option {
		seq := append([]string{}, keys...)
		for i := range seq {
			j := (i + id) % len(seq)
			seq[i], seq[j] = seq[j], seq[i]
		}
		opts := []jv.Option{
			jv.OptIndent("", strings.Repeat(" ", id%5+1)), jv.OptFloatNaNToString(fmt.Sprintf("n%d", id)),
			jv.OptFloatInfToString(fmt.Sprintf("p%d", id), fmt.Sprintf("m%d", id)), jv.OptKeySequence(seq),
			jv.OptOmitNull(id&1 != 0), jv.OptEscapeHTML(id&2 != 0), jv.OptEscapeSlash(id&4 != 0),
		}
		if id&8 != 0 {
			opts = append(opts, jv.OptUTF8())
		}
		return opts
	}
	total := writers*per + 1
	setting := make([][]jv.Option, total)
	plain := map[string]int{}
	custom := map[string]int{} // with explicit options on top
	extra := []jv.Option{jv.OptFloatNaNToString("explicit"), jv.OptIndent("", "\t")}
	for id := range setting {
		setting[id] = mk(id)
		plain[v.MustMarshalString(setting[id]...)] = id
		// the explicit setting loses the identity of NaN and indent, not that of Inf
		custom[v.MustMarshalString(append(append([]jv.Option{}, setting[id]...), extra...)...)] = id
	}
	if len(plain) != total || len(custom) != total {
		c.Fail("harness: settings are not distinguishable")
	}
	jv.SetDefaultMarshalOptions(setting[0]...)
	v.MustMarshal()
	base := time.Now()
	now := func() int64 { return int64(time.Since(base)) } // no synchronisation of its own
	logs := make([][]regOp, writers+readers)
	var spin = make([]int, writers+readers)
	for i := range spin {
		spin[i] = r.Intn(3)
	}
	c.Note("%d writers of %d settings, %d readers, resets %v", writers, per, readers, resets)
	c.parallel(writers+readers, func(c *Case, g int) {
		r := c.R
		var log []regOp
		if g < writers {
			for i := 0; i < per; i++ {
				o := regOp{write: true, id: 1 + g*per + i}
				if resets && r.Intn(4) == 0 {
					o.id = -1
					o.s = now()
					jv.ResetDefaultMarshalOptions()
					o.e = now()
					log = append(log, o)
					continue
				}
				o.s = now()
				jv.SetDefaultMarshalOptions(setting[o.id]...)
				o.e = now()
				log = append(log, o)
				for k := r.Intn(4); k > 0 && spin[g] > 0; k-- {
					runtime.Gosched()
				}
			}
		} else {
			for i := 0; i < per*writers; i++ {
				o := regOp{}
				var out string
				var err error
				m := plain
				o.s = now()
				switch r.Intn(4) {
				case 0:
					var b []byte
					b, err = v.Marshal()
					out = string(b)
				case 1:
					var b []byte
					b, err = v.MarshalJSON()
					out = string(b)
				case 2:
					out, err = v.MarshalString(extra...)
					m, o.custom = custom, true
				default:
					out, err = v.MarshalString()
				}
				o.e = now()
				id, ok := m[out]
				switch {
				case ok:
					o.id = id
				case resets && (err != nil):
					o.id = -1 // the built-in options refuse NaN and infinities
				default:
					c.Fail("output under no complete setting: %v %s", err, trunc(out, 800))
				}
				log = append(log, o)
				if spin[g] > 1 {
					runtime.Gosched()
				}
			}
		}
		logs[g] = log
	})
	var all []regOp
	for _, l := range logs {
		all = append(all, l...)
	}
	checkRegister(c, all)
	c.Eval(len(all))
}

// checkRegister decides whether the operations are those of an atomic register, which initially holds setting 0.
// With unique writes this is exact (Gibbons and Korach's zones); resets write a value that is not unique, so with
// them each read is only required to have a write it can come from.
func checkRegister(c *Case, ops []regOp) {
	type cluster struct {
		ws, we   int64
		minEnd   int64
		maxStart int64
		reads    int
	}
	cl := map[int]*cluster{0: {ws: -1, we: -1, minEnd: -1, maxStart: -1}}
	var writes []regOp
	writes = append(writes, regOp{write: true, id: 0, s: -1, e: -1})
	hasReset := false
	for _, o := range ops {
		if o.write {
			c.Hit("register_writes")
			if o.id < 0 {
				hasReset = true
				c.Hit("resets")
				writes = append(writes, o)
				continue
			}
			cl[o.id] = &cluster{ws: o.s, we: o.e, minEnd: o.e, maxStart: o.s}
			writes = append(writes, o)
		}
	}
	seen := map[int]bool{}
	var sig []string
	for _, o := range ops {
		if o.write {
			continue
		}
		c.Hit("register_reads")
		if o.custom {
			c.Hit("explicit_over_default")
		}
		if !seen[o.id] {
			seen[o.id] = true
			c.Hit("settings_seen")
			sig = append(sig, fmt.Sprint(o.id))
		}
		// some write of that value is not surely overwritten before the read, nor after it
		ok, overlap := false, false
		for _, w := range writes {
			if w.s < o.e && w.e > o.s {
				overlap = true
			}
			if w.id != o.id || w.s > o.e {
				continue
			}
			over := false
			for _, x := range writes {
				if x.s > w.e && x.e < o.s {
					over = true
					break
				}
			}
			if !over {
				ok = true
			}
		}
		if overlap {
			c.Hit("overlapping_reads")
		}
		if !ok {
			c.Fail("a marshal call from %d to %d ns saw setting %d, which was not current at any time during the call", o.s, o.e, o.id)
		}
		if x := cl[o.id]; x != nil && o.id >= 0 {
			x.reads++
			if o.e < x.minEnd {
				x.minEnd = o.e
			}
			if o.s > x.maxStart {
				x.maxStart = o.s
			}
		}
	}
	c.Distinct(strings.Join(sig, ","))
	if hasReset {
		return
	}
	var fw, bw [][3]int64
	for id, x := range cl {
		if x.minEnd < x.maxStart {
			fw = append(fw, [3]int64{x.minEnd, x.maxStart, int64(id)})
		} else {
			bw = append(bw, [3]int64{x.maxStart, x.minEnd, int64(id)})
		}
	}
	for i, a := range fw {
		for _, b := range fw[i+1:] {
			lo, hi := a[0], a[1]
			if b[0] > lo {
				lo = b[0]
			}
			if b[1] < hi {
				hi = b[1]
			}
			if lo < hi {
				c.Fail("settings %d and %d were both surely current between %d and %d ns", a[2], b[2], lo, hi)
			}
		}
		for _, b := range bw {
			if a[0] < b[0] && b[1] < a[1] {
				c.Fail("setting %d was made and done with while setting %d was surely current", b[2], a[2])
			}
		}
	}
}
