package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"unsafe"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

// Memory safety. What decides here is a fault, a checkptr or AddressSanitizer report, or contents that change
// between two looks; what a value should have been is left to the other properties.

func init() {
	register(&Prop{
		ID: "P20",
		Rule: "texts, strings, keys and option texts placed in read-only memory directly before or after an inaccessible page, made inaccessible after copying entry points return, so that any byte read or written outside, any write into caller's " +
			"strings and any use after return faults; the workloads of the other properties in builds with checkptr and AddressSanitizer and in a build that moves the stack at every call and whose collector clobbers freed memory, " +
			"with everything ever returned looked at twice; non-trivial: distinct guarded inputs",
		Need: []string{"guarded_inputs", "revoked_inputs", "at_page_end", "at_page_start", "guarded_strings", "guarded_keys", "guarded_options", "rejected_inputs", "no_copy", "gc_cycles", "looked_twice", "stack_moves_build",
			"clobbered_build", "checkptr_build", "asan_build", "workload_P02", "workload_P09", "workload_P15", "workload_P17"},
		Suites: []Suite{
			{Name: "guard", Quick: 160000, Thorough: 10000000, Run: p20Guard, Variants: []string{"plain", "checkptr"}},
			{Name: "strings", Quick: 60000, Thorough: 4000000, Run: p20Strings, Variants: []string{"plain", "checkptr"}},
			{Name: "words", Quick: 60000, Thorough: 2000000, Run: p20Words, Variants: []string{"plain"}},
			{Name: "workloads", Quick: 20000, Thorough: 800000, Run: p20Workloads, Variants: []string{"checkptr", "asan"}},
			{Name: "collector", Quick: 1600, Thorough: 60000, Run: p20Collector, Variants: []string{"gc", "asan"}},
		},
	})
}

// ---------------------------------------------------------------- guarded memory

const arenaPages = 32

// arena is memory between two inaccessible pages
type arena struct {
	all   []byte // with both guard pages
	page  int
	mid   []byte
	first int // protected pages of the last placement
	npg   int
}

func newArena() *arena {
	pg := syscall.Getpagesize()
	b, err := syscall.Mmap(-1, 0, (arenaPages+2)*pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		fatalf("mmap: %v", err)
	}
	a := &arena{all: b, page: pg, mid: b[pg : len(b)-pg]}
	if syscall.Mprotect(b[:pg], syscall.PROT_NONE) != nil || syscall.Mprotect(b[len(b)-pg:], syscall.PROT_NONE) != nil {
		fatalf("mprotect")
	}
	return a
}

var arenas []*arena // for the goroutine that runs the cases

func getArena(i int) *arena {
	for len(arenas) <= i {
		arenas = append(arenas, newArena())
	}
	return arenas[i]
}

func (a *arena) protect(prot int) {
	if a.npg == 0 {
		return
	}
	if err := syscall.Mprotect(a.mid[a.first*a.page:(a.first+a.npg)*a.page], prot); err != nil {
		fatalf("mprotect: %v", err)
	}
}

// spared is place with spare capacity that is none: behind the end of the text lies the guard page, or memory that
// holds a pattern
func (a *arena) spared(text []byte, end bool) []byte {
	b := a.place(text, end)
	n := len(b)
	if n == 0 {
		return b
	}
	more := 1 + n%64
	if !end {
		tail := a.mid[n:min(n+more, (n+a.page-1)/a.page*a.page)]
		for i := range tail {
			tail[i] = 0xA5
		}
		more = len(tail)
	}
	return unsafe.Slice(&b[0], n+more)[:n]
}

// spareIntact tells whether the pattern behind b is as spared left it
func (a *arena) spareIntact(b []byte, end bool) bool {
	if end || len(b) == 0 {
		return true
	}
	for _, x := range b[len(b):cap(b)] {
		if x != 0xA5 {
			return false
		}
	}
	return true
}

// place puts text against a guard page; the result has no spare capacity
func (a *arena) place(text []byte, end bool) []byte {
	if len(text) > len(a.mid) {
		text = text[:len(a.mid)]
	}
	a.protect(syscall.PROT_READ | syscall.PROT_WRITE)
	n := len(text)
	off := 0
	if end {
		off = len(a.mid) - n
	}
	b := a.mid[off : off+n : off+n]
	copy(b, text)
	a.npg = (n + a.page - 1) / a.page
	if a.npg == 0 {
		a.npg = 1
	}
	a.first = 0
	if end {
		a.first = arenaPages - a.npg
	}
	return b
}

func (a *arena) readonly() { a.protect(syscall.PROT_READ) }
func (a *arena) revoke()   { a.protect(syscall.PROT_NONE) }
func (a *arena) release() {
	a.protect(syscall.PROT_READ | syscall.PROT_WRITE)
	a.npg = 0
}

func asString(b []byte) string {
	if len(b) == 0 {
		return ""
	}
	return unsafe.String(&b[0], len(b))
}

func (a *arena) owns(addr uintptr) bool {
	lo := uintptr(unsafe.Pointer(&a.all[0]))
	return addr >= lo && addr < lo+uintptr(len(a.all))
}

// memSafe runs f; only a memory fault beyond the first page fails the case. What a monitor of another property says,
// and panics that the Go runtime raises in an orderly way, are left to the checks of those properties.
func memSafe(c *Case, what string, f func()) {
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if x, ok := r.(caseFail); ok {
			if strings.HasPrefix(x.msg, memPrefix) {
				panic(r)
			}
			c.Hit("left_to_other_checks")
			return
		}
		if e, ok := r.(interface{ Addr() uintptr }); ok {
			where := fmt.Sprintf("address %#x", e.Addr())
			for _, a := range arenas {
				if a.owns(e.Addr()) {
					off := int(e.Addr() - uintptr(unsafe.Pointer(&a.all[0])))
					where = fmt.Sprintf("offset %d of the guarded memory (data in %d to %d, page size %d)", off, a.page+a.first*a.page, a.page+(a.first+a.npg)*a.page, a.page)
				}
			}
			stack := debug.Stack()
			c.Fail("%s%s: invalid memory access at %s\n%s", memPrefix, what, where, trunc(string(stack), 4000))
		}
		c.Hit("panics_left_to_other_checks")
	}()
	f()
}

const memPrefix = "memory: "

// look reads everything there is to read in a document
func look(v *jv.V) string {
	var b strings.Builder
	lookTo(&b, v, 0)
	return b.String()
}

func lookTo(b *strings.Builder, v *jv.V, depth int) {
	if v == nil {
		b.WriteString("nil")
		return
	}
	fmt.Fprintf(b, "%d:", v.ValueType())
	switch v.ValueType() {
	case jv.String:
		b.WriteString(v.String())
		b.WriteByte(0xFF)
	case jv.Number:
		b.WriteString(v.String())
		fmt.Fprint(b, v.Int64(), v.Float64())
	case jv.Boolean:
		fmt.Fprint(b, v.Bool())
	case jv.Array:
		for _, x := range v.ForRangeArr() {
			lookTo(b, x, depth+1)
		}
	case jv.Object:
		v.RangeObjectsBySetSequence(func(k string, x *jv.V) bool {
			b.WriteString(k)
			b.WriteByte(0xFE)
			lookTo(b, x, depth+1)
			return true
		})
	}
}

// twice looks at the same things again after other work
func twice(c *Case, what string, first, second string) {
	c.Hit("looked_twice")
	if first != second {
		i := 0
		for i < len(first) && i < len(second) && first[i] == second[i] {
			i++
		}
		lo := i - 20
		if lo < 0 {
			lo = 0
		}
		c.Fail("%s%s changed by itself: at %d, %q is now %q", memPrefix, what, i, trunc(first[lo:], 200), trunc(second[minInt(lo, len(second)):], 200))
	}
}

func (c *Case) variantHit() {
	switch c.W.variant {
	case "gc":
		c.Hit("stack_moves_build")
		c.Hit("clobbered_build")
	case "checkptr":
		c.Hit("checkptr_build")
	case "asan":
		c.Hit("asan_build")
	}
}

// ---------------------------------------------------------------- guarded inputs

func p20Text(c *Case) []byte {
	r := c.R
	g := &genCfg{maxDepth: 1 + r.Intn(3), maxKids: 1 + r.Intn(5)}
	t := genTree(r, g, 0)
	st := genStyle(r)
	if r.Intn(2) == 0 {
		st.ws = 0 // so that the last token ends at the guard page
	}
	text := render(r, t, st)
	switch r.Intn(6) {
	case 0:
		text = mutate(r, text)
	case 1:
		text = mutate(r, mutate(r, text))
	case 2, 3: // truncated
		text = text[:r.Intn(len(text)+1)]
	}
	return text
}

func p20Guard(c *Case) {
	c.variantHit()
	text := p20Text(c)
	p20One(c, text, c.R.Intn(9), c.R.Intn(3) != 0)
	c.Distinct(text)
	if c.Index < 8 {
		c.Sample("%s", trunc(string(text), 200))
	}
}

var p20Entries = []string{"Unmarshal", "MustUnmarshal", "UnmarshalString", "MustUnmarshalString", "UnmarshalJSON", "UnmarshalBinary", "UnmarshalNoCopy", "MustUnmarshalNoCopy", "Import(json.RawMessage)"}

// p20One parses a guarded text through one entry point and uses the result after the text is gone
func p20One(c *Case, text []byte, entry int, end bool) {
	a := getArena(0)
	b := a.place(text, end)
	spare := c.R.Intn(2) == 0 && c.W.variant != "asan"
	if spare {
		b = a.spared(text, end)
		c.Hit("spare_capacity")
	}
	defer a.release()
	name := p20Entries[entry]
	c.Note("%s of %q, at the end of a page: %v", name, trunc(string(text), 3000), end)
	var v *jv.V
	var err error
	memSafe(c, name, func() {
		noCopy := entry == 6 || entry == 7
		if !noCopy {
			a.readonly()
		}
		switch entry {
		case 0:
			v, err = jv.Unmarshal(b)
		case 1:
			v = jv.MustUnmarshal(b)
		case 2:
			v, err = jv.UnmarshalString(asString(b))
		case 3:
			v = jv.MustUnmarshalString(asString(b))
		case 4:
			v = &jv.V{}
			err = v.UnmarshalJSON(b)
		case 5:
			v = &jv.V{}
			err = v.UnmarshalBinary(b)
		case 6:
			v, err = jv.UnmarshalNoCopy(b)
		case 7:
			v = jv.MustUnmarshalNoCopy(b)
		default:
			v, err = jv.Import(json.RawMessage(b))
		}
		c.Hit("guarded_inputs")
		if spare && !a.spareIntact(b, end) && noCopy {
			c.Fail("%s%s writes behind the end of its input", memPrefix, name)
		}
		if noCopy {
			c.Hit("no_copy")
			a.readonly() // the document may look at it, not change it any more
		} else {
			a.revoke()
			c.Hit("revoked_inputs")
		}
		if end {
			c.Hit("at_page_end")
		} else {
			c.Hit("at_page_start")
		}
		if err != nil {
			c.Hit("rejected_inputs")
			_ = err.Error()
		}
	})
	memSafe(c, "use of the result of "+name, func() {
		first := look(v)
		p20Use(c, v)
		twice(c, "the result of "+name, first, look(v))
	})
	c.Eval(1)
}

// p20Use does a bit of everything with a document, leaving it as it is
func p20Use(c *Case, v *jv.V) {
	if v == nil {
		return
	}
	r := c.R
	o := genOpts(r, oEsc|oIndent|oOrder, nil)
	out, err := v.Marshal(o.opts...)
	if err == nil {
		w, err := jv.Unmarshal(out)
		if err == nil {
			_ = v.Equal(w)
			_ = v.GreaterThan(w)
			_ = beta.Contains(v, w)
		}
	}
	_, _ = v.Get("a")
	_, _ = v.Get(0)
	_, _ = v.Caseless().Get("A")
	_ = v.Int()
	_ = v.Uint64()
	_ = v.Float32()
	_ = v.Bytes()
	_ = v.IsFloat() || v.GreaterThanInt64Max()
	_, _ = v.GetInt64(0)
	_, _ = v.GetFloat64(0)
	var x any
	_ = v.Export(&x)
	_, _ = jv.Import(x)
}

// p20Words drives every short word over hostile alphabets, right at the page end
func p20Words(c *Case) {
	toks := []string{"{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "d83d", "0", "-", ".", "e", "1", "t", "true", "fals", "nul", "\xe2", "\xf0\x9f", " ", "\"a\""}
	w := nthWord(c.Index, toks)
	if c.R.Intn(3) == 0 {
		w = append([]byte(`["`), w...)
	}
	for _, entry := range []int{0, 6, 2}[:1+c.R.Intn(3)] {
		p20One(c, w, entry, true)
	}
	c.Distinct(w)
}

// ---------------------------------------------------------------- guarded strings

func p20Strings(c *Case) {
	c.variantHit()
	r := c.R
	s := genString(r)
	if r.Intn(2) == 0 {
		s = genBadString(r)
	}
	if r.Intn(3) == 0 {
		s += []string{"\xc3", "\xe2\x80", "\xf0\x9f\x98", "\xf0", "\xed\xa0\x80", "\\", "\"", "é", "\u2028", "\U0001F600"}[r.Intn(10)]
	}
	if r.Intn(4) == 0 {
		s = genNumText(r)
	}
	if r.Intn(5) == 0 { // a long one of letters in either case, alone or with something else in it
		n := []int{16, 24, 32, 33, 48, 64, 65, 100, 128, 256, 300}[r.Intn(11)] + r.Intn(3) - 1
		l := make([]byte, n)
		for i := range l {
			l[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[r.Intn(64)]
		}
		s = string(l)
		if r.Intn(4) == 0 {
			s = s[:n/2] + []string{"É", "İ", "K", "\xc3", "\x00", "\u2028", "\"", "/", "."}[r.Intn(9)] + s[n/2:]
		}
	}
	a := getArena(0)
	end := r.Intn(4) != 0
	b := a.place([]byte(s), end)
	defer a.release()
	g := asString(b)
	c.Note("string %q, at the end of a page: %v", s, end)
	memSafe(c, "use of a guarded string", func() {
		a.readonly()
		o := genOpts(r, oEsc|oIndent, nil)
		v := jv.NewObject()
		v.MustSet(g).At("v")
		v.MustSetString(g).At(g)
		v.MustAppendString(g).InTheEnd("arr")
		first := look(v)
		out, _ := v.Marshal(o.opts...)
		_, _ = v.Marshal(append(o.opts, jv.OptSetSequence())...)
		_, _ = jv.Unmarshal(out)
		x := v.MustGet("v")
		_, _, _, _, _ = x.Int(), x.Uint64(), x.Float64(), x.Bool(), x.Bytes()
		_, _ = v.GetInt("v")
		_, _ = v.GetBytes("v")
		_, _ = v.GetFloat32("v")
		c.Hit("guarded_strings")
		// as keys
		_, _ = v.Get(g)
		_, _ = v.Get(g, g)
		_, _ = v.GetString(g)
		_, _ = v.Caseless().Get(g)
		_ = v.Caseless().Delete(g + "x")
		_ = v.Delete("arr", g)
		// where it is there only in another case
		w := jv.NewObject()
		w.MustSet(1).At(strings.ToUpper(s))
		w.MustSet(jv.NewObject()).At("o")
		w.MustSet(2).At("o", strings.ToLower(s)+"1")
		_, _ = w.Caseless().Get(g)
		_, _ = w.Caseless().GetInt(g)
		_, _ = w.Caseless().Get("o", g)
		_, _ = w.Caseless().Get([]string{"o", g})
		_ = w.Caseless().Delete("o", g)
		_ = w.Caseless().Delete(g)
		_, _ = w.Caseless().Get(g)
		_, _ = w.Set(3).At("n", g)
		_, _ = w.Append(3).InTheEnd("n2", g)
		_, _ = w.Insert(3).Before("n", g)
		w.At("n3", g).Set(4)
		c.Hit("guarded_keys")
		// in options
		n := jv.NewFloat64(genNaN(r))
		_, _ = n.Marshal(append(o.opts, jv.OptFloatNaNToString(g), jv.OptFloatInfToString(g, g))...)
		_, _ = v.Marshal(append(o.opts, jv.OptKeySequence([]string{g, "v"}))...)
		_, _ = v.Marshal(jv.OptIndent(g, g))
		c.Hit("guarded_options")
		// numbers with texts
		_ = jv.NewFloat64f(1.5, []byte("feEgG")[r.Intn(5)], r.Intn(5))
		_, _ = jv.Import(struct{ A, B any }{g, b})
		_, _ = jv.Import(map[string]any{g: b})
		twice(c, "a document with a guarded string", first, look(v))
	})
	// bytes are copied
	memSafe(c, "use of guarded bytes", func() {
		a.readonly()
		v := jv.NewBytes(b)
		w := jv.NewObject()
		w.MustSetBytes(b).At("b")
		w.MustSet(b).At("c")
		w.MustAppendBytes(b).InTheEnd("d")
		x, _ := jv.Import(map[string][]byte{"x": b})
		a.revoke()
		for _, y := range []*jv.V{v, w, x} {
			first := look(y)
			p20Use(c, y)
			twice(c, "bytes", first, look(y))
		}
	})
	c.Eval(1)
	c.Distinct(s)
}

// ---------------------------------------------------------------- the other workloads under sanitizers

// heavy are the suites with large or deep values: under a collector that never rests one of their cases takes minutes
var heavy = map[string]bool{"cycles": true, "deepindent": true, "sizes": true, "population": true, "big": true, "life": true}

func p20Workload(c *Case) {
	type wl struct {
		prop, suite string
		weight      int
	}
	list := []wl{{"P01", "", 3}, {"P02", "", 5}, {"P03", "", 2}, {"P04", "", 3}, {"P05", "", 1}, {"P06", "", 1}, {"P07", "", 1}, {"P08", "", 1}, {"P09", "", 3}, {"P10", "", 1}, {"P11", "", 2}, {"P12", "", 2},
		{"P13", "", 1}, {"P14", "", 1}, {"P15", "", 3}, {"P16", "", 2}, {"P17", "", 4}, {"P19", "", 1}}
	total := 0
	for _, x := range list {
		total += x.weight
	}
	n := c.R.Intn(total)
	var p *Prop
	for _, x := range list {
		if n < x.weight {
			p = props[x.prop]
			break
		}
		n -= x.weight
	}
	s := p.Suites[c.R.Intn(len(p.Suites))]
	if heavy[s.Name] || s.Solo || s.Quick < 1000 {
		return
	}
	// its counts are not those of this property
	w := &Worker{prop: p, seed: c.W.seed, tier: c.W.tier, variant: c.W.variant, known: map[string]bool{}, distinct: map[uint64]struct{}{}, journal: c.W.journal}
	w.res.Counters = map[string]int64{}
	k := &Case{R: c.R, W: w, Suite: s.Name, Index: 1 + c.R.Intn(s.Quick-1)}
	c.Note("workload %s %s %d", p.ID, s.Name, k.Index)
	memSafe(c, "workload "+p.ID+" "+s.Name, func() { s.Run(k) })
	jv.ResetDefaultMarshalOptions()
	c.Eval(1)
	c.Hit("workload_" + p.ID)
}

func p20Workloads(c *Case) {
	c.variantHit()
	p20Workload(c)
	if c.Index%64 == 0 {
		runtime.GC()
		c.Hit("gc_cycles")
	}
}

// ---------------------------------------------------------------- collector

// p20Collector keeps documents, outputs and strings over collections, and looks at them again
func p20Collector(c *Case) {
	c.variantHit()
	r := c.R
	type kept struct {
		what  string
		look  func() string
		first string
	}
	var ks []kept
	keep := func(what string, f func() string) {
		ks = append(ks, kept{what, f, strings.Clone(f())})
	}
	var live []*jv.V
	g := &genCfg{maxDepth: 3, maxKids: 6}
	var ms0, ms1 runtime.MemStats
	runtime.ReadMemStats(&ms0)
	for step := 6 + r.Intn(10); step > 0; step-- {
		memSafe(c, "collector workload", func() {
			switch r.Intn(9) {
			case 0, 1, 2:
				t := genTree(r, g, 0)
				text := render(r, t, genStyle(r))
				var v *jv.V
				how := r.Intn(5)
				switch how {
				case 0:
					v, _ = jv.Unmarshal(text)
				case 1:
					v, _ = jv.UnmarshalNoCopy(text)
				case 2:
					v, _ = jv.UnmarshalString(string(text))
				case 3:
					v = buildV(r, t, 0)
				default:
					v = &jv.V{}
					_ = v.UnmarshalJSON(text)
				}
				// what was parsed is right from the start: it is not only stable garbage
				if s, ok := snap(v); !ok || !s.equal(t) {
					s2, _ := snap(jv.MustUnmarshal(bytes.Clone(text)))
					if s2 == nil || s2.equal(t) {
						c.Fail("%sparse %d of %s gives %s, another parse gives the right value", memPrefix, how, trunc(string(text), 400), trunc(look(v), 400))
					}
				}
				live = append(live, v)
				keep("document", func() string { return look(v) })
			case 3, 4:
				if len(live) == 0 {
					return
				}
				v := live[r.Intn(len(live))]
				o := genOpts(r, oEsc|oIndent|oOrder, nil)
				out, err := v.Marshal(o.opts...)
				if err == nil {
					keep("output of Marshal", func() string { return string(out) })
				}
				s, err := v.MarshalString(o.opts...)
				if err == nil {
					keep("output of MarshalString", func() string { return s })
				}
			case 5:
				if len(live) == 0 {
					return
				}
				v := live[r.Intn(len(live))]
				s, b := v.String(), v.Bytes()
				keep("String", func() string { return s })
				keep("Bytes", func() string { return string(b) })
				v.RangeObjects(func(k string, x *jv.V) bool {
					keep("key", func() string { return k })
					keep("member", func() string { return look(x) })
					return r.Intn(3) > 0
				})
				v.RangeArray(func(_ int, x *jv.V) bool {
					keep("element", func() string { return look(x) })
					return r.Intn(3) > 0
				})
			case 6:
				sc := &specCtx{r: r}
				spec := sc.structSpec(0, true)
				x := newValue(spec)
				fillValue(r, x.Elem(), &fillCtx{}, true, 0)
				v, err := jv.Import(x.Interface())
				if err == nil {
					keep("imported", func() string { return look(v) })
				}
			case 7:
				if len(live) == 0 {
					return
				}
				v := live[r.Intn(len(live))]
				var x any
				if v.Export(&x) == nil {
					keep("exported", func() string { b, _ := json.Marshal(x); return string(b) })
				}
			default:
				// part of a document outlives it
				if len(live) > 0 {
					i := r.Intn(len(live))
					if live[i].IsArray() && live[i].Len() > 0 {
						x := live[i].MustGet(r.Intn(live[i].Len()))
						keep("element of a dropped document", func() string { return look(x) })
					}
					live = append(live[:i], live[i+1:]...)
				}
			}
			if r.Intn(3) == 0 {
				runtime.GC()
			}
			if r.Intn(3) == 0 {
				churn(r.Intn(40))
			}
			for _, k := range ks {
				twice(c, k.what, k.first, k.look())
			}
			if len(ks) > 60 {
				ks = ks[30:]
			}
		})
		c.Eval(1)
	}
	runtime.ReadMemStats(&ms1)
	c.HitN("gc_cycles", int(ms1.NumGC-ms0.NumGC))
	p20Workload(c)
}

var churnSink [][]byte

// churn allocates blocks of many sizes so that freed memory is used again
func churn(n int) {
	churnSink = churnSink[:0]
	for i := 0; i < n; i++ {
		b := make([]byte, 1<<(i%12)+i)
		for j := range b {
			b[j] = 0xEE
		}
		churnSink = append(churnSink, b)
	}
	deepen(n)
}

//go:noinline
func deepen(n int) int {
	var pad [256]byte
	for i := range pad {
		pad[i] = byte(n + i)
	}
	if n <= 0 {
		return int(pad[3])
	}
	return deepen(n-1) + int(pad[n%256])
}
