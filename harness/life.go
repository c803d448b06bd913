package main

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// The life of one document: the same reading again and again, with small edits in between. Whatever the library
// remembers from one reading to the next (a sorted key list, a rendered text, a snapshot, a sum) must not outlive an
// edit, and most such memories are only kept for containers beyond some size and only checked by something cheap
// such as a length, so the edits here mostly keep the length.

// life is a document under a fixed set of readings
type life struct {
	*Hist
	t    *RV     // the container that is read and edited
	path []param // to t

	detached map[*RV]bool
}

// reading makes one way of reading, with everything it needs chosen once; what it reads is x, which is a container
type reading func(l *life) func(x *RV, v *jv.V)

var lifeSizes = []int{3, 5, 8, 9, 16, 17, 24, 32, 33, 48, 49, 60, 64, 65, 80, 96, 100, 128, 129, 200, 256, 257, 300, 400, 512, 513}

// lifeDoc makes a document with one sizeable container in it
func lifeDoc(c *Case, g *genCfg) (m, t *RV, path []param) {
	r := c.R
	n := lifeSizes[r.Intn(len(lifeSizes))]
	switch r.Intn(12) {
	case 0:
		n = 1000 + r.Intn(200)
	case 1, 2, 3, 4:
		n = 2 + r.Intn(80)
	}
	pool := leafPool(r, g)
	leaf := func() *RV {
		if r.Intn(10) == 0 {
			return genTree(r, &genCfg{maxDepth: 1, maxKids: 3, nonFinite: g.nonFinite, nulls: g.nulls, keys: g.keys}, 0)
		}
		return copyLeaf(pool[r.Intn(len(pool))])
	}
	flat := r.Intn(3) == 0
	if r.Intn(2) == 0 {
		t = rArr()
		for i := 0; i < n; i++ {
			if flat {
				t.A = append(t.A, copyLeaf(pool[i%len(pool)]))
			} else {
				t.A = append(t.A, leaf())
			}
		}
	} else {
		t = rObj()
		for _, k := range manyKeys(r, n) {
			if flat {
				t.set(k, copyLeaf(pool[r.Intn(len(pool))]))
			} else {
				t.set(k, leaf())
			}
		}
	}
	m = t
	for d := r.Intn(4); d > 0; d-- { // wrapped in a few levels
		if r.Intn(2) == 0 {
			k := []string{"a", "in", "Key", "中", "0"}[r.Intn(5)]
			o := rObj()
			if r.Intn(2) == 0 {
				o.set("before", leaf())
			}
			o.set(k, m)
			if r.Intn(2) == 0 {
				o.set("z after", leaf())
			}
			m = o
			path = append([]param{strParam(nil, k)}, path...)
		} else {
			a := rArr()
			i := r.Intn(3)
			for j := 0; j < i; j++ {
				a.A = append(a.A, leaf())
			}
			a.A = append(a.A, m)
			m = a
			path = append([]param{intParam(nil, i)}, path...)
		}
	}
	return m, t, path
}

func (l *life) did(format string, a ...any) {
	l.log = append(l.log, fmt.Sprintf(format, a...))
	l.c.NoteMore("; %s", l.log[len(l.log)-1])
}

func (l *life) ok(err error, what string) {
	if err != nil {
		l.fail("%s: %v", what, err)
	}
}

// where gives a node to call on and the start of the path to x: x itself, or the root
func (l *life) where(x *RV, v *jv.V) (*jv.V, []any) {
	if x != l.t || l.c.R.Intn(2) == 0 {
		return v, nil
	}
	var p []any
	for _, q := range l.path {
		p = append(p, q.go_)
	}
	return l.v, p
}

func (l *life) at(p []any, last any) (any, []any) {
	p = append(p[:len(p):len(p)], last)
	return p[0], p[1:]
}

// newLeaf makes a value to put in, mostly a scalar of the kind that is there already
func (l *life) newLeaf(like *RV) *RV {
	r := l.c.R
	if like != nil && r.Intn(2) == 0 {
		switch like.K {
		case kNum:
			if !like.nonFin() {
				return rNum(strconv.Itoa(r.Intn(1000)))
			}
		case kStr:
			b := []byte(like.S)
			for i := range b {
				if b[i] < 0x80 {
					b[i] = byte('a' + r.Intn(26))
				}
			}
			return rStr(string(b))
		}
	}
	if r.Intn(6) == 0 {
		return genTree(r, &genCfg{maxDepth: 1, maxKids: 3, nonFinite: l.g.nonFinite, nulls: l.g.nulls, keys: l.g.keys}, 0)
	}
	return genScalar(r, l.g)
}

func (l *life) build(m *RV) *jv.V {
	how := l.c.R.Intn(3)
	if hasNonFinite(m) {
		how = 0
	}
	v := buildV(l.c.R, m, how)
	l.adopt(m, v)
	return v
}

// adopt records the nodes of a new subtree, without checking anything
func (l *life) adopt(m *RV, v *jv.V) {
	l.ptr[m] = v
	if m.K == kArr {
		for i, x := range v.ForRangeArr() {
			l.adopt(m.A[i], x)
		}
	}
	if m.K == kObj {
		for k, x := range v.ForRangeObj() {
			l.adopt(m.O[k], x)
		}
	}
}

// tweak does one small edit of the container x, mostly one that keeps its length
func (l *life) tweak(x *RV) {
	r, c := l.c.R, l.c
	v := l.ptr[x]
	c.Eval(1)
	c.Hit("tweaks")
	b, p := l.where(x, v)
	if r.Intn(14) == 0 { // everything in x is new
		m := rArr()
		if r.Intn(2) == 0 {
			m = rObj()
			for _, k := range x.Keys {
				m.set(k, l.newLeaf(x.O[k]))
			}
		}
		for _, y := range x.A {
			m.A = append(m.A, l.newLeaf(y))
		}
		if len(x.A) > 0 {
			m.K = kArr
			m.O, m.Keys = nil, nil
		}
		if hasNonFinite(m) || x.K != m.K {
			return
		}
		text := []byte(renderPlain(m))
		l.did("container of %d decoded anew", x.length())
		l.leave(x)
		l.ok(v.UnmarshalJSON(text), "UnmarshalJSON")
		x.A, x.Keys, x.O = m.A, m.Keys, m.O
		l.adopt(x, v)
		return
	}
	if x.K == kArr {
		n := len(x.A)
		if n == 0 {
			m := l.newLeaf(nil)
			_, err := v.Append(l.build(m)).InTheEnd()
			l.ok(err, "Append")
			x.A = append(x.A, m)
			return
		}
		i, j := r.Intn(n), r.Intn(n)
		switch r.Intn(8) {
		case 0, 1: // one element replaced
			m := l.newLeaf(x.A[i])
			l.did("[%d] of %d set", i, n)
			idx := i
			if r.Intn(3) == 0 {
				idx = i - n
			}
			f, rest := l.at(p, idx)
			_, err := b.Set(l.build(m)).At(f, rest...)
			l.ok(err, "Set")
			x.A[i] = m
		case 2: // one out, one in
			l.did("[%d] of %d deleted, inserted before %d", i, n, j)
			f, rest := l.at(p, i)
			l.ok(b.Delete(f, rest...), "Delete")
			x.A = append(x.A[:i:i], x.A[i+1:]...)
			m := l.newLeaf(nil)
			switch {
			case j == n-1 || r.Intn(3) == 0:
				if r.Intn(2) == 0 || n == 1 {
					_, err := v.Append(l.build(m)).InTheEnd()
					l.ok(err, "InTheEnd")
					x.A = append(x.A, m)
				} else {
					_, err := v.Append(l.build(m)).InTheBeginning()
					l.ok(err, "InTheBeginning")
					x.A = append([]*RV{m}, x.A...)
				}
			case r.Intn(2) == 0:
				_, err := v.Insert(l.build(m)).Before(j)
				l.ok(err, "Before")
				x.A = append(x.A[:j:j], append([]*RV{m}, x.A[j:]...)...)
			default:
				_, err := v.Insert(l.build(m)).After(j)
				l.ok(err, "After")
				x.A = append(x.A[:j+1:j+1], append([]*RV{m}, x.A[j+1:]...)...)
			}
		case 3: // sorted
			rank := map[*jv.V]int{}
			order := append([]*RV(nil), x.A...)
			if r.Intn(2) == 0 {
				r.Shuffle(n, func(i, j int) { order[i], order[j] = order[j], order[i] })
			} else {
				order[i], order[j] = order[j], order[i]
			}
			for i, y := range order {
				rank[l.ptr[y]] = i
			}
			l.did("%d elements sorted", n)
			v.SortArray(func(a, b *jv.V) bool { return rank[a] < rank[b] })
			x.A = order
		case 4: // two elements change places
			a, bb := l.ptr[x.A[i]], l.ptr[x.A[j]]
			l.did("[%d] and [%d] of %d swapped", i, j, n)
			_, err := v.Set(bb).At(i)
			l.ok(err, "Set")
			_, err = v.Set(a).At(j)
			l.ok(err, "Set")
			x.A[i], x.A[j] = x.A[j], x.A[i]
		case 5: // an element changes in itself
			l.inside(x.A[i], fmt.Sprintf("[%d]", i))
		case 6:
			m := l.newLeaf(nil)
			l.did("appended to %d", n)
			_, err := v.Append(l.build(m)).InTheEnd()
			l.ok(err, "InTheEnd")
			x.A = append(x.A, m)
		default:
			l.did("[%d] of %d deleted", i, n)
			f, rest := l.at(p, i)
			l.ok(b.Delete(f, rest...), "Delete")
			x.A = append(x.A[:i:i], x.A[i+1:]...)
		}
		return
	}
	n := len(x.Keys)
	fresh := func(k string) string { // another key, of the same length where possible
		for try := 0; ; try++ {
			y := k
			if try < 8 && k != "" {
				q := []byte(k)
				if i := r.Intn(len(q)); q[i] < 0x80 {
					q[i] = "abcxyzABC0123456789"[r.Intn(19)]
				}
				y = string(q)
			} else {
				y = k + strconv.Itoa(r.Intn(100+1000*try))
			}
			if x.O[y] == nil {
				return y
			}
		}
	}
	if n == 0 {
		m := l.newLeaf(nil)
		_, err := v.Set(l.build(m)).At("first")
		l.ok(err, "Set")
		x.set("first", m)
		return
	}
	k, k2 := x.Keys[r.Intn(n)], x.Keys[r.Intn(n)]
	set := func(b *jv.V, p []any, k string, m *RV) {
		f, rest := l.at(p, k)
		_, err := b.Set(l.build(m)).At(f, rest...)
		l.ok(err, "Set")
		x.set(k, m)
	}
	switch r.Intn(9) {
	case 0, 1: // one member replaced
		l.did("%q of %d set", k, n)
		set(b, p, k, l.newLeaf(x.O[k]))
	case 2: // another key in its place
		k3 := fresh(k)
		l.did("%q of %d deleted, %q set", k, n, k3)
		if r.Intn(2) == 0 {
			set(b, p, k3, l.newLeaf(x.O[k]))
		} else {
			defer func() { set(v, nil, k3, l.newLeaf(nil)) }()
		}
		f, rest := l.at(p, k)
		l.ok(b.Delete(f, rest...), "Delete")
		x.del(k)
	case 3: // taken out and put back
		l.did("%q of %d deleted and set again", k, n)
		f, rest := l.at(p, k)
		y := x.O[k]
		l.ok(b.Delete(f, rest...), "Delete")
		x.del(k)
		if r.Intn(2) == 0 {
			_, err := v.Set(l.ptr[y]).At(k)
			l.ok(err, "Set")
			x.set(k, y)
		} else {
			set(b, p, k, l.newLeaf(y))
		}
	case 4: // two members change places
		a, bb := x.O[k], x.O[k2]
		l.did("%q and %q of %d swapped", k, k2, n)
		pa, pb := l.ptr[a], l.ptr[bb]
		_, err := v.Set(pb).At(k)
		l.ok(err, "Set")
		_, err = v.Set(pa).At(k2)
		l.ok(err, "Set")
		x.set(k, bb)
		x.set(k2, a)
	case 5: // a member changes in itself
		l.inside(x.O[k], strconv.Quote(k))
	case 6: // deleted without regard to case
		want := ""
		low, hits := strings.ToUpper(k), 0
		if strings.ToLower(low) != strings.ToLower(k) {
			low = k
		}
		for _, q := range x.Keys {
			if strings.ToLower(q) == strings.ToLower(low) {
				want = q
				hits++
			}
		}
		if hits != 1 {
			return
		}
		l.did("%q of %d deleted by %q", want, n, low)
		l.ok(v.Caseless().Delete(low), "Caseless Delete")
		x.del(want)
		if r.Intn(2) == 0 {
			set(v, nil, fresh(want), l.newLeaf(nil))
		}
	case 7:
		k3 := fresh(k)
		l.did("%q set beside %d", k3, n)
		set(b, p, k3, l.newLeaf(nil))
	default:
		l.did("%q of %d deleted", k, n)
		f, rest := l.at(p, k)
		l.ok(b.Delete(f, rest...), "Delete")
		x.del(k)
	}
}

// leave goes on watching members of x, which is about to get others
func (l *life) leave(x *RV) {
	if l.detached == nil {
		l.detached = map[*RV]bool{}
	}
	keep := func(y *RV) {
		if len(l.det) < 12 && !l.detached[y] && l.c.R.Intn(3) == 0 {
			l.detached[y] = true
			l.det = append(l.det, y)
		}
	}
	for _, y := range x.A {
		keep(y)
	}
	for _, k := range x.Keys {
		keep(x.O[k])
	}
}

// inside changes a member in itself: its node stays
func (l *life) inside(x *RV, what string) {
	v := l.ptr[x]
	if x.isCont() && l.c.R.Intn(3) != 0 {
		l.did("inside %s", what)
		l.tweak(x)
		return
	}
	m := l.newLeaf(x)
	if hasNonFinite(m) {
		return
	}
	l.did("%s decoded anew as %s", what, trunc(m.canonSeq(), 60))
	l.leave(x)
	l.ok(v.UnmarshalJSON([]byte(renderPlain(m))), "UnmarshalJSON")
	*x = *m
	l.adopt(x, v)
}

// lifeRun runs one life under some of the readings
func lifeRun(g genCfg, readings ...reading) func(c *Case) {
	return func(c *Case) {
		r := c.R
		gg := g
		gg.keys = append([]string{"a", "b", "k1", "key_1", "A", "中1"}, g.keys...)
		m, t, path := lifeDoc(c, &gg)
		how := r.Intn(3)
		if hasNonFinite(m) {
			how = []int{0, 2}[r.Intn(2)]
		}
		l := &life{t: t, path: path}
		l.Hist = &Hist{c: c, g: &gg, m: m, ptr: map[*RV]*jv.V{}}
		l.init = fmt.Sprintf("start (built %d) at %s: %s", how, paramsString(path), trunc(m.canonSeq(), 1200))
		c.Note("%s", l.init)
		l.v = buildV(r, m, how)
		l.verify(true)
		var fs []func(x *RV, v *jv.V)
		for k := 1 + r.Intn(2); k > 0; k-- {
			fs = append(fs, readings[r.Intn(len(readings))](l))
		}
		read := func() {
			for _, f := range fs {
				if r.Intn(4) == 0 {
					continue
				}
				x, v := t, l.ptr[t]
				if r.Intn(4) == 0 {
					x, v = l.m, l.v
				}
				f(x, v)
				c.Hit("readings_in_a_life")
				if r.Intn(5) == 0 {
					f(x, v)
				}
			}
		}
		read()
		rounds := 3 + r.Intn(8)
		if t.length() > 600 {
			rounds = 3
		}
		for ; rounds > 0; rounds-- {
			for k := 1 + r.Intn(3)*r.Intn(2); k > 0; k-- {
				l.tweak(t)
			}
			read()
		}
		l.verify(true)
		c.Distinct("life", c.Index)
		if c.Index < 3 {
			c.Sample("%s; %s", trunc(l.init, 150), trunc(strings.Join(l.log, "; "), 400))
		}
	}
}

// ---------------------------------------------------------------- readings

// outputs under fixed options; key sequences are given in one slice, whose content changes now and then
func readMarshal(mask int) reading {
	return func(l *life) func(x *RV, v *jv.V) {
		c := l.c
		o := genOpts(c.R, mask, l.someKeys())
		if mask == oOrder && len(o.seq) == 0 && c.R.Intn(2) == 0 {
			o = &mOpts{order: 2, desc: "key sequence"}
			o.seq = append(o.seq, l.someKeys()...)
			o.opts = []jv.Option{jv.OptKeySequence(o.seq)}
		}
		if mask == 0 {
			o = &mOpts{}
		}
		pureSeq := mask == oOrder && o.order == 2 && len(o.opts) == 1
		l.did("read by Marshal %s", trunc(o.desc, 200))
		return func(x *RV, v *jv.V) {
			if pureSeq && c.R.Intn(3) == 0 { // the caller's slice, with another content
				switch c.R.Intn(3) {
				case 0:
					c.R.Shuffle(len(o.seq), func(i, j int) { o.seq[i], o.seq[j] = o.seq[j], o.seq[i] })
				case 1:
					i, j := c.R.Intn(len(o.seq)), c.R.Intn(len(o.seq))
					o.seq[i], o.seq[j] = o.seq[j], o.seq[i]
				default:
					for try := 0; try < 5; try++ {
						k := genKey(c.R, l.g)
						dup := false
						for _, q := range o.seq {
							dup = dup || q == k
						}
						if !dup {
							o.seq[c.R.Intn(len(o.seq))] = k
							break
						}
					}
				}
				o.rank = nil
				o.opts = []jv.Option{jv.OptKeySequence(o.seq)}
				l.did("key sequence is now %s", trunc(fmt.Sprintf("%q", o.seq), 200))
				c.Hit("key_sequences_reused")
			}
			checkMarshal(c, v, x, o, true)
		}
	}
}

// someKeys lists a few keys of the container
func (l *life) someKeys() []string {
	var ks []string
	for i := 0; i < 6 && len(l.t.Keys) > 0; i++ {
		ks = append(ks, l.t.Keys[l.c.R.Intn(len(l.t.Keys))])
	}
	ks = append(ks, "a", "before", "z after", "k1")
	seen := map[string]bool{}
	var out []string
	for _, k := range ks {
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

// both views of the set sequence
func readSequence(l *life) func(x *RV, v *jv.V) {
	c := l.c
	form := c.R.Intn(3)
	return func(x *RV, v *jv.V) {
		c.Eval(1)
		if form != 0 {
			i := 0
			v.RangeObjectsBySetSequence(func(k string, y *jv.V) bool {
				if i >= len(x.Keys) || x.Keys[i] != k || l.ptr[x.O[k]] != nil && l.ptr[x.O[k]] != y {
					l.fail("set sequence: %q in place %d, want %s", k, i, trunc(fmt.Sprintf("%q", x.Keys), 500))
				}
				i++
				return true
			})
			if i != len(x.Keys) {
				l.fail("set sequence visits %d of %d", i, len(x.Keys))
			}
		}
		if form != 1 {
			out, err := v.Marshal(jv.OptSetSequence())
			if err != nil {
				l.fail("Marshal: %v", err)
			}
			if d := diffOut(strict(c, out, "Marshal"), x, true, "$"); d != "" {
				l.fail("OptSetSequence: %s", d)
			}
		}
	}
}

func readIteration(l *life) func(x *RV, v *jv.V) {
	return func(x *RV, v *jv.V) { p13One(l.c, v, x) }
}

// one form of iteration only, so that nothing else refreshes what it may remember
func readOneForm(l *life) func(x *RV, v *jv.V) {
	c := l.c
	form := c.R.Intn(10)
	stop := c.R.Intn(3) == 0
	l.did("read by iteration form %d", form)
	return func(x *RV, v *jv.V) {
		c.Eval(1)
		limit := x.length()
		if stop && limit > 0 {
			limit = 1 + c.R.Intn(limit)
		}
		n := 0
		seen := map[string]bool{}
		arr := func(i int, y *jv.V) bool {
			if x.K != kArr || i != n || i >= len(x.A) || y != l.ptr[x.A[i]] {
				l.fail("iteration form %d of an array of %d: visit %d gives index %d and not the node that is there", form, len(x.A), n, i)
			}
			n++
			return n < limit
		}
		obj := func(k string, y *jv.V) bool {
			m, ok := x.O[k]
			if !ok || seen[k] || y != l.ptr[m] {
				l.fail("iteration form %d of an object of %d: visit %d gives %q, not the member that is there", form, len(x.O), n, k)
			}
			seen[k] = true
			n++
			return n < limit
		}
		want := 0
		isArr := x.K == kArr
		switch form {
		case 0:
			if isArr {
				want = limit
			}
			v.RangeArray(arr)
		case 1:
			if isArr {
				want = limit
			}
			for i, y := range v.ForRangeArr() {
				if !arr(i, y) {
					break
				}
			}
		case 2:
			if isArr {
				want = limit
			}
			for it := range v.IterArray() {
				if !arr(it.I, it.V) {
					break
				}
			}
		case 3, 4, 5, 6:
			if !isArr {
				want = limit
			}
			switch form {
			case 3:
				v.RangeObjects(obj)
			case 4:
				for k, y := range v.ForRangeObj() {
					if !obj(k, y) {
						break
					}
				}
			case 5:
				for it := range v.IterObjects() {
					if !obj(it.K, it.V) {
						break
					}
				}
			default:
				v.RangeObjectsBySetSequence(func(k string, y *jv.V) bool {
					if n < len(x.Keys) && x.Keys[n] != k {
						l.fail("set-sequence iteration visits %q in place %d, want %q", k, n, x.Keys[n])
					}
					return obj(k, y)
				})
			}
		default: // all members: of an array or an object
			for i := 0; i < x.length(); i++ {
				if isArr {
					y, err := v.Get(i)
					if err != nil || y != l.ptr[x.A[i]] {
						l.fail("Get(%d) of an array of %d: %v, not the node that is there", i, len(x.A), err)
					}
				} else {
					k := x.Keys[i]
					y, err := v.Get(k)
					if err != nil || y != l.ptr[x.O[k]] {
						l.fail("Get(%q) of an object of %d: %v, not the node that is there", k, len(x.O), err)
					}
				}
			}
			return
		}
		if n != want {
			l.fail("iteration form %d visited %d, want %d", form, n, want)
		}
	}
}

// comparison with another document that follows the edits or does not
func readEqual(l *life) func(x *RV, v *jv.V) {
	c, r := l.c, l.c.R
	var w *jv.V
	var wm *RV
	return func(x *RV, v *jv.V) {
		c.Eval(1)
		if wm != nil { // the other one stands for an earlier state
			if want := p14Eq(x, wm); v.Equal(w) != want || w.Equal(v) != want {
				l.fail("Equal with a copy of an earlier state: %v, %v, want %v", v.Equal(w), w.Equal(v), want)
			}
		}
		if wm == nil || r.Intn(3) != 0 {
			wm = x.clone()
			w = buildV(r, wm, r.Intn(2))
		}
		if want := p14Eq(x, wm); v.Equal(w) != want || w.Equal(v) != want {
			l.fail("Equal with a rebuilt document: %v, %v, want %v", v.Equal(w), w.Equal(v), want)
		}
		if y, what := change(r, x); r.Intn(2) == 0 && !p14Eq(x, y) {
			z := buildV(r, y, r.Intn(2))
			if v.Equal(z) || z.Equal(v) {
				l.fail("Equal in spite of a difference: %s", what)
			}
		}
	}
}

func readContains(l *life) func(x *RV, v *jv.V) {
	c, r := l.c, l.c.R
	var kept []*RV
	return func(x *RV, v *jv.V) {
		for _, s := range kept {
			p22Check(c, v, x, s)
		}
		if len(kept) < 3 || r.Intn(3) == 0 {
			s := derivePart(r, x)
			p22Check(c, v, x, s)
			if len(kept) >= 3 {
				kept = kept[1:]
			}
			kept = append(kept, s.clone())
		}
	}
}

// reads of a few paths, ordinary or without regard to case
func readPaths(caseless bool) reading {
	return func(l *life) func(x *RV, v *jv.V) {
		c, r := l.c, l.c.R
		var keys []string
		var idx []int
		for i := 0; i < 5; i++ {
			if len(l.t.Keys) > 0 {
				keys = append(keys, l.t.Keys[r.Intn(len(l.t.Keys))])
			}
			idx = append(idx, r.Intn(2*l.t.length()+3)-l.t.length()-1)
		}
		return func(x *RV, v *jv.V) {
			for k := 0; k < 4; k++ {
				var p param
				if x.K == kObj && len(keys) > 0 {
					i := r.Intn(len(keys))
					if r.Intn(5) == 0 && len(x.Keys) > 0 {
						keys[i] = x.Keys[r.Intn(len(x.Keys))]
					}
					key := keys[i]
					if caseless {
						key = recase(c, key)
					}
					p = strParam(r, key)
				} else {
					p = intParam(r, idx[r.Intn(len(idx))])
				}
				ps := []param{p}
				b, bm := v, x
				if x == l.t && r.Intn(2) == 0 {
					b, bm = l.v, l.m
					ps = append(append([]param(nil), l.path...), p)
					if caseless {
						for i, q := range ps {
							if q.k == pStr {
								ps[i] = strParam(r, recase(c, q.s))
							}
						}
					}
				}
				first, rest, _ := spell(r, ps)
				c.Eval(1)
				if !caseless {
					want, e := mGet(bm, ps)
					var tv []*jv.V
					if e == eNone {
						tv = []*jv.V{l.ptr[want]}
					}
					checkGetters(c, b, tv, want, e, first, rest)
					continue
				}
				found, errs := cGet(bm, ps)
				y, err := b.Caseless().Get(first, rest...)
				if err != nil {
					ok := false
					for e := range errs {
						ok = ok || errMatches(err, e)
					}
					if !ok {
						l.fail("Caseless().Get%s: %v, want one of %d nodes or errors %v", paramsString(ps), err, len(found), errs)
					}
					continue
				}
				ok := false
				for _, f := range found {
					ok = ok || l.ptr[f] == y
				}
				if !ok {
					l.fail("Caseless().Get%s gives a node that is not a match (%d are)", paramsString(ps), len(found))
				}
			}
		}
	}
}

// deep copies, and copies into Go values
func readCopies(l *life) func(x *RV, v *jv.V) {
	c, r := l.c, l.c.R
	form := r.Intn(5)
	type old struct {
		v *jv.V
		m *RV
	}
	var olds []old
	return func(x *RV, v *jv.V) {
		c.Eval(1)
		for _, o := range olds {
			if d := diffV(o.v, o.m); d != "" {
				l.fail("an earlier copy changed: %s", d)
			}
		}
		switch form {
		case 0, 1:
			w, err := jv.Import(v)
			if form == 1 {
				w, err = jv.New(v), nil
			}
			l.ok(err, "Import")
			if w == v {
				return
			}
			if d := diffV(w, x); d != "" {
				l.fail("copy: %s", d)
			}
			if len(olds) < 4 {
				olds = append(olds, old{w, x.clone()})
			}
		case 2:
			if hasNonFinite(x) {
				return
			}
			w, err := jv.Unmarshal(v.MustMarshal(jv.OptSetSequence()))
			l.ok(err, "Unmarshal of the output")
			if d := diffLoose(w, x); d != "" {
				l.fail("parsed output: %s", d)
			}
		default:
			if hasNonFinite(x) {
				return
			}
			l.export(x, v, form == 3)
		}
	}
}

// export compares an export with what encoding/json makes of the same text
func (l *life) export(x *RV, v *jv.V, fresh bool) {
	var a, b any
	text := []byte(renderPlain(x))
	ea := v.Export(&a)
	eb := json.Unmarshal(text, &b)
	if (ea != nil) != (eb != nil) {
		l.fail("Export: %v, encoding/json: %v", ea, eb)
	}
	if ea == nil && !reflect.DeepEqual(a, b) {
		l.fail("Export gives %s, encoding/json %s", trunc(fmt.Sprint(a), 300), trunc(fmt.Sprint(b), 300))
	}
	if x.K == kObj {
		ma, mb := map[string]json.RawMessage{}, map[string]json.RawMessage{}
		ea, eb = v.Export(&ma), json.Unmarshal(text, &mb)
		if (ea != nil) != (eb != nil) || len(ma) != len(mb) {
			l.fail("Export to a map: %v with %d members, encoding/json: %v with %d", ea, len(ma), eb, len(mb))
		}
		for k := range mb {
			pa, pb := refParse(ma[k], false), refParse(mb[k], false)
			if !pa.ok || !pb.ok || diffOut(pa.v, pb.v, false, "$") != "" {
				l.fail("Export to a map: member %q is %s, want %s", k, trunc(string(ma[k]), 200), trunc(string(mb[k]), 200))
			}
		}
	} else {
		var sa, sb []json.RawMessage
		ea, eb = v.Export(&sa), json.Unmarshal(text, &sb)
		if (ea != nil) != (eb != nil) || len(sa) != len(sb) {
			l.fail("Export to a slice: %v with %d elements, encoding/json: %v with %d", ea, len(sa), eb, len(sb))
		}
		for k := range sb {
			pa, pb := refParse(sa[k], false), refParse(sb[k], false)
			if !pa.ok || !pb.ok || diffOut(pa.v, pb.v, false, "$") != "" {
				l.fail("Export to a slice: element %d is %s, want %s", k, trunc(string(sa[k]), 200), trunc(string(sb[k]), 200))
			}
		}
	}
}

func readExport(l *life) func(x *RV, v *jv.V) {
	return func(x *RV, v *jv.V) {
		l.c.Eval(1)
		l.export(x, v, true)
	}
}

// the encodings of P23
func readEncodings(l *life) func(x *RV, v *jv.V) {
	c, r := l.c, l.c.R
	form := r.Intn(5)
	type wrap struct {
		A int
		V *jv.V
		M map[string]*jv.V
	}
	return func(x *RV, v *jv.V) {
		c.Eval(1)
		var out []byte
		var err error
		switch form {
		case 0:
			out, err = json.Marshal(v)
		case 1:
			out, err = v.MarshalJSON()
		case 2:
			out, err = v.MarshalBinary()
		case 3:
			w := wrap{A: 1, V: v, M: map[string]*jv.V{"m": v}}
			var whole []byte
			whole, err = json.Marshal(w)
			if err == nil {
				var back struct {
					V json.RawMessage
					M map[string]json.RawMessage
				}
				l.ok(json.Unmarshal(whole, &back), "json.Unmarshal")
				if !bytes.Equal(back.V, back.M["m"]) {
					a, b := refParse(back.V, false), refParse(back.M["m"], false)
					if !a.ok || !b.ok || diffOut(a.v, b.v, false, "$") != "" {
						l.fail("one value encoded twice gives different texts")
					}
				}
				out = back.V
			}
		default:
			var b bytes.Buffer
			l.ok(gob.NewEncoder(&b).Encode(v), "gob")
			var w jv.V
			l.ok(gob.NewDecoder(&b).Decode(&w), "gob decoding")
			if d := diffLoose(&w, x); d != "" {
				l.fail("gob round trip: %s", d)
			}
			return
		}
		l.ok(err, "encoding")
		p := refParse(out, false)
		if !p.ok {
			l.fail("encoding %d is not valid JSON: %s", form, trunc(string(out), 500))
		}
		if d := diffOut(p.v, x, false, "$"); d != "" {
			l.fail("encoding %d: %s", form, d)
		}
		w := &jv.V{}
		if form == 2 {
			err = w.UnmarshalBinary(out)
		} else {
			err = w.UnmarshalJSON(out)
		}
		l.ok(err, "decoding")
		if d := diffLoose(w, x); d != "" {
			l.fail("decoded: %s", d)
		}
	}
}

// sorting the same array under the same order again
func readSorted(l *life) func(x *RV, v *jv.V) {
	c, r := l.c, l.c.R
	desc := r.Intn(2) == 0
	calls := 0
	return func(x *RV, v *jv.V) {
		if x.K != kArr || x != l.t { // another array would move what the path to t goes through
			return
		}
		c.Eval(1)
		of := map[*jv.V]*RV{}
		for _, y := range x.A {
			of[l.ptr[y]] = y
		}
		less := func(a, b *jv.V) bool {
			calls++
			p, q := of[a], of[b]
			if p == nil || q == nil {
				l.fail("SortArray compares a value that is not an element")
			}
			if desc {
				return p.canon() > q.canon()
			}
			return p.canon() < q.canon()
		}
		v.SortArray(less)
		l.did("sorted %d elements", len(x.A))
		var got []*RV
		left := map[*RV]int{}
		for _, y := range x.A {
			left[y]++
		}
		for i, y := range v.ForRangeArr() {
			m := of[y]
			if m == nil || left[m] == 0 {
				l.fail("after SortArray, element %d is not one of the elements, or one of them twice", i)
			}
			left[m]--
			got = append(got, m)
		}
		if len(got) != len(x.A) {
			l.fail("SortArray left %d of %d elements", len(got), len(x.A))
		}
		if !sort.SliceIsSorted(got, func(i, j int) bool {
			if desc {
				return got[i].canon() > got[j].canon()
			}
			return got[i].canon() < got[j].canon()
		}) {
			l.fail("SortArray left the array unsorted")
		}
		x.A = got
	}
}

// default options against explicit ones
func readDefaults(l *life) func(x *RV, v *jv.V) {
	c, r := l.c, l.c.R
	o := genOpts(r, oAll, l.someKeys())
	return func(x *RV, v *jv.V) {
		defer jv.ResetDefaultMarshalOptions()
		if r.Intn(4) == 0 {
			o = genOpts(r, oAll, l.someKeys())
		}
		jv.ResetDefaultMarshalOptions()
		checkMarshal(c, v, x, o, true)
		jv.SetDefaultMarshalOptions(o.opts...)
		bare := *o
		bare.opts = nil
		checkMarshal(c, v, x, &bare, true)
		jv.ResetDefaultMarshalOptions()
		checkMarshal(c, v, x, &mOpts{}, true)
	}
}

// the content as the plain walk sees it
func readWalk(l *life) func(x *RV, v *jv.V) {
	return func(x *RV, v *jv.V) {
		l.c.Eval(1)
		if d := diffV(v, x); d != "" {
			l.fail("%s", d)
		}
	}
}
