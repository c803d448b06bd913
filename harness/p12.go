package main

import (
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P12",
		Rule: "histories of edits, case-insensitive and ordinary reads and deletes on documents whose keys collide in lower case, against a model that scans every key at every access; " +
			"when several keys match, any of them is accepted; non-trivial: distinct (document, caseless path)",
		Need: []string{"exact_match", "folded_match", "several_matches", "no_match", "caseless_delete", "caseless_delete_failed", "deep_match", "ordinary_read", "after_edit_read", "reparsed", "forked", "crowds", "ok_Set", "ok_Delete"},
		Suites: []Suite{
			{Name: "histories", Quick: 170000, Thorough: 1200000, Run: p12Histories},
			{Name: "sizes", Quick: 64, Thorough: 1000, Run: p12Sized},
			{Name: "single", Quick: 240000, Thorough: 600000, Run: p12Single},
			{Name: "life", Quick: 6000, Thorough: 90000, Run: lifeRun(genCfg{nulls: 2}, readPaths(true))},
		},
	})
}

// keys that meet in lower case, some only by the Unicode mapping
var caseKeys = []string{"a", "A", "key", "Key", "KEY", "kEy", "\u212aey", "é", "É", "ß", "ẞ", "σ", "Σ", "ς", "ǆ", "ǅ", "Ǆ", "i", "I", "İ", "i̇", "ı", "", "1", "_x", "_X",
	"ÿ", "Ÿ", "ⓐ", "Ⓐ", "𐐨", "𐐀", "longer key with words", "Longer Key With Words", "K"}

func lower(s string) string { return strings.ToLower(s) }

// cStep lists what one caseless step may find
func cStep(v *RV, p param) ([]*RV, eclass) {
	if v.K != kObj || p.k != pStr {
		x, e := mStep(v, p)
		if e != eNone {
			return nil, e
		}
		return []*RV{x}, eNone
	}
	if x, ok := v.O[p.s]; ok {
		return []*RV{x}, eNone
	}
	var out []*RV
	for _, k := range v.Keys {
		if lower(k) == lower(p.s) {
			out = append(out, v.O[k])
		}
	}
	if out == nil {
		return nil, eNotFound
	}
	return out, eNone
}

// cGet lists the nodes a caseless path may find and the errors it may give
func cGet(v *RV, ps []param) (found []*RV, errs map[eclass]bool) {
	errs = map[eclass]bool{}
	if len(ps) == 0 {
		ps = []param{{k: pNil}}
	}
	cur := []*RV{v}
	for _, p := range ps {
		var next []*RV
		for _, x := range cur {
			y, e := cStep(x, p)
			if e != eNone {
				errs[e] = true
			}
			next = append(next, y...)
		}
		cur = next
	}
	return cur, errs
}

// recase changes the case of a key at random
func recase(c *Case, s string) string {
	switch c.R.Intn(6) {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	case 3:
		return strings.ToTitle(s)
	}
	var b strings.Builder
	for _, r := range s {
		switch c.R.Intn(3) {
		case 0:
			b.WriteString(strings.ToUpper(string(r)))
		case 1:
			b.WriteString(strings.ToLower(string(r)))
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// casePath walks down with keys in another case
func (h *Hist) casePath(b *RV) []param {
	ps := h.path(b, 1+h.c.R.Intn(4))
	for i, p := range ps {
		if p.k == pStr && h.c.R.Intn(4) != 0 {
			ps[i] = strParam(h.c.R, recase(h.c, p.s))
		}
	}
	return ps
}

// caselessRead does one caseless read through every getter
func (h *Hist) caselessRead() {
	r, c := h.c.R, h.c
	bm, bv, bdesc := h.base()
	ps := h.casePath(bm)
	first, rest, how := spell(r, ps)
	h.log = append(h.log, bdesc+": Caseless get "+paramsString(ps)+" as "+how)
	h.c.NoteMore("; %s", h.log[len(h.log)-1])
	found, errs := cGet(bm, ps)
	if !bm.isCont() { // Caseless on a scalar gives the ordinary interface, whose reads fail
		found, errs = nil, map[eclass]bool{eAny: true}
	}
	op := bv.Caseless()
	c.Distinct(h.m.canonSeq(), paramsString(ps))
	if len(found)+len(errs) == 1 {
		if len(found) == 1 {
			_, e := mGet(bm, ps)
			switch {
			case e == eNone:
				c.Hit("exact_match")
			case len(ps) > 1:
				c.Hit("deep_match")
				c.Hit("folded_match")
			default:
				c.Hit("folded_match")
			}
			checkGetters(c, op, []*jv.V{h.ptr[found[0]]}, found[0], eNone, first, rest)
			return
		}
		c.Hit("no_match")
		for e := range errs {
			checkGetters(c, op, nil, nil, e, first, rest)
		}
		return
	}
	c.Hit("several_matches")
	for i := 0; i < 3; i++ { // which of them may differ from call to call
		x, err := op.Get(first, rest...)
		c.Eval(1)
		if err == nil {
			ok := false
			for _, y := range found {
				ok = ok || h.ptr[y] == x
			}
			if !ok {
				h.fail("caseless Get returned a node that does not match: %s", trunc(x.String(), 200))
			}
			continue
		}
		ok := false
		for e := range errs {
			ok = ok || errMatches(err, e)
		}
		if !ok {
			h.fail("caseless Get with several matches returned error %v", err)
		}
	}
}

// caselessDelete does one caseless deletion
func (h *Hist) caselessDelete() {
	r, c := h.c.R, h.c
	bm, bv, bdesc := h.base()
	ps := h.casePath(bm)
	if len(ps) == 0 {
		return
	}
	first, rest, how := spell(r, ps)
	must := r.Intn(4) == 0
	h.log = append(h.log, bdesc+": Caseless delete "+paramsString(ps)+" as "+how)
	h.c.NoteMore("; %s", h.log[len(h.log)-1])
	parents := []*RV{bm}
	errs := map[eclass]bool{}
	if len(ps) > 1 {
		parents, errs = cGet(bm, ps[:len(ps)-1])
	}
	if !bm.isCont() {
		parents, errs = nil, map[eclass]bool{eAny: true}
	}
	// possible deletions: a member of a parent
	type del struct {
		p *RV
		k string
		i int
	}
	var dels []del
	p := ps[len(ps)-1]
	for _, x := range parents {
		y, e := cStep(x, p)
		if e != eNone {
			errs[e] = true
			continue
		}
		if x.K == kArr {
			dels = append(dels, del{x, "", idxRead(x.A, p.i)})
			continue
		}
		for _, k := range x.Keys {
			for _, z := range y {
				if x.O[k] == z {
					dels = append(dels, del{x, k, -1})
				}
			}
		}
	}
	var err error
	if must {
		bv.Caseless().MustDelete(first, rest...)
	} else {
		err = bv.Caseless().Delete(first, rest...)
		if err != nil {
			ok := false
			for e := range errs {
				ok = ok || errMatches(err, e)
			}
			if !ok {
				h.fail("caseless Delete returned error %v; expected success %v or one of %v", err, len(dels) > 0, errs)
			}
			c.Hit("caseless_delete_failed")
			return
		}
		if len(dels) == 0 {
			h.fail("caseless Delete succeeded, expected one of %v", errs)
		}
	}
	c.Eval(1)
	if len(dels) == 0 {
		return
	}
	// follow the library's choice
	done := 0
	for _, d := range dels {
		pv := h.ptr[d.p]
		if d.i >= 0 {
			if pv.Len() == len(d.p.A)-1 {
				d.p.A = append(d.p.A[:d.i:d.i], d.p.A[d.i+1:]...)
				done++
			}
			continue
		}
		if _, err := pv.Get(d.k); err != nil && d.p.O[d.k] != nil { // a parent that has two places is listed twice
			d.p.del(d.k)
			done++
		}
	}
	if done > 1 || done == 0 && (len(errs) == 0 || !must) {
		h.fail("caseless Delete removed %d members", done)
	}
	c.Hit("caseless_delete")
}

func (h *Hist) ordinaryRead() {
	bm, bv, bdesc := h.base()
	ps := h.casePath(bm)
	first, rest, how := spell(h.c.R, ps)
	h.log = append(h.log, bdesc+": get "+paramsString(ps)+" as "+how)
	want, e := mGet(bm, ps)
	var tv []*jv.V
	if e == eNone {
		tv = []*jv.V{h.ptr[want]}
	}
	h.c.NoteMore("; %s", h.log[len(h.log)-1])
	checkGetters(h.c, bv, tv, want, e, first, rest)
	h.c.Hit("ordinary_read")
}

func p12Cfg(c *Case) *genCfg {
	g := &genCfg{maxDepth: 1 + c.R.Intn(3), maxKids: 1 + c.R.Intn(6), nulls: 1}
	n := 2 + c.R.Intn(8)
	for i := 0; i < n; i++ {
		k := caseKeys[c.R.Intn(len(caseKeys))]
		g.keys = append(g.keys, k)
		if c.R.Intn(2) == 0 {
			g.keys = append(g.keys, recase(c, k))
		}
	}
	return g
}

func p12Histories(c *Case) {
	c.f32ok = true
	g := p12Cfg(c)
	m := contTree(c, g)
	if c.R.Intn(3) != 0 {
		m = rObj()
		for n := 1 + c.R.Intn(6); n > 0; n-- {
			m.set(genKey(c.R, g), genKid(c.R, g, 0))
		}
		if c.R.Intn(4) == 0 { // a crowd: many keys, some of them meeting
			for _, k := range keyFamily(c.R, wideCount(c.R)) {
				m.set(k, genScalar(c.R, g))
				if c.R.Intn(4) == 0 {
					m.set(recase(c, k), genScalar(c.R, g))
				}
				if c.R.Intn(4) == 0 {
					g.keys = append(g.keys, k, recase(c, k))
				}
			}
			c.Hit("crowds")
		}
	}
	h := newHist(c, g, m, c.R.Intn(3))
	edited := false
	for n := 3 + c.R.Intn(25); n > 0; n-- {
		h.bad = []int{0, 0, 10}[c.R.Intn(3)]
		switch c.R.Intn(11) {
		case 10:
			h.fork()
		case 0, 1, 2, 3:
			h.caselessRead()
			if edited {
				c.Hit("after_edit_read")
			}
		case 4, 5, 6:
			edited = h.edit([6]int{5, 1, 1, 1, 1, 4}) || edited
		case 7:
			h.caselessDelete()
			edited = true
		case 8:
			h.ordinaryRead()
		default:
			if c.R.Intn(4) == 0 && h.m.isCont() {
				// a whole new content for the same root
				x := genDoc(c.R, g)
				if err := h.v.UnmarshalJSON([]byte(renderPlain(x))); err != nil {
					h.fail("UnmarshalJSON of valid JSON: %v", err)
				}
				h.log = append(h.log, "root decoded from "+trunc(x.canonSeq(), 200))
				v := h.ptr[h.m]
				h.m = x
				h.ptr[x] = v
				h.det = nil
				c.Hit("reparsed")
			} else {
				h.caselessRead()
			}
		}
		h.verify(true)
	}
	if c.Index < 8 {
		c.Sample("%s; %s", trunc(h.init, 200), trunc(strings.Join(h.log, "; "), 300))
	}
}

// p12Single: objects of a few keys from one family; every key of the table is asked for, before and after single edits
func p12Single(c *Case) {
	r := c.R
	k0 := caseKeys[c.Index%len(caseKeys)]
	fam := []string{k0, recase(c, k0), recase(c, k0), caseKeys[r.Intn(len(caseKeys))]}
	m := rObj()
	for _, k := range fam[:r.Intn(4)] {
		m.set(k, numOf(r.Intn(100)))
	}
	if r.Intn(5) == 0 {
		for _, k := range keyFamily(r, 1+r.Intn(20)) {
			m.set(k, numOf(1))
		}
	}
	h := newHist(c, &genCfg{keys: fam, maxDepth: 1, maxKids: 2}, m, r.Intn(3))
	h.bad = 0
	ask := func() {
		for _, k := range append(fam, caseKeys[r.Intn(len(caseKeys))], recase(c, k0)) {
			found, errs := cGet(h.m, []param{{k: pStr, s: k}})
			x, err := h.v.Caseless().Get(k)
			c.Eval(1)
			if len(found) == 0 {
				for e := range errs {
					if !errMatches(err, e) {
						h.fail("caseless Get(%q) gives %v, %v, expected %s", k, x, err, eNames[e])
					}
				}
				continue
			}
			ok := false
			for _, y := range found {
				ok = ok || h.ptr[y] == x
			}
			if err != nil || !ok {
				h.fail("caseless Get(%q) gives %v, %v, of %d matches", k, x, err, len(found))
			}
		}
	}
	if r.Intn(2) == 0 {
		ask()
	}
	var other *jv.V // a copy, or what was copied: it stays as it is
	var otherM *RV
	for n := 1 + r.Intn(4); n > 0; n-- {
		if other == nil && r.Intn(3) == 0 {
			v, err := jv.Import(h.v)
			if err != nil {
				h.fail("Import: %v", err)
			}
			h.log = append(h.log, "copied by Import")
			other, otherM = v, h.m.clone()
			if r.Intn(2) == 0 {
				h.ptr, h.det = map[*RV]*jv.V{}, nil
				h.m = h.m.clone() // a copy has two nodes where one was attached twice
				other, h.v = h.v, other
				h.verify(true)
			}
			c.Hit("forked")
		}
		switch r.Intn(3) {
		case 0:
			h.one(0, []param{strParam(r, fam[r.Intn(len(fam))])})
		case 1:
			h.one(5, []param{strParam(r, fam[r.Intn(len(fam))])})
		default:
			h.caselessDelete()
		}
		h.verify(true)
		ask()
		if other != nil {
			if d := diffV(other, otherM); d != "" {
				h.fail("the other copy changed: %s", d)
			}
			for _, k := range append(fam, recase(c, k0)) {
				found, _ := cGet(otherM, []param{{k: pStr, s: k}})
				x, err := other.Caseless().Get(k)
				c.Eval(1)
				if (err == nil) != (len(found) > 0) {
					h.fail("caseless Get(%q) in the other copy gives %v, %v, of %d matches", k, x, err, len(found))
				}
			}
		}
		c.Distinct(h.m.canonSeq(), h.log[len(h.log)-1])
	}
}

// p12Sized: objects of many keys, some of which meet in lower case
func p12Sized(c *Case) {
	r := c.R
	m := rObj()
	g := &genCfg{maxDepth: 1, maxKids: 2}
	for _, k := range manyKeys(r, sizeFor(c, 50000)) {
		m.set(k, rNum("1"))
		if r.Intn(200) == 0 {
			k2 := recase(c, k)
			m.set(k2, rNum("2"))
			if len(g.keys) < 40 {
				g.keys = append(g.keys, k, k2, recase(c, k))
			}
		}
	}
	g.keys = append(g.keys, "a", "A")
	h := newHist(c, g, m, r.Intn(3))
	h.bad = 0
	for n := 4; n > 0; n-- {
		h.caselessRead()
		switch r.Intn(3) {
		case 0:
			h.caselessDelete()
		case 1:
			h.edit([6]int{5, 0, 0, 0, 0, 4})
			h.verify(false) // learns the nodes that were made on the way
		}
		h.caselessRead()
	}
	h.verify(true)
	c.Hit("crowds")
}
