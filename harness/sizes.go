package main

import (
	"math/rand"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// Documents of many sizes. Code that treats long containers or strings in
// another way than short ones has its threshold somewhere: the sizes visited
// lie around the usual ones (powers of two and ten) and reach past 2^16.

var ladder = []int{64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 20000, 32768, 40000, 50000, 65536, 70000}

// sizeFor gives the size for a case: half of the cases are beyond 30000 (as
// far as max allows), the others climb the ladder
func sizeFor(c *Case, max int) int {
	n := 0
	if c.Index%2 == 0 {
		n = max/2 + c.R.Intn(max/2+1)
	} else {
		n = ladder[c.Index/2%len(ladder)]
	}
	n += c.R.Intn(5) - 2
	if n > max {
		n = max - c.R.Intn(5)
	}
	return n
}

// pool of leaves: all mixed, of one type, or with many nulls
func leafPool(r *rand.Rand, g *genCfg) []*RV {
	n := 1 + r.Intn(60)
	out := make([]*RV, 0, n)
	profile := r.Intn(7)
	for i := 0; i < n; i++ {
		switch profile {
		case 0:
			out = append(out, rNum(strconv.Itoa(r.Intn(1000))))
		case 1:
			out = append(out, rStr(genString(r)))
		case 2:
			out = append(out, []*RV{rNull(), rNum("1"), rNull(), rBool(true), rNull(), rStr("x")}[i%6])
		case 3:
			out = append(out, []*RV{rArr(), rObj(), rStr(""), rNum("0"), rBool(false), rArr(rNull())}[i%6])
		case 4: // of one length and one type
			out = append(out, rStr(string([]byte{byte('a' + r.Intn(26)), byte('a' + r.Intn(26))})))
		default:
			out = append(out, genScalar(r, g))
		}
	}
	return out
}

func copyLeaf(x *RV) *RV {
	switch x.K {
	case kArr:
		n := rArr()
		for _, y := range x.A {
			n.A = append(n.A, copyLeaf(y))
		}
		return n
	case kObj:
		n := rObj()
		for _, k := range x.Keys {
			n.set(k, copyLeaf(x.O[k]))
		}
		return n
	}
	y := *x
	return &y
}

// manyKeys makes n different keys: short ones, of many lengths, some odd
func manyKeys(r *rand.Rand, n int) []string {
	pre := []string{"", "k", "key_", "中", "A"}[r.Intn(5)]
	mode := r.Intn(4)
	out := make([]string, n)
	for i := range out {
		d := strconv.Itoa(i)
		switch mode {
		case 0:
			out[i] = pre + d
		case 1: // one length
			out[i] = pre + strings.Repeat("0", 7-len(d)) + d
		case 2: // lengths up and down
			out[i] = pre + d + strings.Repeat("x", i*7%13)
		default: // the number first: lexically far apart
			out[i] = strconv.FormatUint(uint64(i)*2654435761%(1<<32), 36) + "_" + d
		}
	}
	if r.Intn(2) == 0 {
		r.Shuffle(n, func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return out
}

func longText(r *rand.Rand, n int) string {
	unit := []string{"a", "ab ", "é", "中文", "\U0001F600", "x\"y", "\n", "/<&>", "0123456789", "\u2028z", "\\"}[r.Intn(11)]
	b := []byte(strings.Repeat(unit, n/len(unit)+1))
	if r.Intn(2) == 0 { // something odd somewhere
		odd := []string{"\"", "\\", "\x00", "é", "\U0001F600", "\u2029", "/", "\x7f", "&"}[r.Intn(9)]
		p := r.Intn(len(b)/len(unit)+1) * len(unit)
		b = append(b[:p:p], append([]byte(odd), b[p:]...)...)
	}
	return string(b)
}

var sizeShapes = []string{"array", "object", "rows", "columns", "text", "key", "late"}

// sizedTree makes a document with about n leaves (or bytes of text)
func sizedTree(r *rand.Rand, g *genCfg, n int) (*RV, string) {
	pool := leafPool(r, g)
	leaf := func() *RV { return copyLeaf(pool[r.Intn(len(pool))]) }
	if n < 4 {
		n = 4
	}
	shape := r.Intn(len(sizeShapes))
	var t *RV
	switch shape {
	case 0:
		t = rArr()
		for i := 0; i < n; i++ {
			t.A = append(t.A, leaf())
		}
	case 1:
		t = rObj()
		for _, k := range manyKeys(r, n) {
			t.set(k, leaf())
		}
	case 2: // many small containers
		t = rArr()
		for i := 0; i < n/3; i++ {
			if i%5 == 4 {
				t.A = append(t.A, rArr(leaf(), leaf()))
				continue
			}
			o := rObj()
			o.set("id", rNum(strconv.Itoa(i)))
			o.set("name", leaf())
			if i%3 == 0 {
				o.set("extra", leaf())
			}
			t.A = append(t.A, o)
		}
	case 3: // a few large ones
		t = rObj()
		for i := 0; i < 3; i++ {
			x := rArr()
			if i == 1 {
				x = rObj()
				for _, k := range manyKeys(r, n/3) {
					x.set(k, leaf())
				}
			} else {
				for j := 0; j < n/3; j++ {
					x.A = append(x.A, leaf())
				}
			}
			t.set([]string{"first", "second", "third"}[i], x)
		}
	case 4:
		t = rArr(leaf(), rStr(longText(r, n)), leaf())
		if r.Intn(3) == 0 {
			t = t.A[1]
		}
	case 5:
		t = rObj()
		t.set("a", leaf())
		t.set(longText(r, n), leaf())
		t.set("b", leaf())
	default: // what is special comes late, in a uniform array or object
		x := rNum("7")
		if r.Intn(2) == 0 {
			x = rStr("plain")
		}
		if r.Intn(2) == 0 {
			t = rArr()
			for i := 0; i < n; i++ {
				t.A = append(t.A, copyLeaf(x))
			}
			t.A[n-1-r.Intn(1+n/4)] = genTree(r, &genCfg{maxDepth: 2, maxKids: 3, nonFinite: g.nonFinite, nulls: 2}, 0)
		} else {
			t = rObj()
			for _, k := range manyKeys(r, n) {
				t.set(k, copyLeaf(x))
			}
			t.O[t.Keys[n-1-r.Intn(1+n/4)]] = genTree(r, &genCfg{maxDepth: 2, maxKids: 3, nonFinite: g.nonFinite, nulls: 2}, 0)
		}
	}
	return t, sizeShapes[shape]
}

// sizedMarshal marshals a document of a size from the ladder under options
func sizedMarshal(c *Case, g *genCfg, mask int, opts int) {
	t, shape := sizedTree(c.R, g, sizeFor(c, 70000))
	how := c.R.Intn(3)
	if hasNonFinite(t) {
		how = []int{0, 2}[c.R.Intn(2)]
	}
	c.Note("%s, value %s", shape, trunc(t.canonSeq(), 1000))
	v := buildV(c.R, t, how)
	keys := allKeys(t)
	for k := 0; k < opts; k++ {
		o := genOpts(c.R, mask, keys)
		if mask == oOrder && k == 0 { // a key sequence of a few keys, or of most
			seq := append([]string(nil), keys...)
			c.R.Shuffle(len(seq), func(i, j int) { seq[i], seq[j] = seq[j], seq[i] })
			n := len(seq)
			if c.R.Intn(3) != 0 {
				n = min(n, 1+c.R.Intn(3))
			}
			o = &mOpts{order: 2, seq: seq[:n], desc: "key sequence of " + strconv.Itoa(n)}
			o.opts = []jv.Option{jv.OptKeySequence(o.seq)}
		}
		c.Note("%s, value %s built %d, options %s", shape, trunc(t.canonSeq(), 1000), how, trunc(o.desc, 1000))
		out, got := checkMarshal(c, v, t, o, true)
		if out != nil && k == 0 {
			roundTrip(c, out, got)
		}
		c.Distinct("sized", c.Index, k)
	}
	c.Hit("sized_" + shape)
}
