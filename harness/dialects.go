package main

import (
	"strings"
)

// What other notations than JSON allow: JSON5, JavaScript, Python, YAML, HJSON, BSON shells, C, HTTP and log framings.
// None of it is JSON, and none of it is among the documented tolerances unless the lenient reference parser says so.
var dialects = strings.Split(strings.TrimSuffix(`NaN|nan|Infinity|-Infinity|+Infinity|inf|-inf|undefined|None|True|False|TRUE|FALSE|NULL|Null|nil|Nil|yes|no|on|off|void|void 0|t|f|n|tr|truee|nulll|falsey|!0|!1|
'a'|'|''|'''a'''|"""a"""|""""""|%60a%60|«a»|“a”|b"a"|r"a"|u"a"|@"a"|$"a"|R"(a)"|"a""b"|"a" "b"|"a"+"b"|'a"|"a'|
0x1F|0X1f|0x|-0x1|0b1|0o7|017|00|01|-01|-00|+1|+0|++1|--1|- 1|-|+|.5|-.5|5.|-5.|.|1.e1|1_000|1,000|1'000|1 000|1e|1e+|1E-|1e1.5|1e0x1|1f|1L|1n|1d|1u|0.1.2|1.0f|1e1e1|1/2|1:2|12:30|1..2|1-2|1%25|½|１|١|Ⅷ|∞|−1|π|1e１|0xFFp2|%2e5|
//x
|//
|/*x*/|/**/|/* " */|/* ] */|/***/|/*|*/|/|/ /|# x
|#|#!x
|-- x
|; x
|;|%25 x
|<!-- x -->|--|'x
|REM x
|(* x *)|{- x -}|
)]}',
|)]}'|while(1);|for(;;);|&&&START&&&|/**/x|data: |HTTP/1.1 200 OK

|Content-Length: 2

|%1e|%04|%03|%1a|%7f|%ef%bb%bf|%fe%ff|%ff%fe|%00%00%fe%ff|%c2%a0|%c2%85|%85|%a0|%e2%80%a8|%e2%80%a9|%e2%80%8b|%e2%81%a0|%e3%80%80|%e1%9a%80|%e2%80%83|%e1%a0%8e|%0c|%0b|%00|%08|%07|%1c|%1d|%1f|%c0%a0|%c0%80|%ed%a0%80|%f4%90%80%80|
a|$a|_a|a-b|a.b|a b|[a]|%40|1a|a1|é|中|a:|:a|"a":|"a"=1|"a"=>1|"a"->1|"a";1|"a"::1|a=1|a:1|'a':1|1:1|null:1|true:1|{}:1|[]:1|"a" 1|"a"|: |::|=|=>|->|:=|?|?:|,|,,|,,,|, ,|; |
|\|\\|\n|\x41|\u0041|\u{41}|&quot;|&#34;|&amp;|%2522|
(1)|(|)|<1>|<|>|{|}|[|]|{}|[]|[}|{]|{[|]}|[1|1]|{"a"|{"a":|"a":1}|{1}|{"a"}|{"a","b"}|[1:2]|["a":1]|{,}|[,]|{:}|[:]|{"a":}|{:1}|[;]|...|...[1]|..|&a|*a|*|!!str a|!a|<<|- a|-a|? a|| a|> a|@|~|^|%25|$|$1|${a}|{{a}}|<%%= a %%>|%25s|\\|
1 2|1;2|true false|null,null|[] []|{}{}|[],[]|[][]|"a"1|1"a"|true1|1true|nulltrue|[1]2|2[1]|{}1|1{}|
Date(1)|new Date(1)|ObjectId("x")|ISODate("2020-01-01")|NumberLong(1)|2020-01-01|2020-01-01T00:00:00Z|Symbol(a)|function(){}|()=>1|a()|a[0]|/a/|/a/g|<a/>|callback([])|x=[]|var x=[]|return []|module.exports=[]|export default []|`, "\n"), "|")

// escapes of other notations, and broken ones of JSON
var dialectEscapes = []string{`\x41`, `\x4`, `\x`, `\X41`, `\u{41}`, `\u{1F600}`, `\U0001F600`, `\U0041`, `\v`, `\0`, `\00`, `\000`, `\101`, `\7`, `\8`, `\'`, "\\`", `\a`, `\e`, `\d065`, `\N`, `\N{DASH}`, `\L`, `\P`, `\_`, `\ `,
	"\\\n", "\\\r\n", "\\\t", `\u`, `\u0`, `\u00`, `\u004`, `\u+041`, `\u-041`, `\u 041`, `\u0x41`, `\u00 41`, `\u004G`, `\u004g`, `\uD83D`, `\uDE00`, `\uD83D\uD83D`, `\uDE00\uD83D`, `\uD83D\xDE00`, `\uD83D\n`, `\uD83Du`, `\uD83D\u`, `\uD83D\uDE0`, `\uD83D \uDE00`, `\uD83D\UDE00`,
	`\u００41`, `\u0０41`, "\\u\x00041", `\B`, `\F`, `\R`, `\T`, `\T`, `\#`, `\$`, `\{`, `\(`, `\<`, `\&`, `\;`, `\:`, `\,`, `\]`, `\}`, `\?`, `\!`, `\=`, `\-`, `\+`, `\1`, "\\\x80", "\\\xff", "\\é", "\\中", "\\\U0001F600", "\\\x00", "\\\x7f", `\c`, `\cA`, `\C`, `\M-a`, `\o101`, `\z`, `\Z`, `\Q`, `\E`,
	"\n", "\r", "\t", "\x00", "\x1f", "\x08", "\x0c", "\x7f", "\u0085", "\u2028", "\ufeff", `""`, `"`, `'`, `%22`, `&quot;`}

func init() {
	for i, d := range dialects {
		dialects[i] = unpercent(d)
	}
}

// unpercent decodes %xx
func unpercent(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			if x, ok := hexByte(s[i+1], s[i+2]); ok {
				b.WriteByte(x)
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func hexByte(a, b byte) (byte, bool) {
	x, y := strings.IndexByte("0123456789abcdef", a), strings.IndexByte("0123456789abcdef", b)
	return byte(x<<4 | y), x >= 0 && y >= 0
}

// lexemes cuts a valid JSON text into its tokens, blanks included
func lexemes(t []byte) []string {
	var out []string
	for i := 0; i < len(t); {
		j := i + 1
		switch {
		case t[i] == '"':
			for t[j] != '"' {
				if t[j] == '\\' {
					j++
				}
				j++
			}
			j++
		case strings.IndexByte(" \t\r\n", t[i]) >= 0:
			for j < len(t) && strings.IndexByte(" \t\r\n", t[j]) >= 0 {
				j++
			}
		case strings.IndexByte("{}[],:", t[i]) < 0:
			for j < len(t) && strings.IndexByte("{}[],: \t\r\n\"", t[j]) < 0 {
				j++
			}
		}
		out = append(out, string(t[i:j]))
		i = j
	}
	return out
}

var dialectBases = []string{`1`, `"s"`, `null`, `[]`, `{}`, ` [ ] `, `[1]`, `[1,2]`, `[1, "b", null]`, `{"a":1}`, `{"a":1,"b":[2]}`, `{ "a" : { } , "b" : "c" }`, `[[],{}]`, `[{"a":[true,{"b":-1.5e3}]},"x"]`, "[\n 1,\n 2\n]\n"}

// p02Dialects: one lexeme of another notation, before, after and in the place of every token of the bases
func p02Dialects(c *Case) {
	d := dialects[c.Index%len(dialects)]
	for bi, b := range dialectBases {
		toks := lexemes([]byte(b))
		for i := 0; i <= len(toks); i++ {
			for mode := 0; mode < 4; mode++ {
				if i == len(toks) && mode > 0 {
					break
				}
				var t []byte
				for k, x := range toks {
					if k == i {
						switch mode {
						case 0: // before
							t = append(append(t, d...), x...)
						case 1: // instead
							t = append(t, d...)
						case 2: // instead, with blanks
							t = append(append(append(t, ' '), d...), "\n"...)
						default: // with blanks, before
							t = append(append(append(append(t, ' '), d...), ' '), x...)
						}
						continue
					}
					t = append(t, x...)
				}
				if i == len(toks) {
					t = append(t, d...)
				}
				c.Note("text %q", t)
				c.Hit("foreign_lexemes")
				if p02Verdict(c, t, (bi+i+mode)%16 == 0) {
					c.Distinct(t)
				}
			}
		}
	}
}

// p02DialectMix: one or two of them in a random document; escapes go into its strings
func p02DialectMix(c *Case) {
	r := c.R
	g := &genCfg{maxDepth: 1 + r.Intn(3), maxKids: 1 + r.Intn(4)}
	toks := lexemes(render(r, genTree(r, g, 0), genStyle(r)))
	for k := 1 + r.Intn(4)/3; k > 0; k-- {
		i := r.Intn(len(toks) + 1)
		if r.Intn(2) == 0 {
			if i < len(toks) && r.Intn(2) == 0 {
				toks[i] = dialects[r.Intn(len(dialects))]
			} else {
				toks = append(toks[:i:i], append([]string{dialects[r.Intn(len(dialects))]}, toks[i:]...)...)
			}
			continue
		}
		for try := 0; try < len(toks); try++ {
			x := toks[(i+try)%len(toks)]
			if len(x) < 2 || x[0] != '"' {
				continue
			}
			p := 1 + r.Intn(len(x)-1)
			for p > 1 && (x[p-1] == '\\' || x[p]&0xC0 == 0x80) { // not inside an escape or a character, mostly
				p--
			}
			toks[(i+try)%len(toks)] = x[:p] + dialectEscapes[r.Intn(len(dialectEscapes))] + x[p:]
			break
		}
	}
	t := []byte(strings.Join(toks, ""))
	c.Note("text %q", t)
	c.Hit("foreign_lexemes")
	if p02Verdict(c, t, c.Index%16 == 0) {
		c.Distinct(t)
	}
}
