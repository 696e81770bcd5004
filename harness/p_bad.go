package main

// C07: malformed bibliographies are reported.

import (
	"fmt"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/parser"
)

type badCase struct {
	What string
	Src  Src
	Mode parser.Mode
	Both bool // malformed in both string modes, else with string parsing only
}

// breaker turns a well-formed source into a malformed one. It returns false if
// it doesn't apply to the source.
type breaker struct {
	what     string
	comments bool // works with comments in the source
	both     bool
	plain    bool // strings hold plain words only
	do       func(g G, pr *Printed) (string, bool)
}

func splice(s Src, at, n int, with string) string { return string(s[:at]) + with + string(s[at+n:]) }

func anyDecl(g G, pr *Printed, ok func(d *Decl) bool) *Decl {
	var ds []*Decl
	for i := range pr.Doc.Decls {
		if ok == nil || ok(&pr.Doc.Decls[i]) {
			ds = append(ds, &pr.Doc.Decls[i])
		}
	}
	if len(ds) == 0 {
		return nil
	}
	return ds[g.n(len(ds))]
}

func anyItem(g G, pr *Printed, ok func(d *Decl, i int) bool) *Item {
	var is []*Item
	for i := range pr.Doc.Decls {
		d := &pr.Doc.Decls[i]
		for j := range d.Items {
			if ok(d, j) {
				is = append(is, &d.Items[j])
			}
		}
	}
	if len(is) == 0 {
		return nil
	}
	return is[g.n(len(is))]
}

func isTag(d *Decl, i int) bool { return !d.Items[i].Key }

func anyVal(g G, pr *Printed, ok func(v *Val) bool) *Val {
	var vs []*Val
	pr.Doc.vals(func(v *Val) {
		if ok == nil || ok(v) {
			vs = append(vs, v)
		}
	})
	if len(vs) == 0 {
		return nil
	}
	return vs[g.n(len(vs))]
}

func strOps(pr *Printed) []*Op {
	var ops []*Op
	pr.Doc.ops(func(o *Op) {
		if o.K == "str" {
			ops = append(ops, o)
		}
	})
	return ops
}

// badNameStart has what a name, but no tag may begin with.
const badNameStart = namePunct + "0123456789"

var breakers = []breaker{
	{"declaration cut off", true, true, false, func(g G, pr *Printed) (string, bool) {
		d := anyDecl(g, pr, nil)
		if d == nil {
			return "", false
		}
		return string(pr.Src[:d.Pos+1+g.n(d.Close-d.Pos)]), true
	}},
	{"wrong closing delimiter", true, true, false, func(g G, pr *Printed) (string, bool) {
		d := anyDecl(g, pr, nil)
		if d == nil {
			return "", false
		}
		c := ")"
		if d.Paren {
			c = "}"
		}
		return splice(pr.Src, d.Close, 1, c), true
	}},
	{"no closing delimiter", true, true, false, func(g G, pr *Printed) (string, bool) {
		d := anyDecl(g, pr, nil)
		if d == nil {
			return "", false
		}
		return splice(pr.Src, d.Close, 1, " "), true
	}},
	{"no opening delimiter", true, true, false, func(g G, pr *Printed) (string, bool) {
		d := anyDecl(g, pr, func(d *Decl) bool { return d.K != "pre" })
		if d == nil {
			return "", false
		}
		return splice(pr.Src, d.Open, 1, " "), true
	}},
	{"no '='", true, true, false, func(g G, pr *Printed) (string, bool) {
		it := anyItem(g, pr, isTag)
		if it == nil {
			return "", false
		}
		return splice(pr.Src, it.Eq, 1, " "), true
	}},
	{"two '='", true, true, false, func(g G, pr *Printed) (string, bool) {
		it := anyItem(g, pr, isTag)
		if it == nil {
			return "", false
		}
		return splice(pr.Src, it.Eq, 1, pick(g, "==", "= =")), true
	}},
	{"no value", true, true, false, func(g G, pr *Printed) (string, bool) {
		v := anyVal(g, pr, nil)
		if v == nil {
			return "", false
		}
		b := []byte(pr.Src)
		for _, o := range v.Ops {
			for i := o.Pos; i < o.End; i++ {
				b[i] = ' '
			}
		}
		for _, h := range v.Hash {
			b[h] = ' '
		}
		return string(b), true
	}},
	{"no operand", true, true, false, func(g G, pr *Printed) (string, bool) {
		v := anyVal(g, pr, func(v *Val) bool { return len(v.Ops) > 1 })
		if v == nil {
			return "", false
		}
		o := v.Ops[g.n(len(v.Ops))]
		return splice(pr.Src, o.Pos, o.End-o.Pos, " "), true
	}},
	{"extra '#'", true, true, false, func(g G, pr *Printed) (string, bool) {
		v := anyVal(g, pr, nil)
		if v == nil {
			return "", false
		}
		o := v.Ops[g.n(len(v.Ops))]
		switch g.n(3) {
		case 0:
			if o.Pos == v.Ops[0].Pos {
				return splice(pr.Src, o.Pos, 0, "# "), true
			}
			return splice(pr.Src, o.Pos, 0, "#"), true
		case 1:
			return splice(pr.Src, v.Ops[len(v.Ops)-1].End, 0, "#"), true
		}
		return splice(pr.Src, v.Ops[len(v.Ops)-1].End, 0, " # "), true
	}},
	{"two strings without '#'", true, true, false, func(g G, pr *Printed) (string, bool) {
		v := anyVal(g, pr, func(v *Val) bool { return v.Ops[len(v.Ops)-1].K == "str" })
		if v == nil {
			return "", false
		}
		return splice(pr.Src, v.Ops[len(v.Ops)-1].End, 0, pick(g, ` "x"`, " {x}", `""`, "{}")), true
	}},
	{"something behind the value of a preamble", true, true, false, func(g G, pr *Printed) (string, bool) {
		d := anyDecl(g, pr, func(d *Decl) bool { return d.K == "pre" })
		if d == nil {
			return "", false
		}
		return splice(pr.Src, d.Close, 0, pick(g, ",", " ,", " x", ", t = 1", "=", ` "x"`, " 1", "#", "@")), true
	}},
	{"illegal character", true, true, false, func(g G, pr *Printed) (string, bool) {
		var ts []Tok
		for _, t := range pr.Toks {
			if !t.Comment {
				ts = append(ts, t)
			}
		}
		c := " " + pick(g, "'", `\`, "~", "\x01", "\x7f", "\v", "\f", "é", "日", "\u00a0", "\u2028", "\ufffd", "\x1b", "\\'o") + " "
		if len(ts) == 0 {
			return c + string(pr.Src), true
		}
		t := ts[g.n(len(ts))]
		return splice(pr.Src, t.Pos, 0, c), true
	}},
	{"NUL, invalid UTF-8 or byte-order mark", true, true, false, func(g G, pr *Printed) (string, bool) {
		at := g.n(len(pr.Src) + 1)
		c := pick(g, "\x00", "\x80", "\xff", "\xc3", "\xfe", "\xef\xbb\xbf", "\xed\xa0\x80", "\xf5\x80\x80\x80", "\xc0\x80", "\xe2\x82")
		for at < len(pr.Src) && pr.Src[at]&0xc0 == 0x80 {
			at++ // between characters
		}
		if c == "\xef\xbb\xbf" && at == 0 {
			if len(pr.Src) == 0 {
				return "", false
			}
			c += c
		}
		return splice(pr.Src, at, 0, c), true
	}},
	{"brace behind an opening delimiter", true, true, false, func(g G, pr *Printed) (string, bool) {
		d := anyDecl(g, pr, func(d *Decl) bool { return d.K != "pre" })
		if d == nil {
			return "", false
		}
		return splice(pr.Src, d.Open+1, 0, pick(g, "{", "}", "(", ")", `"`, " { ", "{}", `""`, "{x}", "=", "#", ",", "@")), true
	}},
	{"brace before a closing delimiter", true, true, false, func(g G, pr *Printed) (string, bool) {
		d := anyDecl(g, pr, nil)
		if d == nil {
			return "", false
		}
		c := pick(g, "}", ")")
		return splice(pr.Src, d.Close, 0, c), true
	}},
	{"math without end", false, false, false, func(g G, pr *Printed) (string, bool) {
		ops := strOps(pr)
		if len(ops) == 0 {
			return "", false
		}
		o := ops[g.n(len(ops))]
		return splice(pr.Src, o.End-1, 0, pick(g, "$x\n", "$\n", "$x y\n\n z", "$\\$\n")), true
	}},
	{"malformed macro or accent", false, false, false, func(g G, pr *Printed) (string, bool) {
		ops := strOps(pr)
		if len(ops) == 0 {
			return "", false
		}
		o := ops[g.n(len(ops))]
		return splice(pr.Src, o.End-1, 0, pick(g, `\1`, `\é`, `\ `, `\'1`, `\^{12}`, `\'{oo}`, `\'{o }`, `\'{ o}`, `\'{}`, `\'{\o}`, `\"\o`, `\url{a ~}`, `\url{a ,b}`, `\href{{a b}}`, `\~é`, `\c{`+"}", `\url{a b}`, `\url`, `\href x`, `\'`+"\n", `\-`)), true
	}},
	{"name of a tag or abbreviation", true, true, false, func(g G, pr *Printed) (string, bool) {
		it := anyItem(g, pr, isTag)
		if it == nil {
			return "", false
		}
		return splice(pr.Src, it.Pos, len(it.Name), string(badNameStart[g.n(len(badNameStart))])+pick(g, "", "x", "1", it.Name)), true
	}},
	{"no name of a tag or abbreviation", true, true, false, func(g G, pr *Printed) (string, bool) {
		it := anyItem(g, pr, isTag)
		if it == nil {
			return "", false
		}
		return splice(pr.Src, it.Pos, len(it.Name), pick(g, " ", `"x"`, "{x}")), true
	}},
	{"text between declarations", true, true, false, func(g G, pr *Printed) (string, bool) {
		junk := pick(g, "x", "some text", "12", "{x}", `"x"`, "}", ")", "=", "#", "{", "(", "x = 1", ",,", "article{k}", "@", "key,", `"`, "@1{k}")
		n := len(pr.Doc.Decls)
		i := g.n(n + 1)
		if i < n {
			if i == 0 && g.chance(20) {
				junk = ","
			}
			return splice(pr.Src, pr.Doc.Decls[i].Pos, 0, junk+" "), true
		}
		return string(pr.Src) + "\n" + junk, true
	}},
	{"no comma behind a key", true, true, false, func(g G, pr *Printed) (string, bool) {
		it := anyItem(g, pr, func(d *Decl, i int) bool { return d.Items[i].Key && i+1 < len(d.Items) })
		if it == nil {
			return "", false
		}
		return splice(pr.Src, it.Comma, 1, " "), true
	}},
	{"two commas", true, true, false, func(g G, pr *Printed) (string, bool) {
		it := anyItem(g, pr, func(d *Decl, i int) bool { return d.Items[i].Comma > 0 })
		if it == nil {
			return "", false
		}
		return splice(pr.Src, it.Comma, 1, pick(g, ",,", ", ,")), true
	}},
	{"last string without end", false, true, false, func(g G, pr *Printed) (string, bool) {
		ops := strOps(pr)
		if len(ops) == 0 {
			return "", false
		}
		o := ops[len(ops)-1]
		return splice(pr.Src, o.End-1, 1, ""), true
	}},
	{"unbalanced string", false, true, true, func(g G, pr *Printed) (string, bool) {
		ops := strOps(pr)
		if len(ops) == 0 {
			return "", false
		}
		o := ops[g.n(len(ops))]
		return splice(pr.Src, o.Pos+1+g.n(o.End-o.Pos-1), 0, pick(g, "{", "}", "{{}", "{}}", "}}", "{{")), true
	}},
	{"no letter behind '@'", true, true, false, func(g G, pr *Printed) (string, bool) {
		d := anyDecl(g, pr, nil)
		if d == nil {
			return "", false
		}
		return splice(pr.Src, d.Pos+1, 0, pick(g, "1", "-", " ", "\n", "{", "@", "(", `"`, "'", ",", "%\n")), true
	}},
	{"no '@'", true, true, false, func(g G, pr *Printed) (string, bool) {
		d := anyDecl(g, pr, nil)
		if d == nil {
			return "", false
		}
		return splice(pr.Src, d.Pos, 1, " "), true
	}},
}

func plainWords(g G, d *Doc) {
	noDollar := func(s string) string { return strings.ReplaceAll(s, "$", ".") }
	d.ops(func(o *Op) {
		o.S = noDollar(o.S)
		if o.K == "str" {
			o.Pieces = []Piece{{K: "text", S: g.name(letters, letters+"  ", g.n(5))}}
			if g.chance(30) {
				o.Pieces = append(o.Pieces, Piece{K: "group", Kids: []Piece{{K: "text", S: "z"}}})
			}
		}
	})
	for i := range d.Decls {
		for j := range d.Decls[i].Items {
			d.Decls[i].Items[j].Name = noDollar(d.Decls[i].Items[j].Name)
		}
	}
}

// genBadTokens returns a source whose tokens don't follow the grammar.
func genBadTokens(g G) badCase {
	c := badCase{What: "tokens", Mode: g.modeBits()}
	for {
		src := g.mutateTokens(g.printedSource())
		if why, _, sure := verdict(src, true); sure && why != "" {
			why, _, sure = verdict(src, false)
			c.Src, c.Both = Src(src), sure && why != ""
			return c
		}
	}
}

func genBad(g G) badCase {
	if g.chance(30) {
		return genBadTokens(g)
	}
	b := breakers[g.n(len(breakers))]
	c := badCase{What: b.what, Mode: g.modeBits(), Both: b.both}
	for {
		d := g.doc(docCfg{str: strCfg{all: true}, decls: 2})
		if b.plain {
			plainWords(g, d)
		}
		pr := g.print(d, layoutCfg{comments: b.comments && g.chance(50), plain: g.chance(20)})
		src, ok := b.do(g, &pr)
		if ok {
			c.Src = Src(src)
			return c
		}
		// Not every document has what the breaker needs.
		b = breakers[g.n(len(breakers))]
		c.What, c.Both = b.what, b.both
	}
}

func checkBad(c badCase, o *Obs) error {
	o.NonTrivial(string(c.Src))
	o.Label(c.What)
	modes := []parser.Mode{c.Mode | parser.ParseStrings}
	if c.Both {
		modes = append(modes, c.Mode&^parser.ParseStrings)
	}
	for _, m := range modes {
		p := parseAt(string(c.Src), m, 0)
		if p.err == nil {
			return fmt.Errorf("mode %s: malformed source accepted (%s): %q", modeName(m), c.What, c.Src)
		}
		if _, err := bibtex.New(bibtex.WithParserMode(m)).Parse(strings.NewReader(string(c.Src))); err == nil {
			return fmt.Errorf("Biber.Parse in mode %s: malformed source accepted (%s): %q", modeName(m), c.What, c.Src)
		}
	}
	return nil
}

func init() {
	register(Def[badCase]{
		ID:    "C07",
		Rule:  "random well-formed bibliographies broken in one place in a way that cannot be well-formed (26 kinds of damage), and ones whose tokens were mixed until a reference grammar rejects them; each must be rejected; non-trivial: every case; distinct by source",
		Quick: 1500000, Thorough: 30000000,
		Gen: genBad, Check: checkBad,
	})
}
