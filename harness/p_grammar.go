package main

// C37: the grammar decides what is accepted.

import (
	"fmt"
	"strings"

	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/token"
)

// grammar reads the tokens of a source without lexical errors and builds the
// tree. Sources are declarations; each has the delimiters of its choice:
//
//	entry    = @name open { name [","] | name "=" value [","] } close [","]
//	abbrev   = @string open name "=" value [","] close
//	preamble = @preamble open value close
//	value    = (name | number | string) ["#" value]
//
// where the comma behind a cite key may only be left out at the end, and the
// name of a tag or abbreviation starts with a letter.
type grammar struct {
	src  string
	toks []lexTok
	i    int
}

type badGrammar struct {
	msg string
	tok lexTok
}

func (g *grammar) tok() token.Token { return g.toks[g.i].tok }

func (g *grammar) fail(want string) {
	t := g.toks[g.i]
	panic(badGrammar{fmt.Sprintf("%v %q at offset %d instead of %s", t.tok, t.lit, t.off, want), t})
}

func (g *grammar) next() lexTok {
	g.i++
	return g.toks[g.i-1]
}

func (g *grammar) opt(t token.Token) bool {
	if g.tok() != t {
		return false
	}
	g.i++
	return true
}

func (g *grammar) need(t token.Token) {
	if !g.opt(t) {
		g.fail(t.String())
	}
}

func (g *grammar) open() (closer token.Token) {
	switch {
	case g.opt(token.LBrace):
		return token.RBrace
	case g.opt(token.LParen):
		return token.RParen
	}
	g.fail("an opening delimiter")
	panic("unreachable")
}

// leaf returns the node of a token.
func (t lexTok) leaf(k, s string) *N { return &N{K: k, S: s, Pos: t.off, End: t.end} }

func (g *grammar) name() lexTok {
	if t := g.tok(); t != token.Ident && t != token.Number {
		g.fail("a name")
	}
	return g.next()
}

func (g *grammar) tag(entry bool) *N {
	if !isASCIILetter(g.name().lit[0]) {
		g.i--
		g.fail("a name that starts with a letter")
	}
	t := g.toks[g.i-1]
	g.need(token.Assign)
	v := g.value()
	name := asciiLower(t.lit)
	if entry && name == "url" {
		v = g.address(v)
	}
	return &N{K: "tag", S: name + "|" + t.lit, Pos: t.off, End: v.End, Kids: []*N{v}}
}

// address joins the constructs of a bare address. Only white space and escaped
// characters stay apart.
func (g *grammar) address(v *N) *N {
	if v.K != "str" {
		return v
	}
	out := &N{K: "str", S: v.S, Pos: v.Pos, End: v.End}
	var last *N
	for _, k := range v.Kids {
		switch k.K {
		case "space", "esc":
			out.Kids = append(out.Kids, k)
			last = nil
		case "text", "nbsp", "comma", "math":
			if last == nil {
				last = &N{K: "text", Pos: k.Pos}
				out.Kids = append(out.Kids, last)
			}
			last.End = k.End
			last.S = g.src[last.Pos:last.End]
		default:
			return v
		}
	}
	return out
}

func (g *grammar) decl() *N {
	start := g.next()
	n := &N{Pos: start.off}
	var cl token.Token
	closer := func() {
		t := g.toks[g.i]
		g.need(cl)
		n.End = t.end
		n.Kids = append(n.Kids, &N{K: "closer", Pos: t.off, End: -1})
	}
	switch start.tok {
	case token.Preamble:
		n.K = "pre"
		cl = g.open()
		n.Kids = []*N{g.value()}
		closer()
	case token.Abbrev:
		n.K = "abbrev"
		cl = g.open()
		n.Kids = []*N{g.tag(false)}
		g.opt(token.Comma)
		closer()
	case token.BibEntry:
		n.K, n.S = "bib", strings.ToLower(start.lit[1:])
		cl = g.open()
		var keys, tags []*N
		for g.tok() != cl {
			if g.tok() == token.EOF {
				g.fail("a closing delimiter")
			}
			if g.i+1 < len(g.toks) && g.toks[g.i+1].tok == token.Assign {
				tags = append(tags, g.tag(true))
				g.opt(token.Comma)
				continue
			}
			k := "key"
			if keys != nil {
				k = "extra"
			}
			t := g.name()
			keys = append(keys, t.leaf(k, t.lit))
			if g.tok() != cl {
				g.need(token.Comma)
			}
		}
		n.Kids = append(keys, tags...)
		closer()
		g.opt(token.Comma)
	default:
		g.i--
		g.fail("a declaration")
	}
	return n
}

func (g *grammar) value() (n *N) {
	t := g.next()
	switch t.tok {
	case token.Ident:
		n = t.leaf("id", t.lit)
	case token.Number:
		n = t.leaf("num", t.lit)
	case token.String:
		n = t.leaf("raw", "quote:"+t.lit)
	case token.BraceString:
		n = t.leaf("raw", "brace:"+t.lit)
	case token.DoubleQuote:
		n = t.leaf("str", "quote")
		for g.tok() != token.DoubleQuote {
			n.Kids = append(n.Kids, g.text(1))
		}
		n.End = g.next().end
	case token.StringLBrace:
		g.i--
		n = g.text(0)
	default:
		g.i--
		g.fail("a value")
	}
	if g.tok() != token.Concat {
		return n
	}
	op := g.next()
	y := g.value()
	return &N{K: "concat", Pos: n.Pos, End: y.End, Kids: []*N{n, {K: "op", Pos: op.off, End: -1}, y}}
}

// text reads one construct of a string.
func (g *grammar) text(depth int) *N {
	t := g.next()
	switch t.tok {
	case token.StringContents:
		return t.leaf("text", t.lit)
	case token.StringSpace:
		return &N{K: "space", Pos: t.off, End: -1}
	case token.StringComma:
		return t.leaf("comma", "")
	case token.StringNBSP:
		return t.leaf("nbsp", "")
	case token.StringMath:
		return t.leaf("math", t.lit)
	case token.StringBackslash:
		return t.leaf("esc", t.lit[1:])
	case token.StringAccent:
		end := t.end
		if g.src[end-1] == '}' {
			end--
		}
		l := g.src[end-1 : end]
		return &N{K: "accent", S: t.lit[1:2] + l, Pos: t.off, End: -1, Kids: []*N{{K: "letter", S: l, Pos: end - 1, End: end}}}
	case token.StringLBrace:
		n := t.leaf("str", "brace")
		n.D = depth
		for g.tok() != token.StringRBrace {
			n.Kids = append(n.Kids, g.text(depth+1))
		}
		n.End = g.next().end
		return n
	case token.StringMacro:
		n := t.leaf("macro", strings.TrimPrefix(t.lit, `\`))
		if t.lit != "url" && t.lit != "href" {
			return n
		}
		g.need(token.StringLBrace)
		at := g.toks[g.i].off
		for depth := 0; ; g.i++ {
			switch g.tok() {
			case token.StringLBrace:
				depth++
				continue
			case token.StringRBrace:
				depth--
				if depth >= 0 {
					continue
				}
			case token.StringSpace:
			case tokFault:
				g.fail("an address")
			default:
				continue
			}
			break
		}
		end := g.toks[g.i].off
		n.Kids = []*N{{K: "text", S: g.src[at:end], Pos: at, End: end}}
		g.opt(token.StringSpace)
		n.End = g.toks[g.i].end
		g.need(token.StringRBrace)
		return n
	}
	g.i--
	g.fail("a construct of a string")
	panic("unreachable")
}

func (g *grammar) read(f func()) (why string, tok lexTok) {
	defer func() {
		if e := recover(); e != nil {
			b, ok := e.(badGrammar)
			if !ok {
				panic(e)
			}
			why, tok = b.msg, b.tok
		}
	}()
	f()
	return "", lexTok{}
}

// verdict tells why a source breaks the grammar, or what its tree is if it
// follows it. It isn't sure about a few sources.
func verdict(src string, strs bool) (why string, tree *N, sure bool) {
	if i := firstBadByte(src); i < len(src) {
		return fmt.Sprintf("bad byte at offset %d", i), nil, true
	}
	l := &lexer{src: src, strings: strs}
	l.lex()
	switch {
	case l.err != "":
		return fmt.Sprintf("%s at offset %d", l.err, l.at), nil, true
	case l.unspec == "closing brace in a quoted string":
		return l.unspec, nil, true
	case l.unspec != "":
		return "", nil, false
	}
	g := &grammar{src: src, toks: withoutLexComments(l.toks)}
	tree = &N{K: "file", Pos: -1, End: -1}
	why, _ = g.read(func() {
		for g.tok() != token.EOF {
			tree.Kids = append(tree.Kids, g.decl())
		}
	})
	return why, tree, true
}

// exprVerdict does the same for an expression. What stands behind one is not
// specified.
func exprVerdict(src string) (why string, tree *N, sure bool) {
	src = "=" + src
	if firstBadByte(src) < len(src) {
		return "", nil, false
	}
	l := &lexer{src: src, strings: true}
	l.lex()
	if l.err != "" || l.unspec != "" {
		return "", nil, false
	}
	g := &grammar{src: src, toks: withoutLexComments(l.toks)}
	g.i++
	why, _ = g.read(func() { tree = g.value() })
	return why, tree, why != "" || g.tok() == token.EOF
}

// Generators

// grammarWords are tokens to make sources of.
var grammarWords = []string{
	"@a", "@string", "@preamble", "{", "}", "(", ")", ",", "=", "#", "k", "1", `"x"`, "{y}",
}

var grammarExtra = []string{
	"@comment", "@STRING", "@Preamble", "@article", "t =", "= {v}", "= 1", "1a", "_t", "-", `""`, "{}", "% c\n", "%\n", "\n", "t", "u", "= a # ", "},", "},\n@b{", "{x} # {y}",
	`{\'e}`, `{\'{e }}`, `"\url{a }"`, `{\url{a b}}`, `{a{b}`, `{$x}`, `{$x$}`, `"{"}"`, `"}"`, `\`, "'", "~", "@", "$", "12", "a,", "a = b,", ", ,", ",,",
}

var grammarChars = []string{"a", " ", ",", "~", "$", "{", "}", `"`, `\`, `\url`, `\'`, "\n", "1", "-", "i"}

// grammarPrefixes are starts of sources behind which all short sequences of
// words are tried.
var grammarPrefixes = []string{
	"", "@a{", "@a(", "@a{k", "@a{k,", "@a{t =", "@a(k, t = 1", "@a{t = 1,", "@a{}", "@string{", "@string(t =", "@string{t = 1", "@preamble{", `@preamble("x"`, "@a{t = 1 #",
}

// grammarContents are the same for the contents of strings, with what ends them.
var grammarContents = [][2]string{
	{"@a{t = {", "}}"}, {`@a{t = "`, `"}`}, {`@a{url = {`, "}}"}, {`@preamble{{`, "}}"}, {`@a{t = {\url{`, "}}}"}, {`@string(t = "\href{`, `}")`}, {`@a{t = {\"{`, "}}}"}, {`@a{t = "{`, `}"}`}, {`@a{t = "x`, `" # {y}}`}, {"{", "}"}, {`"`, `"`},
}

// tokenTexts cuts a source into tokens and what stands between them.
func tokenTexts(src string, strs bool) []string {
	l := &lexer{src: src, strings: strs}
	l.lex()
	var out []string
	at := 0
	for _, t := range l.toks {
		if t.off > at {
			out = append(out, src[at:t.off])
		}
		out = append(out, src[t.off:t.end])
		at = t.end
	}
	return append(out, src[at:])
}

// mutateTokens changes a few tokens of a source.
func (g G) mutateTokens(src string) string {
	ts := tokenTexts(src, g.chance(40))
	if g.rare(8) && len(ts) > 0 {
		// Many of something in front of what is wrong.
		i := g.n(len(ts))
		run := strings.Join(ts[i:min(len(ts), i+1+g.n(8))], "")
		if g.chance(50) {
			run = pick(g, "t = 1,", "k,", "t = {v}, ", "{a}", "a ", "1 # ", "t = 1, k, ")
		}
		ts[i] = strings.Repeat(run, 2+g.n(40)) + ts[i]
	}
	for n := 1 + g.small(2, 5); n > 0 && len(ts) > 0; n-- {
		i, j := g.n(len(ts)), g.n(len(ts))
		w := pick(g, grammarWords...)
		if g.chance(30) {
			w = pick(g, grammarExtra...)
		} else if g.chance(20) {
			w = g.fragment(stringFragments)
		}
		switch g.n(6) {
		case 0:
			ts[i] = ""
		case 1:
			ts[i] = w
		case 2:
			ts[i] += w
		case 3:
			ts[i], ts[j] = ts[j], ts[i]
		case 4:
			ts[i] += ts[i]
		case 5:
			ts[i] = ts[j]
		}
	}
	return strings.Join(ts, "")
}

func genGrammar(g G) srcCase {
	c := srcCase{Mode: g.modeBits() &^ parser.ParseStrings}
	switch k := g.n(10); {
	case k < 5:
		c.Src = Src(g.mutateTokens(g.printedSource()))
	case k < 7:
		sep := pick(g, "", " ", "\n")
		pre := pick(g, grammarPrefixes...)
		if g.rare(6) {
			pre += sep + strings.Repeat(pick(g, "t = 1,", "k,", "t = {v}, ", "t = {}", "k, t = 1, "), 2+g.n(40))
		}
		c.Src = Src(pre + sep + strings.Join(list(g, 0, 14, func(g G) string {
			if g.chance(25) {
				return pick(g, grammarExtra...)
			}
			return pick(g, grammarWords...)
		}), sep))
	case k < 9:
		w := pick(g, grammarContents...)
		c.Src = Src(w[0] + strings.Join(list(g, 0, 12, func(g G) string {
			if g.chance(50) {
				return g.fragment(stringFragments)
			}
			return pick(g, grammarChars...)
		}), "") + w[1])
	default:
		c.Src = Src(g.anySource())
	}
	return c
}

// sequences returns all sequences of up to n words between two texts.
func sequences(out []srcCase, pre, sep, post string, words []string, n int) []srcCase {
	out = append(out, srcCase{Src: Src(pre + post), Mode: parser.AllErrors * parser.Mode(len(out)&1)})
	if n > 0 {
		for _, w := range words {
			out = sequences(out, pre+sep+w, sep, post, words, n-1)
		}
	}
	return out
}

func enumGrammar() []srcCase {
	var out []srcCase
	for _, p := range grammarPrefixes {
		out = sequences(out, p, " ", "", grammarWords, 4)
	}
	for _, c := range grammarContents {
		out = sequences(out, c[0], "", c[1], grammarChars, 4)
	}
	return out
}

func checkGrammar(c srcCase, o *Obs) error {
	src := string(c.Src)
	for _, m := range []parser.Mode{c.Mode &^ parser.ParseStrings, c.Mode | parser.ParseStrings} {
		why, want, sure := verdict(src, m&parser.ParseStrings != 0)
		if !sure {
			o.Label("unspecified")
			continue
		}
		p := parseAt(src, m, c.Pad)
		switch {
		case why != "" && p.err == nil:
			return fmt.Errorf("mode %s: accepted, but %s", modeName(m), why)
		case why == "" && p.err != nil:
			return fmt.Errorf("mode %s: rejected with %v, but the source follows the grammar", modeName(m), p.err)
		case why == "" && p.file == nil:
			return fmt.Errorf("mode %s: no tree and no error", modeName(m))
		case why == "":
			if d := diff(want, p.tree(), true); d != "" {
				return fmt.Errorf("mode %s: %s", modeName(m), d)
			}
		}
		o.LabelIf(why == "", "accepted")
		o.LabelIf(why != "", "rejected")
	}
	if why, want, sure := exprVerdict(src); sure {
		x, err := parser.ParseExpr(src)
		switch {
		case why != "" && err == nil:
			return fmt.Errorf("expression accepted, but %s", why)
		case why == "" && err != nil:
			return fmt.Errorf("expression rejected with %v, but it follows the grammar", err)
		case why == "" && x == nil:
			return fmt.Errorf("no expression and no error")
		case why == "":
			// Offsets include the '=' that ParseExpr adds.
			if d := diff(want, fromAST(x, 1), true); d != "" {
				return fmt.Errorf("expression: %s", d)
			}
		}
		o.LabelIf(why == "", "expression accepted")
	}
	if strings.TrimSpace(src) != "" {
		o.NonTrivial(src)
	}
	return nil
}

func init() {
	register(Def[srcCase]{
		ID:    "C37",
		Rule:  "sources of any shape, well-formed ones with tokens removed, doubled, swapped and replaced, sequences of tokens, contents of strings, and every sequence of up to four tokens (of 14) or characters (of 15) behind a number of starts, each parsed with and without strings and as an expression; accepted if and only if a reference grammar on a reference lexer accepts it, with the tree it derives; non-trivial: not blank; distinct by source",
		Quick: 700000, Thorough: 20000000,
		Gen: genGrammar, Check: checkGrammar, Enum: enumGrammar,
		FromSrc: fromSrc, Shrink: shrinkSrc,
	})
}
