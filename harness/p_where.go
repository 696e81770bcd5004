package main

// C38: the first error stands where the source stops following the grammar.

import (
	"fmt"

	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/token"
)

// tokFault stands for what isn't a token.
const tokFault token.Token = -1

// fault tells where a source first breaks the grammar.
type fault struct {
	why    string
	lo, hi int // the first error is due from lo to hi
	cut    int // the first lexical fault, or the end
}

// firstFault finds the first fault of a file or an expression.
func firstFault(src string, strs, expr bool) (f fault, sure bool) {
	l := &lexer{src: src, strings: strs}
	l.lex()
	cut := firstBadByte(src)
	if l.err != "" || l.unspec != "" {
		cut = min(cut, l.at)
	}
	g := &grammar{src: src}
	for _, t := range withoutLexComments(l.toks) {
		if t.end > cut {
			cut = min(cut, t.off)
			break
		}
		g.toks = append(g.toks, t)
	}
	if cut < len(src) || l.err != "" || l.unspec != "" {
		g.toks = append(g.toks, lexTok{off: cut, end: len(src), tok: tokFault})
	}
	f.cut = cut
	var t lexTok
	f.why, t = g.read(func() {
		if expr {
			g.i++
			g.value()
			return
		}
		for g.tok() != token.EOF {
			g.decl()
		}
	})
	f.lo, f.hi = t.off, t.off
	switch {
	case t.tok == tokFault:
		f.why, f.hi = l.err+l.unspec, len(src)
		if f.why == "" {
			f.why = "bad byte"
		}
		if n := len(g.toks); n > 1 && (g.toks[n-2].tok == token.Number || g.toks[n-2].tok == token.Ident) {
			f.lo = g.toks[n-2].off // it may be a bad name if '=' comes behind
		}
		return f, l.unspec == ""
	case f.why != "" && t.off == g.toks[0].off:
		f.hi = max(t.off, cut) // what is wrong with the first token ends it all
	}
	return f, true
}

func checkFault(c srcCase, o *Obs) error {
	src := string(c.Src)
	for _, m := range []parser.Mode{parser.AllErrors | c.Mode&^parser.ParseStrings, parser.AllErrors | c.Mode | parser.ParseStrings} {
		f, sure := firstFault(src, m&parser.ParseStrings != 0, false)
		if !sure || f.why == "" {
			continue
		}
		l, ok := errList(parseAt(src, m, c.Pad).err)
		if !ok || len(l) == 0 {
			return fmt.Errorf("mode %s: no error, but %s", modeName(m), f.why)
		}
		if at := l[0].Pos.Offset; at < f.lo || at > f.hi {
			return fmt.Errorf("mode %s: the first error, %v, is at offset %d, but the source first breaks the grammar at %d: %s", modeName(m), l[0], at, f.lo, f.why)
		}
		o.LabelIf(f.hi > f.lo, "lexical")
		o.LabelIf(f.hi == f.lo, "grammar")
		o.NonTrivial(src)
	}

	// What stands behind an expression doesn't matter, apart from the next
	// token. Of the errors of one line, only the one found first is reported,
	// which may be in the next token. The '=' that the parser puts in front of
	// an expression may count or not.
	f, sure := firstFault("="+src, true, true)
	if !sure || f.why == "" {
		return nil
	}
	_, err := parser.ParseExpr(src)
	l, ok := errList(err)
	if !ok || len(l) == 0 {
		return fmt.Errorf("expression: no error, but %s", f.why)
	}
	if at := l[0].Pos.Offset; at+1 < f.lo || at > f.hi && at+1 < f.cut {
		return fmt.Errorf("expression: the first error, %v, is at offset %d, but it first isn't one at %d: %s", l[0], at, f.lo-1, f.why)
	}
	o.Label("expression")
	return nil
}

func init() {
	register(Def[srcCase]{
		ID:    "C38",
		Rule:  "the sources of C37: well-formed ones with tokens mixed, token and character sequences, sources of any shape, as files with and without string parsing and as expressions; the first of all errors is compared with the first token that can't stand where it is, by the reference grammar on the reference lexer; non-trivial: a file that breaks the grammar in a mode; distinct by source",
		Quick: 700000, Thorough: 20000000,
		Gen: genGrammar, Check: checkFault, Enum: enumGrammar,
		FromSrc: fromSrc, Shrink: shrinkSrc,
	})
}
