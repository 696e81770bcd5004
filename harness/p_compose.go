package main

// C31, C32 and C33: declarations, expressions and string contents mean the
// same wherever they stand.

import (
	"fmt"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

// skipLayout returns what follows leading white space and comments.
func skipLayout(s string) string {
	for {
		t := strings.TrimLeft(s, " \t\r\n")
		if strings.HasPrefix(t, "%") {
			if i := strings.IndexByte(t, '\n'); i >= 0 {
				t = t[i+1:]
			} else {
				t = ""
			}
		}
		if t == s {
			return s
		}
		s = t
	}
}

// ----------------------------------------------------------------------------
// C31

type afterCase struct {
	A, B Src
	Sep  string
	Mode parser.Mode
}

func genAfter(g G) afterCase {
	c := afterCase{Mode: g.modeBits() &^ parser.Trace, Sep: pick(g, "\n\n", "\n \n", "\n\t\r\n\n", "\n\n\n\n")}
	if g.chance(60) {
		c.Mode |= parser.ParseStrings
	}
	switch g.n(5) {
	case 0:
		c.A = Src(g.anySource())
	case 1:
		c.A = Src(strings.Join(list(g, 1, 4, func(g G) string {
			return pick(g, "@a{}", "@misc{k, x = 1}", "@string{a = b # {c}}", "@preamble{{x}}", "@misc(1, t = \"a {\\\"} b\")", "@a{b},", "@b{\n%c\nk}", "% c\n", "%c\n@x{y}", "@PREAMBLE(x # y)", "@misc{k, t = {\\url{x}}}", "@misc{k, t = {$a$}, u = \"\\'e\"}")
		}), ""))
	default:
		c.A = Src(g.printedSource())
	}
	switch g.n(4) {
	case 0:
		c.B = Src(g.printedSource())
	case 1:
		c.B = Src(g.soup([]string{"@misc{k, = }", "@misc{k, a b}\n", "@misc{k, x = }", "@misc{1, 2 = {}}\n", "@string{x}", "\n", "@misc k}", "@book{,}\n", "@misc{k, a = {x}}", "x", "% c\n", "\x00\n", "@", "{", "@comment\n"}, 1, 16))
	default:
		c.B = Src(g.anySource())
	}
	return c
}

func checkAfter(c afterCase, o *Obs) error {
	a, b := string(c.A)+c.Sep, string(c.B)
	if r := skipLayout(b); strings.HasPrefix(r, ",") || strings.HasPrefix(b, "\ufeff") {
		return nil // a trailing comma of the last entry, or a byte-order mark
	}
	pa := parseAt(string(c.A), c.Mode, 0)
	if pa.err != nil {
		o.Label("rejected")
		return nil
	}
	pb, pc := parseAt(b, c.Mode, 0), parseAt(a+b, c.Mode, 0)
	if len(pa.file.Entries) > 0 && strings.TrimSpace(b) != "" {
		o.NonTrivial(string(c.A), b, modeName(c.Mode))
	}
	o.LabelIf(pb.err == nil, "both accepted")
	o.LabelIf(pb.err != nil, "second part rejected")

	// Errors.
	eb, _ := errList(pb.err)
	ec, _ := errList(pc.err)
	lines := strings.Count(a, "\n")
	left := map[string]int{}
	for _, e := range ec {
		if e.Pos.Offset < len(a) {
			return fmt.Errorf("error %v is in the first part, which is accepted alone", e)
		}
		left[fmt.Sprint(e.Pos.Line-lines, e.Pos.Column, e.Msg)]++
	}
	for _, e := range eb {
		k := fmt.Sprint(e.Pos.Line, e.Pos.Column, e.Msg)
		if left[k] == 0 {
			return fmt.Errorf("error %v of the second part is not reported (shifted by %d lines) behind the first part: %s", e, lines, errText(pc.err))
		}
		left[k]--
	}
	// A source with an error in the first token isn't parsed any further.
	unread := pb.err != nil && len(pb.file.Entries) == 0
	o.LabelIf(unread, "second part not parsed")
	if len(ec) != len(eb) && !unread {
		return fmt.Errorf("errors alone %s, behind the first part %s", errText(pb.err), errText(pc.err))
	}
	if pc.err != nil && len(pc.file.Entries) == 0 && c.Mode&parser.AllErrors == 0 && len(ec) > 10 {
		o.Label("too many errors")
		return nil
	}

	// Declarations.
	n := len(pa.file.Entries)
	if len(pc.file.Entries) < n {
		return fmt.Errorf("%d declarations, but %d in the first part alone", len(pc.file.Entries), n)
	}
	if got, want := dump(pc.file.Entries[:n], pc.base), dump(pa.file.Entries, pa.base); got != want {
		return fmt.Errorf("the declarations before it change: %s", firstDiff(got, want))
	}
	if unread {
		return nil
	}
	if got, want := dump(pc.file.Entries[n:], pc.base+len(a)), dump(pb.file.Entries, pb.base); got != want {
		return fmt.Errorf("the declarations change behind others: %s", firstDiff(got, want))
	}
	if c.Mode&parser.ParseComments != 0 && pb.err == nil {
		m := len(pa.file.Comments)
		if len(pc.file.Comments) != m+len(pb.file.Comments) {
			return fmt.Errorf("%d comment groups, %d and %d in the parts", len(pc.file.Comments), m, len(pb.file.Comments))
		}
		if got, want := dump(pc.file.Comments[m:], pc.base+len(a)), dump(pb.file.Comments, pb.base); got != want {
			return fmt.Errorf("comments change: %s", firstDiff(got, want))
		}
	}
	return nil
}

// ----------------------------------------------------------------------------
// C32

type whereCase struct {
	Expr Src
	Mode parser.Mode
	Pre  string // tags or declarations before it
}

func genExprText(g G) string {
	one := func(g G) string {
		switch g.n(8) {
		case 0, 1:
			o := g.str(strCfg{all: g.chance(50)})
			return o.source()
		case 2:
			return "{" + g.soup(stringFragments, 0, 8) + "}"
		case 3:
			return `"` + g.soup(stringFragments, 0, 8) + `"`
		case 4:
			return pick(g, "1", "2004", "007", "0", "12345678901234567890", "1a", "1.2", "-1")
		case 5:
			return pick(g, "a", "jan", "x_y", "string", "preamble", "comment", "é", "a.b/c:d", "-", "$x", "_")
		case 6:
			return pick(g, "{}", `""`, "{{}}", "{{a} b}", `"{\"a}"`, `{"}`, "{,}", "{=}", "{#}", "{@a{b}}", "{%}", "{% c\n}", "{\r\n}")
		}
		return g.soup(fragments, 0, 4)
	}
	ws := func(g G) string { return pick(g, "", "", " ", "\n", "\t ", "%c\n", " % {\n") }
	s := ws(g)
	for i, n := 0, 1+g.small(2, 8); i < n; i++ {
		if i > 0 {
			s += ws(g) + "#" + ws(g)
		}
		s += one(g)
	}
	s += ws(g)
	if g.rare(300) {
		// A long concatenation.
		s = strings.Repeat(s+"\n#", 20+g.n(400)) + s
	}
	if g.chance(10) {
		s = g.mutate(s, 1)
	}
	return s
}

func genWhere(g G) whereCase {
	c := whereCase{Expr: Src(genExprText(g)), Mode: g.modeBits() &^ parser.Trace}
	if g.chance(65) {
		c.Mode |= parser.ParseStrings
	}
	c.Pre = pick(g, "a = 1, ", "k, a = {x}, ", "k2, ", `k, b = "y" # z, c = {{}}, `, "a = b\n", "%c\nk,")
	return c
}

// exprIn parses an expression between pre and post and returns it, if it is
// exactly what stands there.
func exprIn(pre, expr, post string, mode parser.Mode, find func(*ast.File) ast.Expr) (ast.Expr, int, error) {
	src := pre + expr + post
	p := parseAt(src, mode, 0)
	if p.err != nil {
		return nil, 0, p.err
	}
	x := find(p.file)
	if x == nil {
		return nil, 0, fmt.Errorf("other declarations, tags or keys")
	}
	end := int(x.End()) - p.base
	if end > len(pre+expr) || skipLayout(expr[end-len(pre):]) != "" {
		return nil, 0, fmt.Errorf("the expression ends earlier")
	}
	return x, p.base + len(pre), nil
}

func checkWhere(c whereCase, o *Obs) error {
	e := string(c.Expr)
	if strings.LastIndexByte(e, '%') > strings.LastIndexByte(e, '\n') {
		e += "\n" // the end of a comment, not of the expression's neighbour
	}
	// tagOf finds the last tag if there are so many of tags and keys in the
	// last of so many declarations.
	tagOf := func(decls, tags, keys int) func(*ast.File) ast.Expr {
		return func(f *ast.File) ast.Expr {
			if len(f.Entries) != decls {
				return nil
			}
			d, ok := f.Entries[decls-1].(*ast.BibDecl)
			if !ok || len(d.Tags) != tags {
				return nil
			}
			n := len(d.ExtraKeys)
			if d.Key != nil {
				n++
			}
			if n != keys {
				return nil
			}
			return d.Tags[tags-1].Value
		}
	}
	abbrev := func(f *ast.File) ast.Expr {
		if len(f.Entries) != 1 {
			return nil
		}
		d, ok := f.Entries[0].(*ast.AbbrevDecl)
		if !ok || d.Tag == nil {
			return nil
		}
		return d.Tag.Value
	}
	preamble := func(f *ast.File) ast.Expr {
		if len(f.Entries) != 1 {
			return nil
		}
		d, ok := f.Entries[0].(*ast.PreambleDecl)
		if !ok {
			return nil
		}
		return d.Text
	}
	// How many tags and keys Pre has.
	pf := parseAt("@misc{"+c.Pre+"}", 0, 0)
	if pf.err != nil {
		return nil
	}
	pd := pf.file.Entries[0].(*ast.BibDecl)
	keys := len(pd.ExtraKeys)
	if pd.Key != nil {
		keys++
	}
	places := []struct {
		pre, post string
		find      func(*ast.File) ast.Expr
	}{
		{"@misc{k, t = ", "}", tagOf(1, 1, 1)},
		{"@misc{k, t=", "}", tagOf(1, 1, 1)},
		{"@misc(k, t = ", ")", tagOf(1, 1, 1)},
		{"@misc{t = ", ", k}", tagOf(1, 1, 1)},
		{"@misc(k, t = ", ", )", tagOf(1, 1, 1)},
		{"@misc{" + c.Pre + "author = ", "}", tagOf(1, 1+len(pd.Tags), keys)},
		{"@misc(" + c.Pre + "X-y = ", ")", tagOf(1, 1+len(pd.Tags), keys)},
		{"@misc{" + c.Pre + "}\n@A{k,title\n=\n", "\n}", tagOf(2, 1, 1)},
		{"@string{s = ", "}", abbrev},
		{"@string(s = ", ")", abbrev},
		{"@STRING{url = ", "}", abbrev},
		{"@preamble{", "}", preamble},
		{"@preamble(", ")", preamble},
		{"@PREAMBLE {", "}", preamble},
	}
	var want string
	var ref error
	for i, p := range places {
		x, base, err := exprIn(p.pre, e, p.post, c.Mode, p.find)
		got := ""
		if err == nil {
			got = dump(x, base)
		}
		if i == 0 {
			want, ref = got, err
			if err == nil {
				o.NonTrivial(e, modeName(c.Mode&parser.ParseStrings))
				o.Label(fmt.Sprintf("%T", x))
			} else {
				o.Label("not an expression")
			}
			if err == nil && c.Mode&parser.ParseStrings != 0 {
				y, err := parser.ParseExpr(e)
				if err != nil {
					return fmt.Errorf("%q is a value, but not an expression: %w", e, err)
				}
				// Behind the file's base and the '=' that ParseExpr adds.
				if alone := dump(y, 2); alone != want {
					return fmt.Errorf("%q alone differs from the value of a tag: %s", e, firstDiff(alone, want))
				}
			}
			continue
		}
		switch {
		case (err == nil) != (ref == nil):
			return fmt.Errorf("%q in %s...%s: %v, in %s...%s: %v", e, p.pre, p.post, err, places[0].pre, places[0].post, ref)
		case got != want:
			return fmt.Errorf("%q in %s...%s and %s...%s: %s", e, p.pre, p.post, places[0].pre, places[0].post, firstDiff(got, want))
		}
	}
	return nil
}

// ----------------------------------------------------------------------------
// C33

type besideCase struct {
	A, B Src
	Sep  string
}

func genBeside(g G) besideCase {
	content := func(g G) Src {
		if g.chance(40) {
			o := g.str(strCfg{all: true})
			s := o.source()
			return Src(s[1 : len(s)-1])
		}
		return Src(g.soup(stringFragments, 0, 6))
	}
	return besideCase{A: content(g), B: content(g), Sep: pick(g, " ", ",", "~", "{}", "$$", `\&`, "\n", "{x}", "$y$")}
}

// contents parses contents between delimiters and returns the parts, if the
// delimiters are those of the whole string.
func contents(open, s, end string) ([]ast.Expr, bool) {
	x, err := parser.ParseExpr(open + s + end)
	if err != nil {
		return nil, false
	}
	t, ok := x.(*ast.ParsedText)
	if !ok || int(t.End())-2 != len(open+s+end) {
		return nil, false
	}
	return t.Values, true
}

// at returns the dump of parts with positions relative to offset.
func partsAt(xs []ast.Expr, offset int) string { return dump(xs, 2+offset) }

func checkBeside(c besideCase, o *Obs) error {
	a, b := string(c.A), string(c.B)
	if c.Sep == " " || c.Sep == "\n" {
		a, b = strings.TrimRight(a, " \t\r\n"), strings.TrimLeft(b, " \t\r\n")
	}
	// A dotless letter without a group is one only at the end of a group.
	if strings.HasSuffix(a, `\i`) || strings.HasSuffix(a, `\j`) {
		return nil
	}
	va, ok1 := contents("{", a, "}")
	vb, ok2 := contents("{", b, "}")
	if !ok1 {
		o.Label("rejected")
		return nil
	}
	if len(va) > 0 {
		o.NonTrivial(a, b, c.Sep)
	}
	// In a group.
	for _, s := range []struct{ open, end string }{{"{{", "}}"}, {`"{`, `}"`}} {
		vg, ok := contents(s.open[:1], "{"+a+"}", s.end[1:])
		if !ok || len(vg) != 1 {
			return fmt.Errorf("%q is a string's contents, but not a group's in %s...%s", a, s.open, s.end)
		}
		g, ok := vg[0].(*ast.ParsedText)
		if !ok {
			return fmt.Errorf("%q in %s...%s: no group", a, s.open, s.end)
		}
		if g.Depth != 1 || g.Delim != ast.BraceDelimiter {
			return fmt.Errorf("%q in %s...%s: group of depth %d with %s", a, s.open, s.end, g.Depth, g.Delim)
		}
		if d := diffParts(va, g.Values, 1, 2, 1); d != "" {
			return fmt.Errorf("%q in %s...%s: %s", a, s.open, s.end, d)
		}
	}
	// In quotes.
	if vq, ok := contents(`"`, a, `"`); ok {
		// A quote at depth 0 would have ended it.
		o.Label("in quotes, too")
		if d := diffParts(va, vq, 1, 1, 0); d != "" {
			return fmt.Errorf("%q in quotes: %s", a, d)
		}
	} else if !strings.Contains(a, `"`) {
		return fmt.Errorf("%q is a string's contents in braces, but not in quotes", a)
	}
	if !ok2 {
		return nil
	}
	o.Label("two parts")
	// Next to others.
	ab := a + c.Sep + b
	vab, ok := contents("{", ab, "}")
	if !ok {
		return fmt.Errorf("%q and %q are strings' contents, but not together with %q", a, b, c.Sep)
	}
	if len(vab) != len(va)+1+len(vb) {
		return fmt.Errorf("%q has %d parts, %q %d, together with %q %d", a, len(va), b, len(vb), c.Sep, len(vab))
	}
	if d := diffParts(va, vab[:len(va)], 1, 1, 0); d != "" {
		return fmt.Errorf("%q before %q: %s", a, c.Sep, d)
	}
	if d := diffParts(vb, vab[len(va)+1:], 1, 1+len(a+c.Sep), 0); d != "" {
		return fmt.Errorf("%q behind %q: %s", b, a+c.Sep, d)
	}
	return nil
}

// diffParts compares parts at one offset with parts at another, where groups
// are deeper by some levels.
func diffParts(want, got []ast.Expr, offWant, offGot, deeper int) string {
	w, g := &ast.ParsedText{Values: want}, &ast.ParsedText{Values: got}
	if deeper != 0 {
		for _, v := range got {
			addDepth(v, -deeper)
		}
		defer func() {
			for _, v := range got {
				addDepth(v, deeper)
			}
		}()
	}
	if a, b := partsAt(w.Values, offWant), partsAt(g.Values, offGot); a != b {
		return firstDiff(b, a)
	}
	return ""
}

func addDepth(x ast.Expr, n int) {
	switch t := x.(type) {
	case *ast.ParsedText:
		t.Depth += n
		for _, v := range t.Values {
			addDepth(v, n)
		}
	case *ast.TextMacro:
		for _, v := range t.Values {
			addDepth(v, n)
		}
	}
}

// ----------------------------------------------------------------------------
// C34

// companyCase is a list of names; each is a list of words.
type companyCase struct {
	Names  [][]Src
	Spaces []string // between words, in order, repeated
	Ends   [2]string
	Quote  bool
}

var wordSpaces = []string{" ", "~", "\n", "  ", "\t", " \r\n "}

func genCompany(g G) companyCase {
	c := companyCase{Quote: g.chance(40)}
	word := func(g G) Src {
		switch g.n(12) {
		case 0, 1, 2, 3, 4:
			return Src(pick(g, "Donald", "von", "de", "la", "Knuth", "E.", "A", "x", "others", "Jr.", "III", "Knuth,", "von,", "Jr,", ",", "And", "O'Neil", "Ångström", "ångström", "é", "X,Y", "McX", "Doe", "Ann", "Müller", "a", "B", "and"))
		case 5, 6, 7, 8, 9:
			return Src(pick(g, "{von}", "{Von der}", "{and}", "{A and B}", "{, }", "{\\'e}cole", "{\\'E}cole", "\\'Ecole", "\\'ecole", "\\emph{x}", "\\&", "{\\& Co.}", "$x$", "d'{A}", "{}", "{ }", "\\c{c}a", "\\url{x~y}", "{{a} b}", "{x}y", "y{x}"))
		case 10:
			p := g.pieces(strCfg{renderable: true}, piecesCtx{group: true}, 3)
			o := Op{K: "str", Pieces: p}
			s := o.source()
			return Src(s[1 : len(s)-1])
		}
		return Src(strings.Trim(g.soup(stringFragments, 1, 3), " \t\r\n"))
	}
	few := 1
	if g.rare(10) {
		few = 0
	}
	c.Names = list(g, 1, 4, func(g G) []Src { return list(g, few, 5, word) })
	if g.rare(400) {
		for again := c.Names; len(c.Names) < 33+g.n(200); {
			c.Names = append(c.Names, again...)
		}
	}
	c.Spaces = list(g, 1, 6, func(g G) string { return wordSpaces[g.n(len(wordSpaces))] })
	c.Ends = [2]string{pick(g, "", "", " ", "~", "\n "), pick(g, "", "", " ", "~", " \n")}
	return c
}

// extractFrom extracts the authors of a string with the contents s.
func extractFrom(s string, quote bool) (ast.Authors, error) {
	open, end := "{", "}"
	if quote {
		open, end = `"`, `"`
	}
	x, err := parser.ParseExpr(open + s + end)
	if err != nil {
		return nil, fmt.Errorf("parse: %w", err)
	}
	return bibtex.ExtractAuthors(x.(*ast.ParsedText))
}

func checkCompany(c companyCase, o *Obs) error {
	var names []string // each with single spaces
	for _, n := range c.Names {
		for _, w := range n {
			s := string(w)
			if strings.HasSuffix(s, `\i`) || strings.HasSuffix(s, `\j`) {
				return nil
			}
			vs, ok := contents("{", s, "}")
			if !ok || len(vs) == 0 {
				o.Label("odd word")
				return nil
			}
			if c.Quote {
				if _, ok := contents(`"`, s, `"`); !ok {
					o.Label("odd word")
					return nil
				}
			}
			for _, j := range []int{0, len(vs) - 1} {
				switch vs[j].(type) {
				case *ast.TextSpace, *ast.TextNBSP:
					return nil // spaces that meet
				}
			}
		}
		ws := make([]string, len(n))
		for i, w := range n {
			ws[i] = string(w)
		}
		names = append(names, strings.Join(ws, " "))
	}
	// Each name alone.
	want, failed := "", ""
	total := 0
	for _, n := range names {
		as, err := extractFrom(n, false)
		if err != nil {
			failed = fmt.Sprintf("%q alone: %v", n, err)
			continue
		}
		total += len(as)
		for _, a := range as {
			want += dump(a, -1)
		}
	}
	o.LabelIf(failed != "", "a name that fails")
	o.LabelIf(total > 1, "several names")
	if failed == "" && total > 1 {
		o.NonTrivial(names...)
	}
	// All together, with single spaces and with others.
	i := 0
	space := func(odd bool) string {
		i++
		if !odd {
			return " "
		}
		return c.Spaces[i%len(c.Spaces)]
	}
	for _, odd := range []bool{false, true} {
		i = 0
		var parts []string
		for _, n := range c.Names {
			s := ""
			for j, w := range n {
				if j > 0 {
					s += space(odd)
				}
				s += string(w)
			}
			parts = append(parts, s)
		}
		s := ""
		for j, p := range parts {
			if j > 0 {
				s += space(odd) + "and" + space(odd)
			}
			s += p
		}
		if odd {
			s = c.Ends[0] + s + c.Ends[1]
		}
		as, err := extractFrom(s, c.Quote)
		if failed != "" {
			if err == nil {
				return fmt.Errorf("authors of %q extracted, but %s", s, failed)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("authors of %q: %w, but each of %q is fine", s, err, names)
		}
		got := ""
		for _, a := range as {
			got += dump(a, -1)
		}
		if got != want {
			return fmt.Errorf("authors of %q differ from those of %q: %s", s, names, firstDiff(got, want))
		}
	}
	return nil
}

func init() {
	register(Def[afterCase]{
		ID:    "C31",
		Rule:  "an accepted source and any other one, parsed alone and one behind the other; non-trivial: the first has a declaration and the second isn't blank; distinct by both and mode",
		Quick: 300000, Thorough: 12000000,
		Gen: genAfter, Check: checkAfter,
	})
	register(Def[whereCase]{
		ID:    "C32",
		Rule:  "expressions (printed ones, random operands, broken ones) parsed alone and in 14 places of declarations; non-trivial: an expression as the value of a tag; distinct by text and string mode",
		Quick: 150000, Thorough: 6000000,
		Gen: genWhere, Check: checkWhere,
	})
	register(Def[besideCase]{
		ID:    "C33",
		Rule:  "contents of strings (printed ones and random fragments), alone, in groups, in quotes and next to others; non-trivial: accepted with at least one part; distinct by both contents and separator",
		Quick: 400000, Thorough: 15000000,
		Gen: genBeside, Check: checkBeside,
	})
	register(Def[companyCase]{
		ID:    "C34",
		Rule:  "lists of names made from documented and odd words, extracted one by one and joined by 'and' with other white space and delimiters; non-trivial: several names, all extracted; distinct by names",
		Quick: 200000, Thorough: 8000000,
		Gen: genCompany, Check: checkCompany,
	})
}
