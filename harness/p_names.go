package main

// C18 and C19: author names.

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

// Word is a word of a name: constructs without white space and commas outside
// of groups.
type Word struct {
	Ps    []Piece
	Lower bool // starts with a lower-case letter
}

// nameText renders the constructs of a name. Escapes keep their backslash.
func nameText(ps []Piece, sb *strings.Builder) {
	for i := range ps {
		switch p := &ps[i]; p.K {
		case "text":
			sb.WriteString(p.S)
		case "esc":
			sb.WriteString(`\` + p.S)
		case "space", "nbsp":
			sb.WriteString(" ")
		case "comma":
			sb.WriteString(",")
		case "math":
			sb.WriteString("$" + p.S + "$")
		case "accent":
			sb.WriteString(composed(p.M[0], rune(p.S[0])))
		case "url":
			sb.WriteString(p.S)
		case "group":
			nameText(p.Kids, sb)
		}
	}
}

// Part is the words of a part of a name with what separates them.
type Part struct {
	Words []Word
	Seps  [][]Piece // Seps[i] stands before Words[i+1]
}

func (p *Part) pieces() []Piece {
	var out []Piece
	for i, w := range p.Words {
		if i > 0 {
			out = append(out, p.Seps[i-1]...)
		}
		out = append(out, w.Ps...)
	}
	return out
}

// Name is one person. The lists are separated by a space when both hold words.
type Name struct {
	Form                        int // 0: First von Last; 1: von Last, First; 2: von Last, Suffix, First
	First, Prefix, Last, Suffix Part
	Joins                       [][]Piece // between the parts
	Pre, Post                   []Piece   // white space around
	Tight                       bool      `json:",omitempty"` // an empty name at an end has no white space next to it
}

type namesCase struct {
	Hand  *[4]int `json:",omitempty"` // an author built by hand: see handPart
	Built string  `json:",omitempty"` // a field built by hand: see builtField
	Names []Name
	Quote bool
	Field string // tag name
	Upper bool   // spelled in upper case
}

var upperWords = []string{
	"Knuth", "Donald", "A", "X.", "E.", "Last", "First", "Jean-Paul", "O'Neil", "McDonald", "And", "AND", "Others", "Von", "Émile", "Ångström", "Ünal", "Ōe", "Λ",
	"D'Arcy", "Smith", "II", "III", "Jr.", "Wu", "Dr", "USA", "Éa", "Żak", "Ив", "Bandand", "Inc", "X&Y"[:1], "Z", "Peter", "Poussin",
}

var lowerWords = []string{
	"von", "der", "de", "la", "van", "den", "af", "bin", "zu", "d'Arc", "al-Din", "others", "andy", "band", "an", "nd", "a", "élan", "ñu", "øst", "ß", "du", "jr", "x",
}

// word generates a word.
func (g G) word(lower bool) Word {
	w := Word{Lower: lower}
	text := func() string {
		if w, ok := g.novel(func(s string) bool {
			return isWordText(s) && unicode.IsLower(firstRune(s)) == lower && unicode.IsUpper(firstRune(s)) == !lower
		}); ok {
			return w
		}
		if lower {
			return lowerWords[g.n(len(lowerWords))]
		}
		return upperWords[g.n(len(upperWords))]
	}
	accent := func(lower bool) Piece {
		for {
			p := g.accent(strCfg{renderable: true})
			if (p.S >= "a") == lower {
				return p
			}
			if g.chance(50) {
				// Shrinking must end.
				p.M, p.S = "'", "E"
				if lower {
					p.S = "e"
				}
				return p
			}
		}
	}
	switch k := g.n(16); {
	case k <= 8:
		w.Ps = []Piece{{K: "text", S: text()}}
	case k == 9:
		w.Ps = []Piece{{K: "text", S: text()}, accent(g.chance(50))}
		if g.chance(60) {
			w.Ps = append(w.Ps, Piece{K: "text", S: pick(g, "nal", "ch", "e-X", "s", "and")})
		}
	case k == 10:
		w.Ps = []Piece{accent(lower), {K: "text", S: pick(g, "mile", "X", "n-y", "and", "z")}}
	case k == 11:
		// An accent in a group has a case.
		grp := []Piece{accent(lower)}
		if g.chance(30) {
			grp = append(grp, Piece{K: "text", S: "rt"})
		}
		w.Ps = []Piece{{K: "group", Kids: fixPieces(grp, strCfg{}, piecesCtx{group: true})}}
		if g.chance(70) {
			w.Ps = append(w.Ps, Piece{K: "text", S: pick(g, "sted", "Mile", "ne-")})
		}
	case k == 12:
		w.Ps = []Piece{{K: "text", S: text()}, {K: "group", Kids: g.nameGroup(2)}}
		if g.chance(50) {
			w.Ps = append(w.Ps, Piece{K: "text", S: pick(g, "x", "Y", "and")})
		}
	case k == 13:
		w.Ps = []Piece{{K: "text", S: text()}, {K: "esc", S: pick(g, "&", "%", "_", "#", "$", `\`, "{", "}")}}
		if g.chance(50) {
			w.Ps = append(w.Ps, Piece{K: "text", S: pick(g, "Co", "x")})
		}
	case k == 14:
		w.Ps = []Piece{{K: "text", S: text()}, pick(g, Piece{K: "macro", S: "LaTeX"}, Piece{K: "math", S: "x"}, Piece{K: "macro", S: "o"})}
		if g.chance(50) {
			w.Ps = append(w.Ps, Piece{K: "group", Kids: g.nameGroup(1)})
		}
	default:
		if lower {
			w.Ps = []Piece{{K: "text", S: text()}}
			break
		}
		// Groups, escapes, macros and math have no case.
		switch g.n(5) {
		case 0, 1, 2:
			w.Ps = []Piece{{K: "group", Kids: g.nameGroup(3)}}
		case 3:
			w.Ps = []Piece{{K: "macro", S: pick(g, "L", "noopsort", "AA")}, {K: "group", Kids: g.nameGroup(2)}}
		case 4:
			w.Ps = []Piece{pick(g, Piece{K: "math", S: "n"}, Piece{K: "esc", S: "&"}, Piece{K: "group"}), {K: "text", S: text()}}
		}
	}
	if g.rare(20) {
		// The word and, but not on its own.
		w = Word{Lower: true, Ps: []Piece{{K: "text", S: "and"}, {K: "group"}}}
		if !lower {
			w = Word{Ps: []Piece{{K: "group"}, {K: "text", S: "and"}}}
		}
	}
	w.Ps = fixPieces(w.Ps, strCfg{}, piecesCtx{quote: true})
	return w
}

// nameGroup generates the inside of a group that doesn't start with an accent.
func (g G) nameGroup(n int) []Piece {
	var out []Piece
	for i := 0; i <= g.n(n+1); i++ {
		switch g.n(10) {
		case 0, 1, 2, 3:
			if w, ok := g.novel(isWordText); ok {
				out = append(out, Piece{K: "text", S: w})
				break
			}
			out = append(out, Piece{K: "text", S: pick(g, "Barnes", "von", "Noble", "x", "Inc.", "A-B", "and")})
		case 4:
			out = append(out, Piece{K: "text", S: "A"}, Piece{K: "space", S: " "}, Piece{K: "text", S: "and"}, Piece{K: "space", S: g.spaces()}, Piece{K: "text", S: "b"})
		case 5:
			out = append(out, Piece{K: "text", S: "Co"}, Piece{K: "comma"}, Piece{K: "space", S: " "}, Piece{K: "text", S: "Inc"})
		case 6:
			out = append(out, Piece{K: "text", S: "Z"}, g.accent(strCfg{renderable: true}))
		case 7:
			kids := g.nameGroup(0)
			if g.chance(30) {
				// Only an accent at the start of the outermost group has a case.
				kids = fixPieces(append([]Piece{g.accent(strCfg{renderable: true})}, kids...), strCfg{}, piecesCtx{group: true})
			}
			out = append(out, Piece{K: "group", Kids: kids})
		case 8:
			out = append(out, Piece{K: "macro", S: "LaTeX"}, Piece{K: "nbsp"}, Piece{K: "esc", S: "&"})
		case 9:
			out = append(out, Piece{K: "text", S: "q"}, Piece{K: "math", S: "x, and y"})
		}
	}
	return fixPieces(out, strCfg{}, piecesCtx{group: true})
}

// sep generates what separates words.
func (g G) sep() []Piece {
	switch k := g.n(12); {
	case k <= 7:
		return []Piece{{K: "space", S: " "}}
	case k == 8:
		return []Piece{{K: "nbsp"}}
	case k == 9:
		return []Piece{{K: "space", S: g.spaces()}, {K: "nbsp"}}
	}
	return []Piece{{K: "space", S: g.spaces()}}
}

func (g G) optSep() []Piece {
	if g.chance(60) {
		return []Piece{{K: "space", S: " "}}
	}
	if g.chance(50) {
		return nil
	}
	return g.sep()
}

func (g G) part(lo, hi int, word func(g G) Word) Part {
	p := Part{Words: list(g, lo, hi, word)}
	for i := 1; i < len(p.Words); i++ {
		p.Seps = append(p.Seps, g.sep())
	}
	return p
}

func upperWord(g G) Word { return g.word(false) }
func lowerWord(g G) Word { return g.word(true) }

func genName(g G) Name {
	anyWord := func(g G) Word { return g.word(g.chance(40)) }
	n := Name{}
	long := 3
	if g.rare(40) {
		long = 12
	}
	switch k := g.n(10); {
	case k <= 4: // First von Last
		switch g.n(4) {
		case 0: // a last name alone
			n.Last = g.part(1, 1, anyWord)
		case 1:
			n.First = g.part(1, long, upperWord)
			n.Last = g.part(1, 1, anyWord)
		default:
			n.First = g.part(1, long, upperWord)
			n.Prefix = g.part(1, long, lowerWord)
			if g.chance(30) {
				n.Last = g.part(1, 1, lowerWord)
			} else {
				n.Last = g.part(1, long, upperWord)
			}
		}
		n.Joins = [][]Piece{g.sep(), g.sep()}
	default: // with commas
		n.Form = 1
		if g.chance(60) {
			n.Prefix = g.part(0, long, lowerWord)
		}
		if g.chance(25) {
			n.Last = g.part(1, 1, anyWord)
		} else {
			n.Last = g.part(1, long, upperWord)
		}
		n.First = g.part(0, long, anyWord)
		n.Joins = [][]Piece{g.sep(), g.optSep(), g.optSep(), g.optSep(), g.optSep()}
		if k >= 8 {
			n.Form = 2
			n.Suffix = g.part(0, 2, anyWord)
			if g.rare(12) && len(n.First.Words) > 1 {
				// More commas belong to the first name.
				for i := range n.First.Seps {
					if i == 0 || g.chance(40) {
						n.First.Seps[i] = append([]Piece{{K: "comma"}}, n.First.Seps[i]...)
					}
				}
			}
		}
	}
	if k, ok := g.size(300); ok && len(n.First.Words) > 0 {
		for len(n.First.Words) < k {
			n.First.Words = append(n.First.Words, Word{Ps: []Piece{{K: "text", S: "F"}}})
			n.First.Seps = append(n.First.Seps, []Piece{{K: "space", S: " "}})
		}
	}
	n.Pre, n.Post = []Piece{}, []Piece{}
	if g.chance(10) {
		n.Pre = g.optSep()
	}
	if g.chance(10) {
		n.Post = g.optSep()
	}
	return n
}

// pieces returns the source of a name.
func (n *Name) pieces() []Piece {
	var out []Piece
	add := func(ps ...Piece) { out = append(out, ps...) }
	join := func(i int) {
		if i < len(n.Joins) {
			add(n.Joins[i]...)
		}
	}
	if n.Form == 0 {
		add(n.First.pieces()...)
		if len(n.First.Words) > 0 && len(n.Prefix.Words)+len(n.Last.Words) > 0 {
			join(0)
		}
		add(n.Prefix.pieces()...)
		if len(n.Prefix.Words) > 0 && len(n.Last.Words) > 0 {
			join(1)
		}
		add(n.Last.pieces()...)
		return out
	}
	add(n.Prefix.pieces()...)
	if len(n.Prefix.Words) > 0 {
		join(0)
	}
	add(n.Last.pieces()...)
	join(1)
	add(Piece{K: "comma"})
	join(2)
	if n.Form == 2 {
		add(n.Suffix.pieces()...)
		join(3)
		add(Piece{K: "comma"})
		join(4)
	}
	add(n.First.pieces()...)
	return out
}

// bad tells that a name is outside of the forms that are described. Shrinking
// can't make one, but replay files are data.
func (n *Name) bad() bool {
	for _, p := range []Part{n.First, n.Prefix, n.Last, n.Suffix} {
		if len(p.Words) > 0 && len(p.Seps) != len(p.Words)-1 {
			return true
		}
	}
	return false
}

// onePart is the text of a part.
func (p *Part) text() string {
	sb := &strings.Builder{}
	nameText(p.pieces(), sb)
	return sb.String()
}

func trimBlanks(s string) string { return strings.Trim(s, " ") }

func (c *namesCase) op() Op {
	o := Op{K: "str", Quote: c.Quote}
	for i := range c.Names {
		n := &c.Names[i]
		ps := n.pieces()
		if i > 0 {
			// White space around the separator.
			pre, post := c.Names[i-1].Post, n.Pre
			if len(pre) == 0 && !(c.Names[i-1].Tight && i == 1) {
				pre = []Piece{{K: "space", S: " "}}
			}
			if len(post) == 0 && !(n.Tight && i == len(c.Names)-1) {
				post = []Piece{{K: "space", S: " "}}
			}
			o.Pieces = append(o.Pieces, pre...)
			o.Pieces = append(o.Pieces, Piece{K: "text", S: "and"})
			o.Pieces = append(o.Pieces, post...)
		} else {
			o.Pieces = append(o.Pieces, n.Pre...)
		}
		o.Pieces = append(o.Pieces, ps...)
	}
	o.Pieces = append(o.Pieces, c.Names[len(c.Names)-1].Post...)
	o.Pieces = mergeSpaces(clonePieces(o.Pieces))
	return o
}

// mergeSpaces joins neighbouring white space.
func mergeSpaces(ps []Piece) []Piece {
	var out []Piece
	for _, p := range ps {
		if n := len(out); n > 0 && p.K == "space" && out[n-1].K == "space" {
			out[n-1].S += p.S
			continue
		}
		out = append(out, p)
	}
	return out
}

func genNamesCase(g G) namesCase {
	if g.rare(60) {
		sb := strings.Builder{}
		for n := 1 + g.n(14); n > 0; n-- {
			s := pick(g, "J", "p", "J ", "p ", "J-", "p-", "&", " & ", " ", ",", ", ")
			sb.WriteString(s)
		}
		return namesCase{Built: sb.String()}
	}
	return genNames(g)
}

func genNames(g G) namesCase {
	c := namesCase{Quote: g.chance(40), Field: pick(g, "author", "editor", "a"), Upper: g.chance(20)}
	lo, hi := 1, 3
	if g.rare(50) {
		lo, hi = 6, 30
	}
	c.Names = list(g, lo, hi, genName)
	if w, ok := g.novel(isTagNameText); ok && asciiLower(w) == w {
		c.Field = w
	}
	if n, ok := g.size(1000); ok {
		for again := c.Names; len(c.Names) < n; {
			c.Names = append(c.Names, again...)
		}
		c.Names = c.Names[:max(n, 1)]
	}
	if g.rare(400) {
		for again := c.Names; len(c.Names) < 33+g.n(300); {
			c.Names = append(c.Names, again...)
		}
	}
	if g.chance(10) {
		c.Names = append(c.Names, Name{Last: Part{Words: []Word{{Ps: []Piece{{K: "text", S: "others"}}, Lower: true}}}})
	}
	if g.rare(15) {
		// No author at all between two separators or at an end.
		i := g.n(len(c.Names) + 1)
		c.Names = append(c.Names[:i:i], append([]Name{{Tight: g.chance(50)}}, c.Names[i:]...)...)
	}
	return c
}

func exprText(x ast.Expr) (string, error) {
	t, ok := x.(*ast.Text)
	if !ok || t == nil {
		return "", fmt.Errorf("part of a name is a %T", x)
	}
	return t.Value, nil
}

func partTexts(a *ast.Author) (parts [4]string, err error) {
	if a == nil {
		return parts, fmt.Errorf("nil author")
	}
	for i, x := range []ast.Expr{a.First, a.Prefix, a.Last, a.Suffix} {
		if parts[i], err = exprText(x); err != nil {
			return parts, err
		}
	}
	return parts, nil
}

var partNames = [4]string{"first name", "prefix", "last name", "suffix"}

// handPart is a part of a name for authors built by hand.
func handPart(i int) ast.Expr {
	switch i {
	case 0:
		return &ast.Text{}
	case 1:
		return &ast.Text{Value: "others"}
	case 2:
		return &ast.Text{Value: "x"}
	case 3:
		return &ast.ParsedText{}
	}
	return &ast.Ident{Name: "others"}
}

// checkHand asks an author built by hand what it is.
func checkHand(h [4]int) error {
	a := &ast.Author{First: handPart(h[0]), Prefix: handPart(h[1]), Last: handPart(h[2]), Suffix: handPart(h[3])}
	if got, want := a.IsEmpty(), h == [4]int{}; got != want {
		return fmt.Errorf("author with parts %v: IsEmpty is %v", h, got)
	}
	if got, want := a.IsOthers(), h == [4]int{2: 1}; got != want {
		return fmt.Errorf("author with parts %v: IsOthers is %v", h, got)
	}
	return nil
}

func allHand() []namesCase {
	var out []namesCase
	for i := range 5 * 5 * 5 * 5 {
		out = append(out, namesCase{Hand: &[4]int{i % 5, i / 5 % 5, i / 25 % 5, i / 125}})
	}
	level := []string{""}
	for range 6 {
		var next []string
		for _, s := range level {
			for _, c := range "Jp& ,-" {
				if c == '-' && (s == "" || strings.ContainsAny(s[len(s)-1:], " ,-")) {
					continue
				}
				next = append(next, s+string(c))
				out = append(out, namesCase{Built: s + string(c)})
			}
		}
		level = next
	}
	return out
}

// builtField builds a field. Sources have no nodes for hyphens, but built trees
// can.
func builtField(s string, hyphen ast.Expr) *ast.ParsedText {
	t := &ast.ParsedText{Delim: ast.BraceDelimiter}
	for _, c := range s {
		var x ast.Expr
		switch c {
		case 'J':
			x = &ast.Text{Value: "Jean"}
		case 'p':
			x = &ast.Text{Value: "paul"}
		case '&':
			x = &ast.Text{Value: "and"}
		case ' ':
			x = &ast.TextSpace{Value: " "}
		case ',':
			x = &ast.TextComma{}
		case '-':
			x = hyphen
		}
		t.Values = append(t.Values, x)
	}
	return t
}

// checkBuilt checks that a hyphen within a word is the text of a hyphen.
func checkBuilt(s string) error {
	want, wantErr := bibtex.ExtractAuthors(builtField(s, &ast.Text{Value: "-"}))
	got, err := bibtex.ExtractAuthors(builtField(s, &ast.TextHyphen{}))
	if (err == nil) != (wantErr == nil) {
		return fmt.Errorf("field %q with a hyphen node: error %v, with text: %v", s, err, wantErr)
	}
	if w, g := dump(want, -1), dump(got, -1); w != g {
		return fmt.Errorf("field %q with a hyphen node differs from that with text: %s", s, firstDiff(w, g))
	}
	return nil
}

func checkNames(c namesCase, o *Obs) error {
	if c.Built != "" {
		o.Label("built field")
		return checkBuilt(c.Built)
	}
	if c.Hand != nil {
		o.Label("built author")
		return checkHand(*c.Hand)
	}
	if len(c.Names) == 0 {
		return nil
	}
	empty := false
	var want [][4]string
	for i := range c.Names {
		n := &c.Names[i]
		if n.bad() {
			return nil
		}
		parts := [4]string{trimBlanks(n.First.text()), trimBlanks(n.Prefix.text()), trimBlanks(n.Last.text()), trimBlanks(n.Suffix.text())}
		want = append(want, parts)
		if parts == [4]string{} {
			empty = true
		}
		if n.Form == 0 {
			o.Label(fmt.Sprintf("form 0: %v %v", len(n.First.Words) > 0, len(n.Prefix.Words) > 0))
		} else {
			o.Label(fmt.Sprintf("form %d: %v %v", n.Form, len(n.First.Words) > 0, len(n.Prefix.Words) > 0))
		}
	}
	o.LabelIf(empty, "empty author")
	op := c.op()
	o.NonTrivial(op.source())
	name := c.Field
	if c.Upper {
		name = asciiUpper(name)
	}
	src := "@misc{k, " + name + " = " + op.source() + ", other = {A and B}, z = " + op.source() + "}\n" +
		"@string{" + name + " = {A and B}}\n@misc{" + name + "}\n"
	p := parseAt(src, parser.ParseStrings, 0)
	if p.err != nil {
		return fmt.Errorf("source %q rejected: %w", src, p.err)
	}
	dump0 := dump(p.file, p.base)
	decl := p.file.Entries[0].(*ast.BibDecl)
	txt, ok := decl.Tags[0].Value.(*ast.ParsedText)
	if !ok {
		return fmt.Errorf("source %q: the field is a %T", src, decl.Tags[0].Value)
	}
	compare := func(as ast.Authors) error {
		if len(as) != len(want) {
			return fmt.Errorf("field %q: %d authors, want %d", op.source(), len(as), len(want))
		}
		for i, a := range as {
			parts, err := partTexts(a)
			if err != nil {
				return fmt.Errorf("field %q: author %d: %w", op.source(), i, err)
			}
			for j := range parts {
				if parts[j] != want[i][j] {
					return fmt.Errorf("field %q: author %d: %s %q, want %q (got %q, want %q)", op.source(), i, partNames[j], parts[j], want[i][j], parts, want[i])
				}
			}
			others := parts == [4]string{2: "others"}
			o.LabelIf(others, "others")
			if a.IsOthers() != others {
				return fmt.Errorf("field %q: author %d %q: IsOthers is %v", op.source(), i, parts, a.IsOthers())
			}
			if a.IsEmpty() {
				return fmt.Errorf("field %q: author %d %q: IsEmpty is true", op.source(), i, parts)
			}
		}
		return nil
	}
	as, err := bibtex.ExtractAuthors(txt)
	if empty {
		if err == nil {
			return fmt.Errorf("field %q has an empty author, but is extracted as %d authors", op.source(), len(as))
		}
		if len(as) != 0 {
			return fmt.Errorf("field %q: error %v and %d authors", op.source(), err, len(as))
		}
	} else {
		if err != nil {
			return fmt.Errorf("field %q: %w", op.source(), err)
		}
		if err := compare(as); err != nil {
			return err
		}
	}
	if d := dump(p.file, p.base); d != dump0 {
		return fmt.Errorf("field %q: extraction changes the tree: %s", op.source(), firstDiff(dump0, d))
	}

	// Through the resolver, which changes the named fields only.
	es, err := bibtex.New(bibtex.WithResolvers(bibtex.NewAuthorResolver(c.Field, "unused"))).Resolve(p.file)
	if empty {
		if err == nil {
			return fmt.Errorf("field %q has an empty author, but is resolved", op.source())
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("field %q: resolve: %w", op.source(), err)
	}
	got, ok := es[0].Tags[c.Field].(ast.Authors)
	if !ok {
		return fmt.Errorf("field %q: resolved to a %T", op.source(), es[0].Tags[c.Field])
	}
	if err := compare(got); err != nil {
		return fmt.Errorf("resolved: %w", err)
	}
	decl.Tags[0].Value = txt
	if d := dump(p.file, p.base); d != dump0 {
		return fmt.Errorf("field %q: the author resolver changes more than the field: %s", op.source(), firstDiff(dump0, d))
	}
	return nil
}

// ----------------------------------------------------------------------------
// C19

type fieldCase struct {
	Text  Src
	Quote bool
}

var nameFragments = []string{
	"Knuth", "Donald", "von", "de", "la", "A", "b", " and ", " and ", "and", " ", " ", "  ", "\n", "~", ",", ", ", ", ", "others", "Jr.", "{", "}", "{von}", "{and}", "{, }", "{A and B}",
	`\'o`, `\'{E}`, `{\'e}`, `{\"O}`, `\c c`, `\c{C}`, `{\'\i}`, `\&`, `\%`, `\\`, `\{`, `\}`, `\LaTeX`, `\noopsort{x}`, "$x$", `\url{a,b}`, `\,`, "é", "É", "日本", "1", "ǅ", "-", "--", "'", `"`, "And", "AND", "\u00a0", "\u2003", ".", "@", "{}", "{ }", "~~",
}

func genField(g G) fieldCase {
	c := fieldCase{Quote: g.chance(40)}
	switch k := g.n(10); {
	case k <= 5:
		c.Text = Src(g.soup(nameFragments, 0, 10))
	case k <= 7:
		c.Text = Src(g.soup(stringFragments, 0, 10))
	case k == 8:
		n := genNames(g)
		o := n.op()
		c.Text = Src(g.mutate(o.content(), g.n(3)))
	case k == 9:
		c.Text = Src(g.soup(nameFragments, 10, 60))
	}
	if g.rare(400) {
		// A long list of names.
		c.Text = Src(strings.Repeat(string(c.Text)+" and ", 2+g.n(100))) + c.Text
	}
	return c
}

func noSpace(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}

// nameNode renders a node the way names do.
func nameNode(n *N, sb *strings.Builder) {
	switch n.K {
	case "str", "macro":
		for _, k := range n.Kids {
			nameNode(k, sb)
		}
	case "text":
		sb.WriteString(n.S)
	case "esc":
		sb.WriteString(`\` + n.S)
	case "space", "nbsp":
		sb.WriteString(" ")
	case "comma":
		sb.WriteString(",")
	case "hyphen":
		sb.WriteString("-")
	case "math":
		sb.WriteString("$" + n.S + "$")
	case "accent":
		s, _ := composedAccent(n.S)
		sb.WriteString(s)
	}
}

func checkField(c fieldCase, o *Obs) error {
	src := "{" + string(c.Text) + "}"
	if c.Quote {
		src = `"` + string(c.Text) + `"`
	}
	p := parseAt("@misc{k, author = "+src+"}", parser.ParseStrings, 0)
	if p.err != nil {
		o.Label("rejected")
		return nil
	}
	var txt *ast.ParsedText
	if d, ok := p.file.Entries[0].(*ast.BibDecl); ok && len(d.Tags) > 0 {
		txt, _ = d.Tags[0].Value.(*ast.ParsedText)
	}
	if txt == nil {
		o.Label("no string")
		return nil
	}
	before := dump(txt, 0)
	tree := fromAST(txt, 0)
	as, err := bibtex.ExtractAuthors(txt)
	if after := dump(txt, 0); after != before {
		return fmt.Errorf("field %s: extraction changes the tree: %s", src, firstDiff(before, after))
	}
	if err != nil {
		o.Label("error")
		if as != nil {
			return fmt.Errorf("field %s: authors and error %w", src, err)
		}
		return nil
	}
	// The authors of the field.
	var chunks [][]*N
	var cur []*N
	blank := func(i int) bool {
		return i < 0 || i >= len(tree.Kids) || tree.Kids[i].K == "space" || tree.Kids[i].K == "nbsp"
	}
	for i, k := range tree.Kids {
		if k.K == "text" && k.S == "and" && blank(i-1) && blank(i+1) {
			chunks = append(chunks, cur)
			cur = nil
			continue
		}
		cur = append(cur, k)
	}
	chunks = append(chunks, cur)
	o.NonTrivial(src)
	o.LabelIf(len(chunks) > 1, "several authors")
	if len(as) != len(chunks) {
		return fmt.Errorf("field %s: %d authors, want %d", src, len(as), len(chunks))
	}
	for i, chunk := range chunks {
		commas := 0
		sb := &strings.Builder{}
		for _, k := range chunk {
			if k.K == "comma" {
				if commas++; commas <= 2 {
					continue // separates name parts
				}
			}
			nameNode(k, sb)
		}
		parts, err := partTexts(as[i])
		if err != nil {
			return fmt.Errorf("field %s: author %d: %w", src, i, err)
		}
		got := parts[0] + parts[1] + parts[2]
		if commas > 0 {
			got = parts[1] + parts[2] + parts[3] + parts[0]
		}
		o.Label(fmt.Sprintf("%d commas", min(commas, 3)))
		if commas < 2 && parts[3] != "" {
			return fmt.Errorf("field %s: author %d has suffix %q", src, i, parts[3])
		}
		if x, y := noSpace(sb.String()), noSpace(got); x != y {
			return fmt.Errorf("field %s: author %d: the parts %q hold %q, but the text is %q", src, i, parts, y, x)
		}
		for j, s := range parts {
			if s != strings.TrimSpace(s) {
				return fmt.Errorf("field %s: author %d: %s %q has surrounding space", src, i, partNames[j], s)
			}
		}
		if parts == [4]string{} {
			return fmt.Errorf("field %s: author %d is empty, but there is no error", src, i)
		}
	}
	if len(src)%4 == 0 && len(txt.Values) > 1 {
		return checkChangedField(src, txt, o)
	}
	return nil
}

// checkChangedField removes the first part of a field whose authors were
// extracted before, and extracts them again.
func checkChangedField(src string, txt *ast.ParsedText, o *Obs) error {
	o.Label("changed and extracted again")
	p := parseAt("@misc{k, author = "+src+"}", parser.ParseStrings, 0)
	ref := p.file.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.ParsedText)
	txt.Values, ref.Values = txt.Values[1:], ref.Values[1:]
	got, err := bibtex.ExtractAuthors(txt)
	want, werr := bibtex.ExtractAuthors(ref)
	if (err == nil) != (werr == nil) {
		return fmt.Errorf("field %s without its first part: error %v, but %v in a fresh tree", src, err, werr)
	}
	if len(got) != len(want) {
		return fmt.Errorf("field %s without its first part: %d authors, but %d in a fresh tree", src, len(got), len(want))
	}
	for i, a := range got {
		x, err := partTexts(a)
		if err != nil {
			return fmt.Errorf("field %s without its first part: author %d: %w", src, i, err)
		}
		y, err := partTexts(want[i])
		if err != nil {
			return fmt.Errorf("field %s without its first part: author %d: %w", src, i, err)
		}
		if x != y {
			return fmt.Errorf("field %s without its first part: author %d is %q, but %q in a fresh tree", src, i, x, y)
		}
	}
	return nil
}

func init() {
	register(Def[namesCase]{
		ID:    "C18",
		Rule:  "author lists of random names in the three forms, made of words with text, accents, groups, escapes, macros and math, and with empty authors; extracted directly and by the resolver and compared with the words they were made of; also IsEmpty and IsOthers of all authors built of 5 kinds of parts, and fields built by hand with hyphen nodes; all cases but these are non-trivial; distinct by field",
		Enum:  allHand,
		Quick: 400000, Thorough: 20000000,
		Gen: genNamesCase, Check: checkNames,
	})
	register(Def[fieldCase]{
		ID:    "C19",
		Rule:  "author fields of any content; the text of the name parts is compared with the text of the field; a quarter of the fields are then changed and extracted again; non-trivial: extracted without error; distinct by field",
		Quick: 2500000, Thorough: 30000000,
		Gen: genField, Check: checkField,
		FromSrc: func(mode byte, src string) fieldCase { return fieldCase{Text: Src(src), Quote: mode&1 != 0} },
		Shrink: func(c fieldCase, fails func(fieldCase) bool, more func() bool) fieldCase {
			c.Text = Src(shrinkText(string(c.Text), func(s string) bool {
				d := c
				d.Text = Src(s)
				return fails(d)
			}, more))
			return c
		},
	})
}
