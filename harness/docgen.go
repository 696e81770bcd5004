package main

// Generators of strings and bibliographies.

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

type strCfg struct {
	all        bool // the string means the same with and without string parsing
	renderable bool // accents combine with their letters
	noURL      bool
	noMacro    bool
	noNL       bool // no newline inside the string
}

var wordPool = []string{
	"a", "Knuth", "the", "and", "of", "Art", "von", "x", "others", "2004", "e.g.", "O'Neil", "B-tree", "100", "it",
	"é", "Ünal", "naïve", "日本", "ß", "🙂", "Ω", "и", "a\u0301", "\u00a0", "\u2028", "İ", "ǅ", "\ufffd", "ﬁ", "\u200d",
	"author", "=", "@", "@string", "%", "% x", "#", "(", ")", "(x)", "'", "`", "''", "*", "+", "/", ":", ";", "<", ">", "?", "[", "]",
	"^", "_", "|", "!", "&", "-", "--", ".", "...", "http://x.org/a_b?c=d&e#f", "title=", "@article(", "1,", "url", "href",
	"\v", "\f", "\x01", "\x7f", "\x1b",
}

// text returns text without characters that are special in strings.
func (g G) text(quoteOK bool, size int) string {
	sb := strings.Builder{}
	for i := 0; i <= size; i++ {
		switch g.n(4) {
		case 0, 1:
			for j := g.n(6); j >= 0; j-- {
				sb.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[g.n(52)])
			}
		case 2:
			ok := without("\\{}$~\"\t\r\n")
			if quoteOK {
				ok = without("\\{}$~\t\r\n")
			}
			if w, ok := g.novel(ok); ok {
				sb.WriteString(w)
				break
			}
			sb.WriteString(wordPool[g.n(len(wordPool))])
		case 3:
			if quoteOK && g.chance(30) {
				sb.WriteByte('"')
			} else {
				sb.WriteString(pick(g, "0", "-", ".", "x", "Z", "'", ":", "%", "@", "=", "#", "(", ")", "\u00e9"))
			}
		}
	}
	s := strings.Map(func(r rune) rune {
		if r == ',' || r == ' ' {
			return 'q'
		}
		return r
	}, sb.String())
	return s
}

func (g G) letter() string {
	return string("oeaiucnCAEIOUzgyjNdbfhklmpqrstvwxBDFGHJKLMPQRSTVWXYZ"[g.n(51)])
}

func (g G) spaces() string {
	if g.chance(60) {
		return " "
	}
	sb := strings.Builder{}
	if n, ok := g.size(5000); ok {
		return strings.Repeat(pick(g, " ", "\n", "\t"), n)
	}
	if w, ok := g.novel(isSpaceText); ok {
		return w
	}
	for i := g.n(4); i >= 0; i-- {
		sb.WriteString(pick(g, " ", "\n", "\t", "\r\n", "\r", "  ", "\n\n", " \n\t"))
	}
	return sb.String()
}

// accentPairs are the combinations that render, in no particular order.
var accentPairs = []string{
	"'o", "`a", "`e", "`i", "`o", "`u", "`A", "`E", "`I", "`O", "`U",
	"'a", "'e", "'i", "'u", "'y", "'A", "'E", "'I", "'O", "'U", "'Y",
	"^a", "^e", "^i", "^o", "^u", "^A", "^E", "^I", "^O", "^U",
	`"a`, `"e`, `"i`, `"o`, `"u`, `"A`, `"E`, `"I`, `"O`, `"U`,
	"~a", "~n", "~o", "~A", "~N", "~O", "cc", "cC",
	".c", ".e", ".g", ".i", ".z", ".C", ".E", ".G", ".I", ".Z",
}

func (g G) accent(cfg strCfg) Piece {
	p := Piece{K: "accent"}
	if cfg.renderable || g.chance(60) {
		pr := accentPairs[g.n(len(accentPairs))]
		p.M, p.S = pr[:1], pr[1:]
	} else {
		p.M, p.S = pick(g, accentMarks...), g.letter()
	}
	p.Form = g.n(2)
	if g.chance(25) {
		p.Sp = strings.Repeat(" ", 1+g.n(3))
	}
	return p
}

var macroNames = []string{
	"emph", "textit", "LaTeX", "TeX", "o", "ss", "ae", "L", "cite", "copyright", "u", "v", "H", "b", "d", "i", "j", "x",
	"urls", "hrefs", "Url", "noopsort", "textbf", "aa", "AA", "O", "cdot", "path", "URL", "C", "textquotedblleft",
}

// piecesCfg says where pieces stand.
type piecesCtx struct {
	quote bool // directly inside a quoted string: a double quote would end it
	group bool // directly inside a group or braced string
	depth int
}

// pieces generates a sequence of constructs.
func (g G) pieces(cfg strCfg, ctx piecesCtx, size int) []Piece {
	out := list(g, 0, size, func(g G) Piece { return g.piece(cfg, ctx, size) })
	if w, ok := g.novel(without("\\{}$\"\t\r\n")); ok {
		out = append(out, textPieces(w)...)
		if g.chance(50) {
			out = append(out, g.piece(cfg, ctx, 1))
		}
	}
	return fixPieces(out, cfg, ctx)
}

func (g G) piece(cfg strCfg, ctx piecesCtx, size int) Piece {
	quoteOK := !ctx.quote
	switch k := g.n(20); {
	case k <= 5:
		return Piece{K: "text", S: g.text(quoteOK, g.n(2))}
	case k <= 8:
		s := g.spaces()
		if cfg.noNL {
			s = strings.Repeat(" ", 1+g.n(2))
		}
		return Piece{K: "space", S: s}
	case k == 9:
		return Piece{K: "nbsp"}
	case k <= 11:
		return Piece{K: "comma"}
	case k == 12:
		return Piece{K: "esc", S: pick(g, "&", "%", "$", "_", "#", `\`, "{", "}")}
	case k == 13:
		return Piece{K: "math", S: g.math(cfg, quoteOK)}
	case k <= 15:
		return g.accent(cfg)
	case k == 16 && !cfg.noMacro:
		if g.chance(30) {
			return Piece{K: "macro", S: pick(g, ",", ";", "[", "]", "(", ")")}
		}
		if g.rare(20) {
			return Piece{K: "macro", S: "x" + g.name(letters, letters, g.n(40))}
		}
		if w, ok := g.novel(isMacroText); ok {
			return Piece{K: "macro", S: w}
		}
		return Piece{K: "macro", S: pick(g, macroNames...)}
	case k == 17 && !cfg.noURL && !cfg.noMacro:
		p := Piece{K: "url", M: pick(g, "url", "href"), S: g.address(true, false)}
		if g.chance(10) {
			p.Sp = g.spaces()
		}
		return p
	case k >= 18 && ctx.depth < 60:
		sub := size - 1
		if sub > 5 {
			sub = 5
		}
		if sub < 0 {
			sub = 0
		}
		in := piecesCtx{group: true, depth: ctx.depth + 1}
		if g.chance(15) { // deep chains
			in.depth = ctx.depth + 1
			sub = 2
		}
		return Piece{K: "group", Kids: g.pieces(cfg, in, sub)}
	}
	return Piece{K: "text", S: g.text(quoteOK, 0)}
}

func (g G) math(cfg strCfg, quoteOK bool) string {
	sb := strings.Builder{}
	if w, ok := g.novel(without("\\{}$\"\t\r\n")); ok {
		sb.WriteString(w)
	}
	for i := g.n(4); i > 0; i-- {
		s := pick(g, "x", "x^2", "a_i", "+", " ", ",", "~", "n", "%", "@", "é", "\t", "<", `\alpha`, `\$`, `\\`, "{n}", "{", "}", `\{`, `\}`, `"`, `\"`, `\,`)
		if cfg.all {
			switch s {
			case "{", "}":
				s = "{x{}}"
			case `\{`, `\}`:
				s = `\{\}`
			case `"`, `\"`:
				if !quoteOK {
					s = "''"
				}
			}
		} else if s == `"` && !quoteOK {
			// With string parsing on, math is read as a unit.
			s = `"`
		}
		sb.WriteString(s)
	}
	return sb.String()
}

// address returns an address. Inside of a macro it may hold braces.
func (g G) address(inMacro, quoted bool) string {
	sb := strings.Builder{}
	sb.WriteString(pick(g, "http://", "https://", "", "ftp://", "doi:"))
	novel := func() {
		if w, ok := g.novel(isAddressText); ok {
			sb.WriteString(w)
		}
	}
	novel()
	defer novel()
	dollar := false
	parts := 1 + g.small(6, 40)
	if g.rare(300) {
		parts = 40 + g.n(300)
	}
	if n, ok := g.size(2000); ok {
		sb.WriteString(strings.Repeat(pick(g, "a", "/"), max(n-sb.Len(), 0)))
		parts = g.n(2)
	}
	for i := parts; i > 0; i-- {
		switch g.n(3) {
		case 0:
			sb.WriteString(pick(g, "a", "www", "example.com", "x1", "Q", "index.html", "10.1145", "3377", "and", "url", "é"))
		case 1:
			sb.WriteString(pick(g, "/", ".", "-", "_", "?", "=", "&", ":", ";", "+", "!", "*", "'", "(", ")", "@", "|", "<", ">", "[", "]", "^", "`"))
		case 2:
			s := pick(g, "~", ",", "#", "%", "%20", "--", "~~", ",,", "#%~", "$", "$$", `"`)
			if s == `"` && (quoted && !inMacro) {
				s = "'"
			}
			if s == "$" {
				dollar = !dollar
			}
			sb.WriteString(s)
		}
		if inMacro && g.rare(12) {
			sb.WriteString(pick(g, "{}", "{a}", "{~{,}}", `\%`, `\_`, `\#`, `\&`, `\foo/`, `\LaTeX.`, `\~u`, `\~{u}`, `/\~ u/`, `\"o`, `\'{\i}`, `\c{c}`))
		}
	}
	if dollar {
		sb.WriteString("$")
	}
	return fixAddress(sb.String())
}

// fixAddress removes what would end an address in a way the generator didn't
// mean: a backslash directly before a closing dollar and so on.
func fixAddress(s string) string {
	if s == "" {
		return "x"
	}
	return s
}

// fixPieces repairs sequences that would be read in another way than meant.
func fixPieces(in []Piece, cfg strCfg, ctx piecesCtx) []Piece {
	var out []Piece
	for _, p := range in {
		if len(out) > 0 {
			prev := &out[len(out)-1]
			switch {
			case p.K == "text" && prev.K == "text":
				prev.S += p.S
				continue
			case p.K == "space" && prev.K == "space":
				prev.S += p.S
				continue
			case p.K == "text" && endsInLetterMacro(prev) && isASCIILetter(p.S[0]):
				p.S = "-" + p.S
			}
		}
		if cfg.all {
			// Braces must balance and a quote must not end the string.
			if p.K == "esc" && (p.S == "{" || p.S == "}") {
				out = append(out, Piece{K: "esc", S: "{"})
				p.S = "}"
			}
			if p.K == "accent" && p.M == `"` && ctx.quote {
				p.M = "'"
				if cfg.renderable {
					p.S = "e"
				}
			}
		}
		out = append(out, p)
	}
	// A dotless letter is an accent's argument only at the end of a group.
	for i := range out {
		p := &out[i]
		if p.K == "accent" && p.Form == accDotless {
			p.Form = accBare
		}
		if p.K != "accent" || p.Form == accDotlessBraced {
			continue
		}
		if (p.S == "i" || p.S == "j") && len(p.Sp)%2 == 1 {
			if p.Form == accBraced {
				p.Form = accDotlessBraced
			} else if ctx.group && i == len(out)-1 {
				p.Form = accDotless
			}
		}
	}
	// \cX is an accent only if no further letter follows.
	for i := range out {
		p := &out[i]
		if p.K == "accent" && p.M == "c" && p.Form == accBare && p.Sp == "" && i+1 < len(out) {
			if next := &out[i+1]; next.K == "text" && isASCIILetter(next.S[0]) {
				p.Form = accBraced
			}
		}
	}
	return out
}

func endsInLetterMacro(p *Piece) bool {
	return p.K == "macro" && isASCIILetter(p.S[0])
}

// str generates a string operand.
func (g G) str(cfg strCfg) Op {
	o := Op{K: "str", Quote: g.chance(50)}
	size := 7
	ctx := piecesCtx{quote: o.Quote, group: !o.Quote}
	o.Pieces = g.pieces(cfg, ctx, size)
	if g.rare(40) {
		o.Pieces = append(o.Pieces, list(g, 10, 60, func(g G) Piece { return g.piece(cfg, ctx, 5) })...)
		if g.rare(4) {
			// The same again and again.
			again := o.Pieces
			for i := g.n(12); i > 0; i-- {
				o.Pieces = append(o.Pieces[:len(o.Pieces):len(o.Pieces)], clonePieces(again)...)
			}
		}
		o.Pieces = fixPieces(o.Pieces, cfg, ctx)
	}
	if n, ok := g.size(2000); ok {
		// A number of equal constructs.
		ps := list(g, 1, 2, func(g G) Piece { return g.piece(cfg, ctx, 0) })
		o.Pieces = o.Pieces[:0:0]
		for ; n > 0; n-- {
			o.Pieces = append(o.Pieces, clonePieces(ps)...)
		}
		o.Pieces = fixPieces(o.Pieces, cfg, ctx)
	} else if n, ok := g.size(60000); ok {
		o.Pieces = []Piece{{K: "text", S: strings.Repeat("n", n) + pick(g, "", "a", "b")}}
	}
	if g.rare(60) {
		// A long text.
		o.Pieces = append(o.Pieces, Piece{K: "space", S: " "}, Piece{K: "text", S: strings.Repeat(g.text(false, 2), 20+g.n(400))})
		o.Pieces = fixPieces(o.Pieces, cfg, ctx)
	}
	if g.rare(60) {
		// Deep nesting.
		in := piecesCtx{group: true, depth: 60}
		inner := g.pieces(cfg, in, 3)
		depth := 1 + g.n(pick(g, 150, 150, 150, 600))
		if n, ok := g.size(700); ok {
			depth = n
		}
		for i := depth; i > 0; i-- {
			if g.chance(20) {
				inner = append(inner, g.piece(cfg, in, 1))
			}
			inner = []Piece{{K: "group", Kids: fixPieces(inner, cfg, in)}}
		}
		o.Pieces = fixPieces(append(o.Pieces, inner...), cfg, ctx)
	}
	return o
}

// rawContent returns the content of a string for raw mode.
func (g G) rawContent(quote bool, size int) string {
	sb := strings.Builder{}
	depth := 0
	for i := g.n(size + 1); i > 0; i-- {
		switch g.n(12) {
		case 0, 1:
			sb.WriteString("{")
			depth++
		case 2, 3:
			if depth > 0 {
				sb.WriteString("}")
				depth--
			}
		case 4:
			if depth > 0 || !quote {
				sb.WriteString(`"`)
			}
		case 5:
			sb.WriteString(g.spaces())
		case 6:
			switch w := pick(g, `\`, `\\`, `$`, `~`, `%`, `% c`+"\n", `@article{`, "}", `#`, `,`, `=`, `\"{o}`, `\url{`, "\v", "\x7f"); w {
			case `@article{`, `\url{`:
				sb.WriteString(w)
				depth++
			case "}":
				if depth > 0 {
					sb.WriteString(w)
					depth--
				}
			case `\"{o}`:
				if depth > 0 || !quote {
					sb.WriteString(w)
				}
			default:
				sb.WriteString(w)
			}
		default:
			sb.WriteString(g.text(!quote || depth > 0, g.n(2)))
		}
	}
	for ; depth > 0; depth-- {
		sb.WriteString("}")
	}
	return sb.String()
}

// alike returns a name like those that it returns otherwise: most of it is the
// same.
func (g G) alike(first, rest string, n int) string {
	b := []byte(strings.Repeat(first[:1], max(n, 1)))
	c := rest[g.n(min(len(rest), 3))]
	switch g.n(4) {
	case 0, 1:
		b[len(b)-1] = c
	case 2:
		b[len(b)/2] = c
	case 3:
		b[0] = first[g.n(min(len(first), 3))]
	}
	if strings.IndexByte(first, b[0]) < 0 {
		b[0] = first[0]
	}
	return string(b)
}

func (g G) name(first, rest string, n int) string {
	sb := strings.Builder{}
	if w, ok := g.novel(func(s string) bool {
		for i := 0; i < len(s); i++ {
			if strings.IndexByte(rest, s[i]) < 0 {
				return false
			}
		}
		return strings.IndexByte(first, s[0]) >= 0
	}); ok {
		return w
	}
	sb.WriteByte(first[g.n(len(first))])
	if k, ok := g.size(3000); ok {
		n = max(k-1, 0)
		if g.chance(60) {
			return g.alike(first, rest, k)
		}
	} else if g.rare(100) {
		return g.alike(first, rest, 4+g.n(60))
	}
	for ; n > 0; n-- {
		sb.WriteByte(rest[g.n(len(rest))])
	}
	if g.rare(150) {
		// A long name.
		s := sb.String()[1:]
		if s == "" {
			s = rest[:1]
		}
		sb.WriteString(strings.Repeat(s, 4+g.n(150)))
	}
	return sb.String()
}

const (
	lowers  = "abcdefghijklmnopqrstuvwxyz"
	letters = lowers + "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	digits  = "0123456789"
	anyName = letters + digits + namePunct
)

var tagNames = []string{
	"title", "author", "year", "editor", "journal", "booktitle", "pages", "doi", "note", "keywords", "month", "abstract",
	"x", "bib-source", "a:b", "Month_2", "ee", "school", "urls", "ur", "authors", "key", "string", "comment", "preamble", "and",
	"address", "annote", "chapter", "crossref", "edition", "howpublished", "institution", "number", "organization", "publisher", "series", "type", "volume", "isbn", "url2", "date", "eprint", "archiveprefix", "location", "subtitle", "volumes", "copyright", "lang", "crossrefs", "xdata", "ids", "timestamp", "biburl",
}

func (g G) tagName() string {
	switch g.n(6) {
	case 0, 1, 2, 3:
		return tagNames[g.n(len(tagNames))]
	}
	s := g.name(letters, lowers, g.n(6))
	if g.chance(50) {
		s = g.name(letters, anyName, g.n(8))
	}
	if g.chance(20) {
		s = g.nearName()
	}
	if w, ok := g.novel(isTagNameText); ok {
		s = w
	}
	if strings.EqualFold(s, "url") {
		return "x" + s
	}
	return s
}

// nearName returns a name like one that means something.
func (g G) nearName() string {
	s := pick(g, "url", "url", "author", "editor", "title", "year", "month", "key", "doi", "crossref", "href", "string", "comment", "preamble", "and", "others")
	switch g.n(8) {
	case 0, 1:
		s += pick(g, "s", "date", "1", "-", "_", ".x", ":", "/", "url")
	case 2, 3:
		s = pick(g, "x", "my-", "book", "X", "sub_") + s
	case 4:
		s = s[:len(s)-1]
	case 5:
		s = strings.ToUpper(s[:1]) + s[1:]
	case 6:
		s = strings.ToUpper(s)
	}
	return s
}

func (g G) citeKey() string {
	switch g.n(5) {
	case 0:
		return g.name(letters, lowers+digits, g.n(6))
	case 1:
		return g.name(letters, anyName, g.n(12))
	case 2:
		return pick(g, "DBLP:conf/x/Smith2004", "10.1145/12.34", "123", "2004", "0", "1a", "9/8", "a", "foo", "-", ":x", "_", "author", "x+y", "[a]", "year")
	case 3:
		return g.name(digits, digits, g.n(5))
	}
	return g.name(anyName, anyName, g.n(8))
}

var entryTypes = []string{
	"article", "book", "inproceedings", "misc", "phdthesis", "techreport", "online",
	"booklet", "inbook", "incollection", "manual", "mastersthesis", "proceedings", "unpublished", "conference", "collection", "thesis", "report", "set", "xdata", "patent", "periodical", "electronic",
}

func (g G) entryType() string {
	switch g.n(6) {
	case 0, 1, 2:
		return pick(g, entryTypes...)
	case 3:
		return pick(g, "strings", "comments", "preambles", "str", "x", "a_b", "_", "Article", "commen", "strin", "preambl", "entry")
	case 4:
		if w, ok := g.novel(isEntryTypeText); ok {
			return w
		}
		if s := g.name(letters+"_", lowers+"_", g.n(10)); isEntryTypeText(s) {
			return s
		}
	}
	return pick(g, "ärticle", "Étude", "日本", "straße", "книга", "aé", "ΟΔΟΣ", "µ", "ﬁ", "aı", "ǅ", "İa", "ϐ", "ſa", "ẞ", "Åb", "ς")
}

func (g G) op(cfg docCfg) Op {
	switch k := g.n(10); {
	case k <= 6:
		if cfg.raw {
			o := Op{K: "str", Quote: g.chance(50)}
			o.Raw = Src(g.rawContent(o.Quote, g.small(10, 60)))
			return o
		}
		return g.str(cfg.str)
	case k == 7:
		return Op{K: "num", S: g.name(digits, digits, g.small(4, 30))}
	case k == 8:
		return Op{K: "id", S: pick(g, "jan", "feb", "acm", "x", "IEEE", "a:b", "tods")}
	}
	s := g.name(letters, anyName, g.n(6))
	return Op{K: "id", S: s}
}

func (g G) val(cfg docCfg) Val {
	v := Val{Ops: []Op{g.op(cfg)}}
	if g.chance(18) {
		v.Ops = append(v.Ops, list(g, 0, 4, func(g G) Op { return g.op(cfg) })...)
	}
	if g.rare(150) {
		nums := list(g, 10, 60, func(g G) Op { return Op{K: "num", S: g.name(digits, digits, g.n(3))} })
		v.Ops = append(v.Ops, nums...)
		if g.rare(4) {
			for i := g.n(20); i > 0; i-- {
				v.Ops = append(v.Ops, nums...)
			}
		}
	}
	if n, ok := g.size(1500); ok {
		for len(v.Ops) < n {
			v.Ops = append(v.Ops, Op{K: "num", S: "1"})
		}
	}
	return v
}

type docCfg struct {
	str     strCfg
	raw     bool // contents of strings are raw text, for raw mode only
	decls   int  // usual number of declarations
	bigDocs bool // sometimes a large number of declarations
	onlyBib bool
}

// doc generates a bibliography without its layout.
func (g G) doc(cfg docCfg) *Doc {
	lo := 1
	if g.rare(20) {
		lo = 0
	}
	d := &Doc{Decls: list(g, lo, 2*cfg.decls-1, func(g G) Decl { return g.decl(cfg) })}
	if cfg.bigDocs && g.rare(50) {
		small := cfg
		small.bigDocs = false
		d.Decls = append(d.Decls, list(g, 10, 60, func(g G) Decl { return g.decl(small) })...)
	}
	if n, ok := g.size(1500); ok && cfg.bigDocs {
		for len(d.Decls) < n {
			i := len(d.Decls)
			d.Decls = append(d.Decls, Decl{K: "bib", Word: "misc", Items: []Item{{Key: true, Name: fmt.Sprint("k", i)}}})
		}
	}
	return d
}

func (g G) decl(cfg docCfg) Decl {
	k := g.n(10)
	if cfg.onlyBib {
		k = 0
	}
	switch {
	case k <= 6:
		d := Decl{K: "bib", Word: g.entryType()}
		lo, hi := 0, 4
		if cfg.bigDocs && g.rare(60) {
			lo, hi = 10, 60
		}
		if g.chance(90) {
			d.Items = append(d.Items, Item{Key: true, Name: g.citeKey()})
		}
		for g.chance(10) {
			d.Items = append(d.Items, Item{Key: true, Name: g.citeKey()})
		}
		return g.items(cfg, d, lo, hi)
	case k <= 8:
		return Decl{K: "abbrev", Word: "string", Items: []Item{{Name: g.abbrevName(), Val: g.val(cfg)}}}
	}
	return Decl{K: "pre", Word: "preamble", Val: g.val(cfg)}
}

func (g G) items(cfg docCfg, d Decl, lo, hi int) Decl {
	d.Items = append(d.Items, list(g, lo, hi, func(g G) Item {
		if g.chance(3) {
			return Item{Key: true, Name: g.citeKey()}
		}
		return Item{Name: g.tagName(), Val: g.val(cfg)}
	})...)
	if n, ok := g.size(1000); ok && cfg.bigDocs {
		key := g.chance(30)
		for i := 0; i < n; i++ {
			it := Item{Name: fmt.Sprint("t", i), Val: Val{Ops: []Op{{K: "num", S: "1"}}}}
			if key {
				it = Item{Key: true, Name: it.Name}
			}
			d.Items = append(d.Items, it)
		}
	}
	return d
}

func (g G) abbrevName() string {
	return g.name(letters, anyName, g.n(6))
}

// ----------------------------------------------------------------------------
// Printing with a random layout

type layoutCfg struct {
	comments bool
	plain    bool // a fixed, simple layout
}

// Tok is a token of a printed source.
type Tok struct {
	Pos, End int
	Comment  bool
	Decl     int // 1 + index of the declaration that starts here
	Item     int // 1 + index of the item of declaration OfDecl that starts here
	OfDecl   int
}

type printer struct {
	g    G
	cfg  layoutCfg
	sb   strings.Builder
	toks []Tok
	nl   string
	wild int
	com  int
}

func (p *printer) off() int { return p.sb.Len() }

func (p *printer) tok(s string) int {
	pos := p.off()
	p.sb.WriteString(s)
	p.toks = append(p.toks, Tok{Pos: pos, End: p.off()})
	return pos
}

var commentTexts = []string{
	"", " a comment", "% double", " @article{x, y = {z}}", " }", " {", ` "`, " é日本", "\ttab ", " =,#()", " \\ $", " x\r", "\v\x01", " author = {A}",
}

// gap prints layout between two tokens; need tells that at least one space is
// needed.
func (p *printer) gap(need bool) {
	if p.cfg.plain {
		if need {
			p.sb.WriteString(" ")
		}
		return
	}
	n := 0
	switch p.wild {
	case 0:
		if p.g.chance(30) {
			n = 1
		}
	case 1:
		n = p.g.n(3)
	default:
		n = p.g.n(6)
	}
	start := p.off()
	for i := 0; i < n; i++ {
		if p.cfg.comments && p.g.chance(p.com) {
			if p.g.chance(50) {
				p.sb.WriteString(p.nl)
			}
			more := 0
			if p.g.rare(250) { // a long run of comments, in one group or a few
				more = p.g.n(300)
			}
			if k, ok := p.g.size(300); ok {
				more = k
			}
			p.comment()
			p.sb.WriteString("\n")
			split := more > 0 && p.g.chance(20)
			for ; more > 0; more-- {
				if split && p.g.chance(10) {
					p.sb.WriteString("\n")
				}
				p.tok("%" + strconv.Itoa(more))
				p.toks[len(p.toks)-1].Comment = true
				p.sb.WriteString("\n")
			}
			continue
		}
		p.sb.WriteString(pick(p.g, " ", p.nl, "\t", "  ", " ", "\n", "\r", p.nl+p.nl, " \t "))
		if len(dict().sizes) > 0 && p.g.rare(8) {
			p.sb.WriteString(p.g.spaces())
		}
	}
	if need && p.off() == start {
		p.sb.WriteString(pick(p.g, " ", p.nl, "\t"))
	}
}

func (p *printer) comment() {
	// Whether a comment right behind a string of several lines stands on the
	// line of a token is a matter of taste. Avoid it.
	if n := len(p.toks); n > 0 && !p.toks[n-1].Comment {
		src := p.sb.String()
		if t := p.toks[n-1]; strings.Contains(src[t.Pos:t.End], "\n") && !strings.Contains(src[t.End:], "\n") {
			p.sb.WriteString("\n")
		}
	}
	pos := p.off()
	p.sb.WriteString("%")
	if w, ok := p.g.novel(without("\n")); ok {
		p.sb.WriteString(w)
	}
	if n, ok := p.g.size(9000); ok {
		p.sb.WriteString(strings.Repeat("x", n))
	}
	if p.g.rare(60) {
		p.sb.WriteString(strings.Repeat(" long", 20+p.g.n(1500)))
	} else if p.g.chance(80) {
		p.sb.WriteString(commentTexts[p.g.n(len(commentTexts))])
	} else {
		p.sb.WriteString(p.g.text(true, 2))
	}
	p.toks = append(p.toks, Tok{Pos: pos, End: p.off(), Comment: true})
}

func (p *printer) val(v *Val) {
	v.Hash = nil
	for i := range v.Ops {
		if i > 0 {
			p.gap(false)
			v.Hash = append(v.Hash, p.tok("#"))
			p.gap(false)
		}
		o := &v.Ops[i]
		o.Pos = p.off()
		if o.K == "str" {
			placePieces(o.Pieces, o.Pos+1)
		}
		p.tok(o.source())
		o.End = p.off()
	}
}

func (p *printer) item(d *Decl, di, ii int, last bool) {
	it := &d.Items[ii]
	it.Pos = p.off()
	p.tok(it.Name)
	p.toks[len(p.toks)-1].Item = ii + 1
	p.toks[len(p.toks)-1].OfDecl = di + 1
	if !it.Key {
		p.gap(false)
		it.Eq = p.tok("=")
		p.gap(false)
		p.val(&it.Val)
	}
	p.gap(false)
	it.Comma = 0
	if !last || !p.cfg.plain && p.g.chance(40) {
		it.Comma = p.tok(",")
		p.gap(false)
	}
}

// recase changes the case of some ASCII letters.
func (g G) recase(s string) string {
	switch g.n(4) {
	case 0:
		return s
	case 1:
		return asciiUpper(s)
	case 2:
		return asciiLower(s)
	}
	b := []byte(s)
	for i := range b {
		if isASCIILetter(b[i]) && g.chance(50) {
			b[i] ^= 0x20
		}
	}
	return string(b)
}

func asciiUpper(s string) string {
	b := []byte(s)
	for i := range b {
		if 'a' <= b[i] && b[i] <= 'z' {
			b[i] -= 0x20
		}
	}
	return string(b)
}

func asciiLower(s string) string {
	b := []byte(s)
	for i := range b {
		if 'A' <= b[i] && b[i] <= 'Z' {
			b[i] += 0x20
		}
	}
	return string(b)
}

// Printed is a bibliography with its source.
type Printed struct {
	Doc  *Doc
	Src  Src
	Toks []Tok
}

// print gives d a layout and records positions in d. It also chooses the
// delimiters of declarations and the case of words.
func (g G) print(d *Doc, cfg layoutCfg) Printed {
	p := &printer{g: g, cfg: cfg, nl: "\n"}
	if !cfg.plain {
		p.wild = g.n(3)
		p.com = pick(g, 5, 20, 60)
		if g.chance(20) {
			p.nl = "\r\n"
		} else if g.chance(5) {
			p.nl = "\r"
		}
		if g.chance(8) {
			p.sb.WriteString("\ufeff")
		}
	}
	p.gap(false)
	for i := range d.Decls {
		dc := &d.Decls[i]
		if !cfg.plain {
			dc.Word = g.recase(dc.Word)
			for j := range dc.Items {
				if !dc.Items[j].Key {
					dc.Items[j].Name = g.recase(dc.Items[j].Name)
				}
			}
			dc.Paren = g.chance(25)
		}
		dc.Pos = p.tok("@" + dc.Word)
		p.toks[len(p.toks)-1].Decl = i + 1
		p.gap(false)
		open, closer := "{", "}"
		if dc.Paren {
			open, closer = "(", ")"
		}
		dc.Open = p.tok(open)
		p.gap(false)
		switch dc.K {
		case "bib":
			for j := range dc.Items {
				p.item(dc, i, j, j == len(dc.Items)-1)
			}
		case "abbrev":
			p.item(dc, i, 0, true)
		case "pre":
			p.val(&dc.Val)
			p.gap(false)
		}
		dc.Close = p.tok(closer)
		if dc.K == "bib" && !cfg.plain && g.chance(15) {
			p.gap(false)
			p.tok(",")
		}
		p.gap(false)
		if cfg.plain {
			p.sb.WriteString("\n")
		}
	}
	if cfg.comments && !cfg.plain && g.chance(10) {
		p.comment() // a comment that ends with the file
	}
	return Printed{Doc: d, Src: Src(p.sb.String()), Toks: p.toks}
}

// checkPrinted makes sure that the model is right about its own source.
func (pr *Printed) selfCheck() error {
	src := string(pr.Src)
	if !utf8.ValidString(src) {
		return fmt.Errorf("generator: invalid UTF-8")
	}
	var err error
	at := func(what, s string, pos int) {
		if err == nil && (pos < 0 || pos+len(s) > len(src) || src[pos:pos+len(s)] != s) {
			err = fmt.Errorf("generator: %s %q not at %d", what, s, pos)
		}
	}
	pr.Doc.ops(func(o *Op) {
		at("operand", o.source(), o.Pos)
		walkPieces(o.Pieces, func(p *Piece) {
			at("piece", p.source(), p.Pos)
			if p.Pos+len(p.source()) != p.End {
				err = fmt.Errorf("generator: end of %q", p.source())
			}
		})
	})
	for i := range pr.Doc.Decls {
		d := &pr.Doc.Decls[i]
		at("decl", "@"+d.Word, d.Pos)
		for j := range d.Items {
			at("item", d.Items[j].Name, d.Items[j].Pos)
		}
	}
	return err
}
