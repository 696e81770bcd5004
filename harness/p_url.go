package main

// C24: addresses.

import (
	"fmt"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
)

// urlPart is an address, bare or as the argument of a macro, with what stands
// before it.
type urlPart struct {
	Before string // a plain word or white space
	Macro  string // url, href or nothing
	Addr   string // bare: pieces of an address and escaped characters
	Esc    bool   `json:",omitempty"` // bare: an escaped character
	Trail  string // white space at the end of a macro's argument
	Label  string // argument of href
}

func (p *urlPart) source() string {
	s := p.Before
	switch {
	case p.Esc:
		return s + `\` + p.Addr
	case p.Macro == "":
		return s + p.Addr
	}
	s += `\` + p.Macro + "{" + p.Addr + p.Trail + "}"
	if p.Macro == "href" {
		s += "{" + p.Label + "}"
	}
	return s
}

func (p *urlPart) text() string {
	s := p.Before + p.Addr
	if p.Macro == "href" {
		s += p.Label
	}
	return s
}

type urlCase struct {
	Parts []urlPart
	After string // white space or a word
	Quote bool
	Tag   string
	Mode  parser.Mode
	Noise int // resolvers that should not matter
}

func (c *urlCase) content() string {
	sb := strings.Builder{}
	for i := range c.Parts {
		sb.WriteString(c.Parts[i].source())
	}
	return sb.String() + c.After
}

func (c *urlCase) text() string {
	sb := strings.Builder{}
	for i := range c.Parts {
		sb.WriteString(c.Parts[i].text())
	}
	return sb.String() + c.After
}

// squash makes every run of white space one space.
func squash(s string) string {
	sb := strings.Builder{}
	space := false
	for i := 0; i < len(s); i++ {
		if isSpaceByte(s[i]) {
			if !space {
				sb.WriteByte(' ')
			}
			space = true
			continue
		}
		space = false
		sb.WriteByte(s[i])
	}
	return sb.String()
}

var urlTags = []string{"url", "URL", "Url", "uRl", "urL", "URl"}

func genURL(g G) urlCase {
	c := urlCase{Quote: g.chance(50), Mode: g.modeBits() &^ parser.Trace, Noise: g.n(4)}
	ws := func() string { return pick(g, "", "", "", " ", "\n", "\t ", "\r\n") }
	switch k := g.n(10); {
	case k <= 3: // a bare address
		c.Tag = pick(g, urlTags...)
		c.Parts = []urlPart{{Before: ws(), Addr: g.address(false, c.Quote)}}
		if g.chance(20) {
			// Several, or with escapes.
			for i := 1 + g.n(4); i > 0; i-- {
				if g.chance(50) {
					c.Parts = append(c.Parts, urlPart{Esc: true, Addr: pick(g, "_", "%", "&", "#", "$")})
					c.Parts = append(c.Parts, urlPart{Addr: g.address(false, c.Quote)})
				} else {
					c.Parts = append(c.Parts, urlPart{Before: pick(g, " ", "\n", " \t"), Addr: g.address(false, c.Quote)})
				}
			}
		}
		c.After = ws()
	case k <= 6: // a macro in a url tag
		c.Tag = pick(g, urlTags...)
		c.Parts = []urlPart{{Before: ws(), Macro: "url", Addr: g.address(true, c.Quote), Trail: ws()}}
		c.After = ws()
	default: // macros in any tag
		c.Tag = pick(g, "note", "howpublished", "urls", "x", "URLdate", "doi", "url")
		if w, ok := g.novel(isTagNameText); ok {
			c.Tag = w
		}
		for i := 1 + g.n(3); i > 0; i-- {
			p := urlPart{Macro: pick(g, "url", "href"), Addr: g.address(true, c.Quote), Trail: ws()}
			p.Before = pick(g, "", "See ", "at:", "x\n", "(", "é ")
			if w, ok := g.novel(isAddressText); ok {
				p.Before = strings.Map(func(r rune) rune {
					if r == ',' || r == '~' {
						return 'q'
					}
					return r
				}, w)
			}
			if p.Macro == "href" {
				p.Label = pick(g, "", "here", "a b", "x/y")
			}
			c.Parts = append(c.Parts, p)
		}
		c.After = pick(g, "", ".", " there", ")")
	}
	return c
}

func checkURL(c urlCase, o *Obs) error {
	l, r := "{", "}"
	if c.Quote {
		l, r = `"`, `"`
	}
	content, want := c.content(), squash(c.text())
	o.NonTrivial(c.Tag, l, content)
	isURL := strings.EqualFold(c.Tag, "url")
	kind := "bare"
	if c.Parts[0].Macro != "" {
		kind = "macro"
	}
	if isURL {
		o.Label("url tag, " + kind)
	} else {
		o.Label("other tag")
	}
	for i, s := range []string{"$", "~", ",", "#", "%", "--", "{", `\`, `"`} {
		if strings.Contains(c.text(), s) {
			o.Label(fmt.Sprintf("char %d %s", i, s))
		}
	}
	src := "@misc{k,\n  before = {a~b, c},\n  " + c.Tag + " = " + l + content + r + ",\n  after = {d~e -- f}\n}\n@misc{k2, x = 1}"

	name := strings.ToLower(c.Tag)
	entry := func(es []bibtex.Entry) error {
		if len(es) != 2 || es[0].Key != "k" || es[1].Key != "k2" || len(es[0].Tags) != 3 || len(es[1].Tags) != 1 {
			return fmt.Errorf("source %q: entries %v", src, es)
		}
		return nil
	}
	mode := c.Mode | parser.ParseStrings
	biber := func(rs ...bibtex.Resolver) (*ast.File, []bibtex.Entry, error) {
		b := bibtex.New(bibtex.WithParserMode(mode), bibtex.WithResolvers(rs...))
		f, err := b.Parse(strings.NewReader(src))
		if err != nil {
			return nil, nil, fmt.Errorf("source %q: %w", src, err)
		}
		es, err := b.Resolve(f)
		if err != nil {
			return nil, nil, fmt.Errorf("source %q: resolve: %w", src, err)
		}
		return f, es, entry(es)
	}

	// Resolved to text.
	rs := []bibtex.Resolver{bibtex.NewRenderParsedTextResolver()}
	if c.Noise&1 != 0 {
		rs = append([]bibtex.Resolver{bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver)}, rs...)
	}
	if c.Noise&2 != 0 {
		rs = append([]bibtex.Resolver{bibtex.NewAuthorResolver("author")}, rs...)
	}
	_, es, err := biber(rs...)
	if err != nil {
		return err
	}
	for tag, val := range map[string]string{"before": "a b, c", "after": "d e -- f", name: want} {
		got, err := exprText(es[0].Tags[tag])
		if err != nil {
			return fmt.Errorf("source %q: tag %s: %w", src, tag, err)
		}
		if got != val {
			return fmt.Errorf("source %q: tag %s resolves to %q, want %q", src, tag, got, val)
		}
	}

	// As parsed.
	_, es, err = biber()
	if err != nil {
		return err
	}
	val := es[0].Tags[name]
	txt, ok := val.(*ast.ParsedText)
	if !ok {
		return fmt.Errorf("source %q: the tag holds a %T", src, val)
	}
	before := dump(txt, 0)
	sb := &strings.Builder{}
	if err := render.NewTextRenderer().Render(sb, txt); err != nil {
		return fmt.Errorf("source %q: render: %w", src, err)
	}
	if sb.String() != want {
		return fmt.Errorf("source %q: rendered as %q, want %q", src, sb, want)
	}
	var macros []*ast.TextMacro
	_ = ast.Walk(txt, func(n ast.Node, entering bool) (ast.WalkStatus, error) {
		if m, ok := n.(*ast.TextMacro); ok && entering {
			macros = append(macros, m)
		}
		return ast.WalkContinue, nil
	})
	i := 0
	for j := range c.Parts {
		p := &c.Parts[j]
		if p.Macro == "" {
			continue
		}
		if i >= len(macros) {
			return fmt.Errorf("source %q: %d macros", src, len(macros))
		}
		m := macros[i]
		i++
		if strings.TrimPrefix(m.Name, `\`) != p.Macro || len(m.Values) != 1 {
			return fmt.Errorf("source %q: macro %d is %q with %d values", src, i-1, m.Name, len(m.Values))
		}
		if got, err := exprText(m.Values[0]); err != nil || got != p.Addr {
			return fmt.Errorf("source %q: address %q, %v, want %q", src, got, err, p.Addr)
		}
	}
	if i != len(macros) {
		return fmt.Errorf("source %q: %d macros, want %d", src, len(macros), i)
	}
	// The default renderer keeps an address that stands alone as well.
	if len(c.Parts) == 1 && isURL && c.Parts[0].Macro != "href" {
		sb.Reset()
		if err := bibtex.New().Render(sb, txt); err != nil {
			return fmt.Errorf("source %q: default render: %w", src, err)
		}
		if sb.String() != l+want+r {
			return fmt.Errorf("source %q: default render %q, want %q", src, sb, l+want+r)
		}
	}
	if after := dump(txt, 0); after != before {
		return fmt.Errorf("source %q: rendering changes the value: %s", src, firstDiff(before, after))
	}

	// Without string parsing the content is there as written, when a string of
	// this content ends at the same place.
	if strings.ContainsAny(content, `\`) && strings.ContainsAny(c.text(), `\`) {
		return nil
	}
	if c.Quote && quoteOutsideBraces(content) {
		return nil // ends a raw string
	}
	mode = c.Mode &^ parser.ParseStrings
	_, es, err = biber()
	if err != nil {
		return fmt.Errorf("raw: %w", err)
	}
	raw, ok := es[0].Tags[name].(*ast.UnparsedText)
	if !ok {
		return fmt.Errorf("raw source %q: the tag holds a %T", src, es[0].Tags[name])
	}
	if raw.Value != content {
		return fmt.Errorf("raw source %q: the tag holds %q", src, raw.Value)
	}
	return nil
}

func quoteOutsideBraces(s string) bool {
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '{':
			depth++
		case '}':
			depth--
		case '"':
			if depth == 0 {
				return true
			}
		}
	}
	return false
}

// enumURLs lists addresses with any two special characters next to each other.
func enumURLs() []urlCase {
	var out []urlCase
	chars := []string{"\u00e9", "$x$", ""}
	for b := byte('!'); b < 0x7f; b++ {
		if !strings.ContainsRune(`{}\$`, rune(b)) && !isASCIILetter(b) && !isDigit(b) {
			chars = append(chars, string(rune(b)))
		}
	}
	chars = append(chars, "a", "Z", "0")
	for _, quote := range []bool{false, true} {
		for _, macro := range []string{"", "url"} {
			for _, a := range chars {
				for _, b := range chars {
					if quote && macro == "" && (a == `"` || b == `"`) {
						continue
					}
					for _, ctx := range []string{"x", ""} {
						if a+b+ctx == "" {
							continue
						}
						p := urlPart{Macro: macro, Addr: ctx + a + b + ctx}
						out = append(out, urlCase{Parts: []urlPart{p}, Quote: quote, Tag: urlTags[len(out)%len(urlTags)]})
					}
				}
			}
		}
	}
	return out
}

func init() {
	register(Def[urlCase]{
		ID:    "C24",
		Rule:  "url tags in any letter case with any two address characters next to each other, then random addresses, bare or as a macro's argument, quoted or braced, with white space and escapes around them, and url/href macros in other tags; resolved, rendered and inspected; compared with the address written; all cases are non-trivial; distinct by tag and content",
		Quick: 2000000, Thorough: 30000000,
		Gen: genURL, Check: checkURL, Enum: enumURLs,
	})
}
