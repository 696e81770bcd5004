package main

// C20: accents.

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/token"
)

// Acc is an accent in one of its spellings, with text before it.
type Acc struct {
	Before string
	Mark   string
	Letter string // one ASCII letter
	Form   int
	Sp     int // spaces in front of the argument
	Nest   int `json:",omitempty"` // further groups around
}

// The spellings of an accent. An i or j may be spelled dotless where a group
// ends behind it.
const (
	spellBare = iota
	spellBraced
	spellGroup          // {\'o}
	spellGroupBraced    // {\'{o}}
	spellTwoGroups      // {{\'o}}
	spellBracedDotless  // \'{\i}
	spellGroupDotless   // {\'\i}
	spellGroupBrDotless // {\'{\i}}
	spellForms
)

func (a *Acc) source() string {
	sp := a.Sp
	dot := ""
	switch a.Form {
	case spellBracedDotless, spellGroupDotless, spellGroupBrDotless:
		if a.Letter == "i" || a.Letter == "j" {
			dot = `\`
		}
	}
	braced := false
	switch a.Form {
	case spellBraced, spellGroupBraced, spellBracedDotless, spellGroupBrDotless:
		braced = true
	}
	if !braced && dot == "" && isASCIILetter(a.Mark[0]) {
		sp = max(sp, 1)
	}
	s := `\` + a.Mark + strings.Repeat(" ", sp)
	if braced {
		s += "{" + dot + a.Letter + "}"
	} else {
		s += dot + a.Letter
	}
	switch a.Form {
	case spellGroup, spellGroupBraced, spellGroupDotless, spellGroupBrDotless:
		s = "{" + s + "}"
	case spellTwoGroups:
		s = "{{" + s + "}}"
	}
	return a.Before + strings.Repeat("{", a.Nest) + s + strings.Repeat("}", a.Nest)
}

// accCase is a string that holds accents, or an argument for RenderAccent, or
// an argument of an accent that need not be a letter.
type accCase struct {
	Accs  []Acc  `json:",omitempty"`
	After string `json:",omitempty"`
	Quote bool
	// RenderAccent
	Direct bool `json:",omitempty"`
	Accent int  `json:",omitempty"`
	Text   Src  `json:",omitempty"`
	// Any argument
	Arg *Src `json:",omitempty"`
}

func (c *accCase) delims() (string, string) {
	if c.Quote {
		return `"`, `"`
	}
	return "{", "}"
}

var supportedAccents = func() map[string]bool {
	m := map[string]bool{}
	for _, p := range accentPairs {
		m[p] = true
	}
	return m
}()

// renderings renders a string in every way there is. Each result is a text or
// an error.
type rendering struct {
	name, text string
	err        error
}

func accentRenderings(src string) (out []rendering, parseErr error) {
	doc := "@misc{k, x = " + src + ", author = " + src + "}"
	p := parseAt(doc, parser.ParseStrings, 0)
	if p.err != nil {
		return nil, p.err
	}
	decl := p.file.Entries[0].(*ast.BibDecl)
	if len(decl.Tags) != 2 {
		return nil, fmt.Errorf("source %q: %d tags", doc, len(decl.Tags))
	}
	txt, ok := decl.Tags[0].Value.(*ast.ParsedText)
	auth, ok2 := decl.Tags[1].Value.(*ast.ParsedText)
	if !ok || !ok2 {
		return nil, fmt.Errorf("source %q: a field is a %T", doc, decl.Tags[0].Value)
	}
	sb := &strings.Builder{}
	err := render.NewTextRenderer().Render(sb, txt)
	out = append(out, rendering{"text renderer", sb.String(), err})

	sb = &strings.Builder{}
	err = bibtex.New().Render(sb, txt)
	out = append(out, rendering{"default render", stripBraces(sb.String()), err})

	as, err := bibtex.ExtractAuthors(auth)
	r := rendering{"authors", "", err}
	if err == nil {
		if len(as) != 1 {
			return nil, fmt.Errorf("source %q: %d authors", doc, len(as))
		}
		parts, err := partTexts(as[0])
		if err != nil {
			return nil, fmt.Errorf("source %q: %w", doc, err)
		}
		r.text = parts[0] + parts[1] + parts[2] + parts[3]
	}
	out = append(out, r)

	es, err := bibtex.New(bibtex.WithResolvers(bibtex.NewRenderParsedTextResolver())).Resolve(p.file)
	r = rendering{"text resolver", "", err}
	if err == nil {
		if r.text, err = exprText(es[0].Tags["x"]); err != nil {
			return nil, fmt.Errorf("source %q: resolved: %w", doc, err)
		}
	}
	return append(out, r), nil
}

// stripBraces removes the delimiters that the default renderer writes.
func stripBraces(s string) string {
	return strings.NewReplacer("{", "", "}", "", `"`, "").Replace(s)
}

func checkAccent(c accCase, o *Obs) error {
	if c.Direct {
		return checkRenderAccent(token.Accent(c.Accent), string(c.Text), o)
	}
	if c.Arg != nil {
		return checkAccentArg(c, o)
	}
	l, r := c.delims()
	want, bad := "", ""
	src := l
	for i := range c.Accs {
		a := &c.Accs[i]
		src += a.source()
		want += a.Before
		s := composed(a.Mark[0], rune(a.Letter[0]))
		if !supportedAccents[a.Mark+a.Letter] {
			if bad == "" {
				bad = a.Mark + a.Letter
			}
		} else if s == "" {
			return fmt.Errorf("no letter is known for accent %s%s", a.Mark, a.Letter)
		}
		want += s
		o.Label(fmt.Sprintf("form %d", a.Form))
	}
	src += c.After + r
	want += c.After
	o.NonTrivial(src)
	res, err := accentRenderings(src)
	if err != nil {
		if bad != "" {
			o.Label("unsupported: parse error")
			return nil
		}
		return fmt.Errorf("string %s: %w", src, err)
	}
	for _, r := range res {
		if r.err != nil {
			if bad == "" {
				return fmt.Errorf("string %s: %s: %w", src, r.name, r.err)
			}
			continue
		}
		if r.text != want {
			if bad != "" {
				return fmt.Errorf("string %s: %s: %q for unsupported accent %s without error", src, r.name, r.text, bad)
			}
			return fmt.Errorf("string %s: %s: %q, want %q", src, r.name, r.text, want)
		}
		if bad != "" {
			for i := range c.Accs {
				if a := &c.Accs[i]; composed(a.Mark[0], rune(a.Letter[0])) == "" {
					return fmt.Errorf("string %s: %s: %q for accent %s%s, for which there is no letter", src, r.name, r.text, a.Mark, a.Letter)
				}
			}
		}
	}
	o.LabelIf(bad != "", "unsupported")
	o.LabelIf(bad == "", "supported")
	return nil
}

func checkRenderAccent(a token.Accent, text string, o *Obs) error {
	o.NonTrivial("direct", fmt.Sprint(int(a)), text)
	r, err := render.RenderAccent(a, text)
	key := ""
	if a > 0 && a < 128 {
		key = string(rune(a)) + text
	}
	if supportedAccents[key] {
		o.Label("direct: supported")
		want, _ := utf8.DecodeRuneInString(accentLetters[key])
		if err != nil || r != want {
			return fmt.Errorf("RenderAccent(%q, %q) = %q, %v, want %q", rune(a), text, r, err, want)
		}
		return nil
	}
	o.Label("direct: unsupported")
	if err != nil {
		return nil
	}
	if base, n := utf8.DecodeRuneInString(text); key != "" && n == len(text) && n > 0 && string(r) == composed(byte(a), base) {
		return nil // a letter that has become supported
	}
	return fmt.Errorf("RenderAccent(%q, %q) = %q without error", rune(a), text, r)
}

// checkAccentArg looks at accents whose argument is no plain letter: nothing
// but an error is right, unless the argument is a letter after all.
func checkAccentArg(c accCase, o *Obs) error {
	if len(c.Accs) != 1 {
		return nil
	}
	a := c.Accs[0]
	l, r := c.delims()
	src := l + a.Before + `\` + a.Mark + string(*c.Arg) + r
	o.NonTrivial(src)
	res, err := accentRenderings(src)
	if err != nil {
		o.Label("argument: parse error")
		return nil
	}
	o.Label("argument: parsed")
	arg := strings.TrimLeft(string(*c.Arg), " \t\r\n")
	if arg != "" && isASCIILetter(arg[0]) || len(arg) > 2 && arg[0] == '{' && isASCIILetter(arg[1]) && arg[2] == '}' {
		return nil // a letter after all
	}
	arg = strings.NewReplacer("{", "", "}", "", " ", "", "\t", "", "\n", "", `\`, "").Replace(arg)
	base, n := utf8.DecodeRuneInString(arg)
	want := a.Before + composed(a.Mark[0], base) + arg[n:]
	for _, r := range res {
		if r.err != nil {
			continue
		}
		if composed(a.Mark[0], base) == "" || noSpace(r.text) != noSpace(want) {
			return fmt.Errorf("string %s: %s: %q without error", src, r.name, r.text)
		}
	}
	return nil
}

// accentArgs are arguments that have no accented form.
var accentArgs = []string{
	"", " ", "  ", "{}", "{ }", "1", "{1}", " 1", "{12}", "{ab}", "{oe}", "{o", `\alpha`, `{\alpha}`, `\&`, "$x$", "{$x$}", ",", ".", "-", "~", "{~}", "é", "{é}", "日", "#", `\\`, `\'`, `\'o`, `{\'o}`,
	"{o }", "{o~}", "{o,}", "{o-}", "{{}}", "{{o}{}}", "*", "(", `\ae`, `{\ae}`, "{o'}", "@", "{\x00}", "\xff", "{\xff}", "{o\xff}", "\n", "\t1", "{I\u0307}", "ı1"[:2], "{ı}", "ȷ",
}

func genAcc(g G) Acc {
	a := Acc{Form: g.n(spellForms)}
	if g.chance(75) {
		pr := accentPairs[g.n(len(accentPairs))]
		a.Mark, a.Letter = pr[:1], pr[1:]
	} else {
		a.Mark, a.Letter = pick(g, accentMarks...), g.letter()
	}
	if g.chance(30) {
		a.Sp = 1 + g.n(4)
	}
	if g.rare(6) {
		a.Nest = 1 + g.small(4, 30)
	}
	if g.chance(60) {
		a.Before = pick(g, "x", "Sm", "A-B", "1", "é", ".", "'", "ab cd"[:2], "c", "i", "j", "日")
		if w, ok := g.novel(isWordText); ok {
			a.Before = w
		}
	}
	return a
}

func genAccCase(g G) (c accCase) {
	c = accCase{Quote: g.chance(50)}
	switch k := g.n(10); {
	case k <= 6:
		hi := 4
		if g.rare(30) {
			hi = 40
		}
		c.Accs = list(g, 1, hi, genAcc)
		if g.chance(30) {
			for i := range c.Accs {
				pr := accentPairs[g.n(len(accentPairs))]
				c.Accs[i].Mark, c.Accs[i].Letter = pr[:1], pr[1:]
			}
		}
		if g.chance(60) {
			c.After = pick(g, "x", "ne", "-X", "1", "é", "i", "c")
			if w, ok := g.novel(isWordText); ok {
				c.After = w
			}
		}
	case k == 7:
		c.Accs = []Acc{{Mark: pick(g, accentMarks...), Before: pick(g, "", "x", "Y")}}
		s := Src(pick(g, accentArgs...))
		if g.chance(30) {
			s = Src(g.soup([]string{"{", "}", "o", "i", `\`, " ", "~", "1", "é", "$", ",", "ab", "'", "\n"}, 0, 4))
			if s != "" && isASCIILetter(s[0]) {
				s = "1" + s
			}
			if strings.Contains(string(s), `\`) || strings.Count(string(s), "{")+len(strings.Fields(string(s))) > 1 {
				s = Src(accentArgs[g.n(len(accentArgs))])
			}
		}
		c.Arg = &s
	default:
		c.Direct = true
		c.Accent = int(pick(g, '\'', '`', '^', '"', '~', '.', 'c', 0, '=', 'u', 'v', 'H', 'd', 'b', -1, 'C', 0x301, 1<<20, 255, 256+'\'', 1<<16+'\''))
		if g.chance(20) {
			c.Accent = g.n(1 << 21)
		}
		defer func() {
			if w, ok := g.novel(func(string) bool { return true }); ok {
				c.Text = Src(w)
			}
		}()
		c.Text = Src(pick(g, "", g.letter(), g.letter()+g.letter(), "é", "ı", "\u0301", " ", "o ", " o", "{o}", `\i`, "\xe9", "o\u0301", "日本", "1", "I", "i", "\x00"))
	}
	return c
}

func enumAccents() []accCase {
	letters := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	var out []accCase
	for _, quote := range []bool{false, true} {
		for _, m := range accentMarks {
			for i := range letters {
				for form := 0; form < spellForms; form++ {
					for _, sp := range []int{0, 1, 3} {
						out = append(out, accCase{Quote: quote, Accs: []Acc{{Mark: m, Letter: letters[i : i+1], Form: form, Sp: sp}}})
					}
				}
				out = append(out, accCase{Quote: quote, Accs: []Acc{{Before: "Sch", Mark: m, Letter: letters[i : i+1]}}, After: "n"})
			}
			for _, arg := range accentArgs {
				s := Src(arg)
				out = append(out, accCase{Quote: quote, Accs: []Acc{{Mark: m}}, Arg: &s}, accCase{Quote: quote, Accs: []Acc{{Mark: m, Before: "x"}}, Arg: &s})
			}
		}
	}
	for a := -2; a < 300; a++ {
		for b := 0; b < 256; b++ {
			out = append(out, accCase{Direct: true, Accent: a, Text: Src([]byte{byte(b)})})
		}
		out = append(out, accCase{Direct: true, Accent: a})
	}
	return out
}

func init() {
	register(Def[accCase]{
		ID:    "C20",
		Rule:  "every mark with every ASCII letter in every spelling and both delimiters, every single-byte text with 300 accent values, then random words made of several accents in random spellings, arguments that are no letters, and random texts; rendered by the text renderer, the default renderer, the text resolver and author extraction; compared with canonical compositions; all cases are non-trivial; distinct by source",
		Quick: 3000000, Thorough: 30000000,
		Gen: genAccCase, Check: checkAccent, Enum: enumAccents,
	})
}
