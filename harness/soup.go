package main

// Sources of any shape: printed bibliographies, mutated ones, sequences of
// fragments, and arbitrary bytes.

import (
	"strings"
)

// fragments are what sources are made of.
var fragments = []string{
	"@article", "@book{k,", "@misc(k,", "@string{", "@string(x = ", "@preamble{", "@preamble(", "@comment", "@Comment{", "@STRING", "@", "@ ", "@é", "@1",
	"{", "}", "(", ")", `"`, ",", "=", "#", " ", "\n", "\t", "\r\n", "%", "% c\n", "%\n", "% c",
	"a", "k", "title", "author = ", "url = ", "URL=", "x = {", `x = "`, "x = 1", "year", "2004", "12a", "and", " and ", "others", "von", "Last", "First",
	`\`, `\\`, "$", "$x$", "~", `\{`, `\}`, `\"`, `\'`, `\c`, `\c c`, `\'{o}`, `\'o`, `\'\i`, `{\'\i}`, `\"{`, `\^{\j}`, `\.i`, `\=o`, `\c{c}`, `\'1`, `\' `,
	`\emph`, `\emph{`, `\url`, `\url{`, `\href{`, `\url{http://x.org/~a,b}`, `\url{a b}`, `\&`, `\%`, `\$`, `\_`, `\#`, `\,`, `\;`, `\(`, `\)`, `\[`, `\-`, `\1`, "\\é",
	"\x00", "\x80", "\xff", "\xc3", "\xef\xbb\xbf", "\xef\xbb", "é", "日本", "\u2028", "\u00a0", "\v", "\x7f", "_", "-", ".", "'", "`", "^", "|", "[", "]", "!", ";", ":", "<", ">", "?", "/", "*", "+", "&",
	"{}", `""`, "{x}", `"x"`, "{{x}}", `{"}`, `"{"}"`, "x = {} # {}", "= {a} # b # 1,", "}\n@misc{l,", "@a{k}", "@a{}", "@a{b,c,d}", "@string{x={y}}", "@preamble{{x}}",
}

// stringFragments are what the contents of strings are made of.
var stringFragments = []string{
	"a", "b", "Knuth", "Donald", "von", "and", " and ", "others", ",", ", ", " ", "  ", "\n", "\t", "~", "{", "}", `"`, "$", "$x$", "$$", "--", "-", "é", "日", "İ",
	`\\`, `\{`, `\}`, `\&`, `\%`, `\$`, `\_`, `\#`, `\'o`, `\'{o}`, `\' o`, `\'  {e}`, `\"u`, `\"{U}`, `\c c`, `\c{C}`, `\cc`, `\^\i`, `{\'\i}`, `\'{\i}`, `\.i`, `\~n`, "\\`a", `\'x`, `\c o`,
	`\emph`, `\LaTeX`, `\emph{x}`, `\cite{k}`, `\url{x}`, `\url{http://a.b/~c?d=e,f#g%20}`, `\href{y}`, `\url{a$b}`, `\url{`, `\url`, `\i`, `\o`, `\,`, `\;`, `\(`, `\]`, `\`, `\-`, `\=o`, `\'`, `\c`, `\c{`, `\'{`,
	"{}", "{x}", "{von}", "{{y} z}", "{and}", "{, }", "@", "#", "=", "%", "% c\n", "(", ")", "1", "2004", "'", "`", "\x00", "\xff", "\ufeff", "\v",
}

func (g G) soup(pool []string, lo, hi int) string {
	return strings.Join(list(g, lo, hi, func(g G) string { return g.fragment(pool) }), "")
}

func (g G) fragment(pool []string) string {
	if w, ok := g.novel(func(string) bool { return true }); ok {
		return w
	}
	s := pool[g.n(len(pool))]
	if n, ok := g.size(2000); ok && n*len(s) < 4000 {
		s = strings.Repeat(s, n)
	}
	return s
}

func (g G) rawBytes(n int) string {
	return string(list(g, 0, n, func(g G) byte {
		switch g.n(3) {
		case 0:
			return byte(g.n(256))
		case 1:
			const s = "@{}()\"=,#%\\$~ \n"
			return s[g.n(len(s))]
		}
		return byte(' ' + g.n(95))
	}))
}

// mutate changes a source in a few places.
func (g G) mutate(s string, n int) string {
	for ; n > 0 && len(s) > 0; n-- {
		i := g.n(len(s) + 1)
		j := min(len(s), i+1+g.small(3, 40))
		switch g.n(8) {
		case 0, 1:
			s = s[:i] + s[j:]
		case 2, 3:
			s = s[:i] + g.fragment(fragments) + s[i:]
		case 4:
			s = s[:i] + g.fragment(fragments) + s[j:]
		case 5:
			s = s[:i]
		case 6:
			k := g.n(len(s) + 1)
			s = s[:k] + s[i:j] + s[k:]
		case 7:
			s = s[:i] + g.fragment(stringFragments) + s[i:]
		}
	}
	return s
}

// printedSource is the source of a random well-formed bibliography.
func (g G) printedSource() string {
	cfg := docCfg{str: strCfg{all: g.chance(50)}, decls: 2}
	pr := g.print(g.doc(cfg), layoutCfg{comments: g.chance(50), plain: g.chance(20)})
	return string(pr.Src)
}

// inField puts the contents of a string into a field.
func (g G) inField(content string) string {
	name := pick(g, "title", "author", "url", "editor", "x", "URL")
	if w, ok := g.novel(isTagNameText); ok {
		name = w
	}
	if g.chance(50) {
		return "@misc{k, " + name + ` = "` + content + `"}`
	}
	return "@misc{k, " + name + " = {" + content + "}}"
}

// anySource returns a source of any shape.
func (g G) anySource() string {
	switch k := g.n(20); {
	case k <= 4:
		return g.mutate(g.printedSource(), 1+g.n(4))
	case k <= 7:
		return g.printedSource()
	case k <= 11:
		return g.soup(fragments, 0, 20)
	case k <= 15:
		return g.inField(g.soup(stringFragments, 0, 12))
	case k <= 17:
		return g.mutate(g.inField(g.soup(stringFragments, 0, 12)), 1+g.n(2))
	case k == 18:
		pre := g.soup(fragments, 0, 4)
		mid := g.soup(fragments, 1, 3)
		if g.chance(50) {
			mid = g.soup(stringFragments, 1, 3)
		}
		n := 1 + g.small(20, 300)
		if len(mid) > 500 {
			n = 1 + g.n(20)
		}
		return pre + strings.Repeat(mid, n) + g.soup(fragments, 0, 4)
	}
	return g.rawBytes(60)
}

// shrinkText makes a failing text smaller: it removes chunks and simplifies
// bytes as long as the text still fails.
func shrinkText(s string, fails func(string) bool, budget func() bool) string {
	for chunk := len(s) / 2; chunk >= 1; {
		removed := false
		for i := 0; i+chunk <= len(s) && budget(); {
			t := s[:i] + s[i+chunk:]
			if fails(t) {
				s, removed = t, true
			} else {
				i += chunk
			}
		}
		if !removed || chunk > len(s) {
			chunk /= 2
			if chunk > len(s)/2 && len(s) > 1 {
				chunk = len(s) / 2
			}
		}
		if !budget() {
			break
		}
	}
	for i := 0; i < len(s) && budget(); i++ {
		for _, c := range []byte{'a', ' '} {
			if s[i] == c {
				break
			}
			if t := s[:i] + string(c) + s[i+1:]; fails(t) {
				s = t
				break
			}
		}
	}
	return s
}
