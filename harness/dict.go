package main

// A dictionary for the generators: literals of the library's source that the
// library did not have when the checks were written. What an edit compares its
// input with is worth generating more often than by chance. The dictionary only
// steers the choice of inputs; whether a result is right is up to the oracles.

import (
	_ "embed"
	"encoding/json"
	goast "go/ast"
	goparser "go/parser"
	gotok "go/token"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

//go:embed dict_base.json
var dictBase []byte

// literals counts the literals in the Go files of a directory tree, tests
// excepted.
func literals(dir string) map[string]int {
	out := map[string]int{}
	_ = filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); path != dir && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := goparser.ParseFile(gotok.NewFileSet(), path, nil, goparser.SkipObjectResolution)
		if f == nil {
			return nil
		}
		goast.Inspect(f, func(n goast.Node) bool {
			switch n := n.(type) {
			case *goast.ImportSpec:
				return false
			case *goast.BasicLit:
				if n.Kind == gotok.STRING || n.Kind == gotok.CHAR || n.Kind == gotok.INT {
					out[n.Value]++
				}
			}
			return true
		})
		return nil
	})
	return out
}

// dictionary holds new literals.
type dictionary struct {
	words []string
	sizes []int
	res   []*rapid.Generator[string]
}

// dict is the dictionary of this process. It is empty for the library that the
// checks were written for.
var dict = sync.OnceValue(func() *dictionary {
	d := &dictionary{}
	dir := os.Getenv("BIBCHECK_REPO")
	if dir == "" {
		return d
	}
	base := map[string]int{}
	if err := json.Unmarshal(dictBase, &base); err != nil {
		panic(err)
	}
	var fresh []string
	for lit, n := range literals(dir) {
		if n > base[lit] {
			fresh = append(fresh, lit)
		}
	}
	if more := os.Getenv("BIBCHECK_DICT"); more != "" { // for tests of the generators
		var lits []string
		if err := json.Unmarshal([]byte(more), &lits); err != nil {
			panic(err)
		}
		fresh = append(fresh, lits...)
	}
	sort.Strings(fresh)
	seen := map[string]bool{}
	word := func(s string) {
		if s != "" && len(s) <= 40 && utf8.ValidString(s) && !seen[s] {
			seen[s] = true
			d.words = append(d.words, s)
		}
	}
	for _, lit := range fresh {
		if s, err := strconv.Unquote(lit); err == nil {
			word(s)
			for _, f := range strings.Fields(s) {
				word(f)
			}
			if t := strings.TrimFunc(s, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) }); t != s {
				word(t)
			}
			if len(s) <= 80 && regexp.QuoteMeta(s) != s {
				if re, err := regexp.Compile(s); err == nil && re.String() != "" {
					d.res = append(d.res, rapid.StringMatching(s))
				}
			}
			continue
		}
		if n, err := strconv.ParseInt(lit, 0, 64); err == nil {
			if n >= 3 && n <= 1<<17 {
				d.sizes = append(d.sizes, int(n))
			}
			if n >= 0x80 && n <= unicode.MaxRune && utf8.ValidRune(rune(n)) {
				word(string(rune(n)))
			}
			word(strconv.FormatInt(n, 10))
		}
	}
	return d
})

// novel sometimes returns a word made from the dictionary that is ok.
func (g G) novel(ok func(s string) bool) (string, bool) {
	d := dict()
	if len(d.words) == 0 || !g.chance(10) {
		return "", false
	}
	s := d.words[g.n(len(d.words))]
	if len(d.res) > 0 && g.chance(15) {
		s = d.res[g.n(len(d.res))].Draw(g.t, "")
	}
	switch g.n(10) {
	case 5:
		s = strings.ToUpper(s)
	case 6:
		s = strings.ToLower(s)
	case 7:
		s += pick(g, "a", "B", "x1", "1", ".", "-", s)
	case 8:
		s = pick(g, "a", "B", "x1", "1", ".", "-") + s
	case 9:
		s = pick(g, "a", "B", ".") + s + pick(g, "z", "9", ".")
	}
	if s == "" || len(s) > 200 || !utf8.ValidString(s) || strings.ContainsAny(s, "\x00\ufeff") || !ok(s) {
		return "", false
	}
	return s, true
}

// size sometimes returns a size around one in the dictionary.
func (g G) size(limit int) (int, bool) {
	d := dict()
	if len(d.sizes) == 0 || !g.chance(4) {
		return 0, false
	}
	n := d.sizes[g.n(len(d.sizes))] + pick(g, 0, 1, -1, 2)
	if n > 2000 && !g.rare(8) || n > limit {
		return 0, false
	}
	return n, true
}

// Where words may stand.

func isSpaceText(s string) bool { return strings.Trim(s, " \t\r\n") == "" }

// isAddressText tells whether s is an ordinary part of an address.
func isAddressText(s string) bool {
	return !strings.ContainsFunc(s, unicode.IsSpace) && !strings.ContainsAny(s, "\\{}$\"")
}

// isWordText tells whether s is an ordinary word of a name.
func isWordText(s string) bool {
	return !strings.ContainsFunc(s, unicode.IsSpace) && !strings.ContainsAny(s, "\\{}$\",~") && s != "and"
}

// textPieces are the constructs of a text that is not in a string yet.
func textPieces(s string) []Piece {
	var out []Piece
	text := ""
	flush := func() {
		if text != "" {
			out = append(out, Piece{K: "text", S: text})
			text = ""
		}
	}
	for _, r := range s {
		switch r {
		case ' ':
			flush()
			out = append(out, Piece{K: "space", S: " "})
		case ',':
			flush()
			out = append(out, Piece{K: "comma"})
		case '~':
			flush()
			out = append(out, Piece{K: "nbsp"})
		default:
			text += string(r)
		}
	}
	flush()
	return out
}

func without(chars string) func(string) bool {
	return func(s string) bool { return !strings.ContainsAny(s, chars) }
}

func isNameText(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isNameByte(s[i]) {
			return false
		}
	}
	return true
}

func isTagNameText(s string) bool {
	return isNameText(s) && isASCIILetter(s[0]) && !strings.EqualFold(s, "url")
}

func isLetterText(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isASCIILetter(s[i]) {
			return false
		}
	}
	return true
}

func isDigitText(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isDigit(s[i]) {
			return false
		}
	}
	return true
}

func isEntryTypeText(s string) bool {
	for _, r := range s {
		if r != '_' && !unicode.IsLetter(r) {
			return false
		}
	}
	switch {
	case strings.EqualFold(s, "string"), strings.EqualFold(s, "comment"), strings.EqualFold(s, "preamble"):
		return false
	}
	return true
}

func isMacroText(s string) bool {
	return isLetterText(s) && s != "url" && s != "href" && (s[0] != 'c' || len(s) > 2)
}
