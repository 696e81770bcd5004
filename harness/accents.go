package main

import "github.com/jschaf/bibtex/token"

// composed returns the letter that an accent makes of a letter, by the
// canonical decompositions of Unicode, or "".
func composed(mark byte, base rune) string {
	if mark == '.' && base == 'i' {
		return "i" // an i has its dot already
	}
	if r, ok := compositions[accentKey{mark, base}]; ok {
		return string(r)
	}
	return ""
}

var accentOf = map[string]token.Accent{
	"'": token.AccentAcute, "`": token.AccentGrave, "^": token.AccentCircumflex, `"`: token.AccentUmlaut,
	"~": token.AccentTilde, "c": token.AccentCedilla, ".": token.AccentDot,
}
