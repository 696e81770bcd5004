package main

import (
	"fmt"
	"strconv"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// G draws random choices. Every choice shrinks towards the first alternative.
type G struct{ t *rapid.T }

var anyUint = rapid.Uint64()

var anyBit = rapid.Bool()

// u draws a nearly uniform number that shrinks to 0.
func (g G) u() uint64 {
	x := anyUint.Draw(g.t, "")
	if x == 0 {
		return 0
	}
	return mix(x)
}

// n returns a number in [0, k).
func (g G) n(k int) int {
	if k <= 1 {
		return 0
	}
	return int(g.u() % uint64(k))
}

// in returns a number in [lo, hi].
func (g G) in(lo, hi int) int { return lo + g.n(hi-lo+1) }

// chance is true in pct percent of all draws; it shrinks to false.
func (g G) chance(pct int) bool {
	if pct <= 0 {
		return false
	}
	return g.n(1000) >= 1000-10*pct
}

// rare is true once in k draws; it shrinks to false.
func (g G) rare(k int) bool { return g.n(k) == k-1 && k > 1 }

func pick[T any](g G, xs ...T) T { return xs[g.n(len(xs))] }

// small returns a small number: mostly up to typical, sometimes up to big.
func (g G) small(typical, big int) int {
	if g.rare(24) {
		return g.n(big + 1)
	}
	return g.n(typical + 1)
}

// Src is a string of any bytes that survives JSON.
type Src string

func (s Src) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(string(s))
	return []byte(strconv.Quote(q)), nil // q is ASCII without control characters
}

func (s *Src) UnmarshalJSON(b []byte) error {
	q, err := strconv.Unquote(string(b))
	if err != nil {
		return fmt.Errorf("source text: %w", err)
	}
	v, err := strconv.Unquote(q)
	if err != nil {
		return fmt.Errorf("source text: %w", err)
	}
	*s = Src(v)
	return nil
}

func isASCIILetter(c byte) bool { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }

func isDigit(c byte) bool { return '0' <= c && c <= '9' }

const namePunct = "_-/!$&*+.:;<>?[]^`|"

func isNameByte(c byte) bool {
	if isASCIILetter(c) || isDigit(c) {
		return true
	}
	for i := 0; i < len(namePunct); i++ {
		if namePunct[i] == c {
			return true
		}
	}
	return false
}

func isSpaceByte(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func firstRune(s string) rune {
	r, _ := utf8.DecodeRuneInString(s)
	return r
}

// list draws between lo and hi elements, on average half of hi when that is a
// small number. Elements are removed one by one when a case shrinks.
func list[T any](g G, lo, hi int, elem func(g G) T) []T {
	if hi <= 0 {
		return nil
	}
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) T {
		anyBit.Draw(t, "") // rapid wants every element to draw something
		return elem(G{t: t})
	}), lo, hi).Draw(g.t, "")
}
