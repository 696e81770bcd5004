package main

// The model of a bibliography: what was written, independent of the parser.

import (
	"strings"
)

// Piece is one construct inside a string.
type Piece struct {
	K    string  // text space nbsp comma esc math accent macro url group
	S    string  `json:",omitempty"` // text; white space; escaped char; math; letter; macro name; address
	M    string  `json:",omitempty"` // accent mark; url or href
	Form int     `json:",omitempty"` // spelling of an accent
	Sp   string  `json:",omitempty"` // spaces inside an accent; trailing space of an address
	Kids []Piece `json:",omitempty"`
	Pos  int
	End  int
}

// Spellings of accents.
const (
	accBare          = iota // \'o or \c c
	accBraced               // \'{o}
	accDotless              // \'\i at the end of a group
	accDotlessBraced        // \'{\i}
)

// source returns the source text of a piece.
func (p *Piece) source() string {
	switch p.K {
	case "text", "space":
		return p.S
	case "nbsp":
		return "~"
	case "comma":
		return ","
	case "esc":
		return `\` + p.S
	case "math":
		return "$" + p.S + "$"
	case "accent":
		switch p.Form {
		case accBraced:
			return `\` + p.M + p.Sp + "{" + p.S + "}"
		case accDotless:
			return `\` + p.M + p.Sp + `\` + p.S
		case accDotlessBraced:
			return `\` + p.M + p.Sp + `{\` + p.S + "}"
		}
		return `\` + p.M + p.Sp + p.S
	case "macro":
		return `\` + p.S
	case "url":
		return `\` + p.M + "{" + p.S + p.Sp + "}"
	case "group":
		sb := strings.Builder{}
		sb.WriteByte('{')
		for i := range p.Kids {
			sb.WriteString(p.Kids[i].source())
		}
		sb.WriteByte('}')
		return sb.String()
	}
	panic("unknown piece " + p.K)
}

func piecesSource(ps []Piece) string {
	sb := strings.Builder{}
	for i := range ps {
		sb.WriteString(ps[i].source())
	}
	return sb.String()
}

// place sets the positions of the pieces, which start at off.
func placePieces(ps []Piece, off int) int {
	for i := range ps {
		p := &ps[i]
		p.Pos = off
		if p.K == "group" {
			off = placePieces(p.Kids, off+1) + 1
		} else {
			off += len(p.source())
		}
		p.End = off
	}
	return off
}

func walkPieces(ps []Piece, f func(p *Piece)) {
	for i := range ps {
		f(&ps[i])
		walkPieces(ps[i].Kids, f)
	}
}

// Op is an operand of a value.
type Op struct {
	K      string  // num id str
	S      string  `json:",omitempty"` // number or name
	Quote  bool    `json:",omitempty"`
	Pieces []Piece `json:",omitempty"`
	Raw    Src     `json:",omitempty"` // content instead of pieces, for raw mode
	Pos    int
	End    int
}

func (o *Op) content() string {
	if o.Raw != "" {
		return string(o.Raw)
	}
	return piecesSource(o.Pieces)
}

func (o *Op) source() string {
	if o.K != "str" {
		return o.S
	}
	if o.Quote {
		return `"` + o.content() + `"`
	}
	return "{" + o.content() + "}"
}

// Val is a value: operands joined by '#'.
type Val struct {
	Ops  []Op
	Hash []int `json:",omitempty"` // positions of the '#'
}

// Item is a key or a tag of a declaration.
type Item struct {
	Key   bool   `json:",omitempty"`
	Name  string // as spelled
	Val   Val
	Pos   int
	Eq    int // of the '='
	Comma int // of the comma behind, or 0
}

// Decl is a declaration.
type Decl struct {
	K     string // bib abbrev pre
	Word  string // as spelled, without '@'
	Paren bool   `json:",omitempty"`
	Items []Item `json:",omitempty"`
	Val   Val    // of a preamble
	Pos   int
	Open  int
	Close int
}

// Doc is a bibliography.
type Doc struct {
	Decls []Decl
}

func (d *Doc) vals(f func(v *Val)) {
	for i := range d.Decls {
		dc := &d.Decls[i]
		if dc.K == "pre" {
			f(&dc.Val)
		}
		for j := range dc.Items {
			if !dc.Items[j].Key {
				f(&dc.Items[j].Val)
			}
		}
	}
}

func (d *Doc) ops(f func(o *Op)) {
	d.vals(func(v *Val) {
		for i := range v.Ops {
			f(&v.Ops[i])
		}
	})
}

func clonePieces(ps []Piece) []Piece {
	if ps == nil {
		return nil
	}
	out := append([]Piece{}, ps...)
	for i := range out {
		out[i].Kids = clonePieces(out[i].Kids)
	}
	return out
}

func cloneVal(v Val) Val {
	v.Ops = append([]Op(nil), v.Ops...)
	v.Hash = append([]int(nil), v.Hash...)
	for i := range v.Ops {
		v.Ops[i].Pieces = clonePieces(v.Ops[i].Pieces)
	}
	return v
}

func (d *Doc) clone() *Doc {
	out := &Doc{Decls: append([]Decl(nil), d.Decls...)}
	for i := range out.Decls {
		dc := &out.Decls[i]
		dc.Val = cloneVal(dc.Val)
		dc.Items = append([]Item(nil), dc.Items...)
		for j := range dc.Items {
			dc.Items[j].Val = cloneVal(dc.Items[j].Val)
		}
	}
	return out
}

// ----------------------------------------------------------------------------
// The expected tree

// N is a node of a tree in a form that is easy to compare. A Pos or End of -1
// is not compared.
type N struct {
	K    string
	S    string
	D    int
	Pos  int
	End  int
	Kids []*N
}

func (p *Piece) tree(depth int) *N {
	n := &N{K: p.K, S: p.S, Pos: p.Pos, End: p.End}
	switch p.K {
	case "space":
		n.S, n.End = "", -1
	case "nbsp", "comma":
		n.S = ""
	case "accent":
		n.End = -1
		n.S = p.M + p.S
		letter := p.Pos + len(p.source()) - 1
		if p.Form == accBraced || p.Form == accDotlessBraced {
			letter--
		}
		n.Kids = []*N{{K: "letter", S: p.S, Pos: letter, End: letter + 1}}
	case "url":
		n.K, n.S = "macro", p.M
		a := p.Pos + len(`\`+p.M+`{`)
		n.Kids = []*N{{K: "text", S: p.S, Pos: a, End: a + len(p.S)}}
	case "group":
		n.K, n.S, n.D = "str", "brace", depth
		n.Kids = pieceTrees(p.Kids, depth+1)
	}
	return n
}

func pieceTrees(ps []Piece, depth int) []*N {
	var out []*N
	for i := range ps {
		out = append(out, ps[i].tree(depth))
	}
	return out
}

func (o *Op) tree(parsed bool) *N {
	switch {
	case o.K != "str":
		return &N{K: o.K, S: o.S, Pos: o.Pos, End: o.End}
	case parsed:
		n := &N{K: "str", S: "brace", Pos: o.Pos, End: o.End, Kids: pieceTrees(o.Pieces, 1)}
		if o.Quote {
			n.S = "quote"
		}
		return n
	default:
		n := &N{K: "raw", S: "brace:" + o.content(), Pos: o.Pos, End: o.End}
		if o.Quote {
			n.S = "quote:" + o.content()
		}
		return n
	}
}

func (v *Val) tree(parsed bool) *N {
	i := len(v.Ops) - 1
	n := v.Ops[i].tree(parsed)
	for i--; i >= 0; i-- {
		x := v.Ops[i].tree(parsed)
		n = &N{K: "concat", Pos: x.Pos, End: n.End, Kids: []*N{x, {K: "op", Pos: v.Hash[i], End: -1}, n}}
	}
	return n
}

func (it *Item) tree(parsed bool) *N {
	if it.Key {
		return &N{K: "key", S: it.Name, Pos: it.Pos, End: it.Pos + len(it.Name)}
	}
	v := it.Val.tree(parsed)
	return &N{K: "tag", S: strings.ToLower(it.Name) + "|" + it.Name, Pos: it.Pos, End: v.End, Kids: []*N{v}}
}

func (d *Decl) tree(parsed bool) *N {
	n := &N{K: d.K, Pos: d.Pos, End: d.Close + 1}
	switch d.K {
	case "bib":
		n.S = strings.ToLower(d.Word)
		first := true
		var extra, tags []*N
		for i := range d.Items {
			t := d.Items[i].tree(parsed)
			switch {
			case !d.Items[i].Key:
				tags = append(tags, t)
			case first:
				first = false
				n.Kids = append(n.Kids, t)
			default:
				t.K = "extra"
				extra = append(extra, t)
			}
		}
		n.Kids = append(append(n.Kids, extra...), tags...)
	case "abbrev":
		n.Kids = []*N{d.Items[0].tree(parsed)}
	case "pre":
		n.Kids = []*N{d.Val.tree(parsed)}
	}
	n.Kids = append(n.Kids, &N{K: "closer", Pos: d.Close, End: -1})
	return n
}

func (d *Doc) tree(parsed bool) *N {
	n := &N{K: "file", Pos: -1, End: -1}
	for i := range d.Decls {
		n.Kids = append(n.Kids, d.Decls[i].tree(parsed))
	}
	return n
}

// ----------------------------------------------------------------------------
// What the pieces render to

var accentMarks = []string{"'", "`", "^", `"`, "~", "c", "."}
