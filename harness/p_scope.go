package main

// C25: scopes, checked against maps.

import (
	"fmt"
	gotok "go/token"
	"strings"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

// scopeOp is a step of a history: it makes a scope, inserts an object, looks a
// name up or asks for a position.
type scopeOp struct {
	K     string // new insert lookup again pos print
	Scope int    // which scope; new: the outer one, or none when negative
	Name  string
	Kind  int
	Decl  int // what declares the object
	Pos   int
	Obj   int // again: which object is inserted once more
}

type scopeCase struct{ Ops []scopeOp }

const (
	declNone = iota
	declKey
	declOtherKey
	declNoKey
	declAbbrev
	declScope
	declString
	declParsed
	declExtra
	declKinds
)

var scopeNames = []string{"a", "b", "knuth84", "A", "", "x y", "é", "a1", "string", "Knuth84", "10"}

func genScope(g G) scopeCase {
	lo, hi := 1, 24
	if g.rare(20) {
		lo, hi = 20, 200
	}
	many := g.rare(200)
	if many {
		lo, hi = 150, 900
	}
	c := scopeCase{}
	c.Ops = list(g, lo, hi, func(g G) scopeOp {
		op := scopeOp{K: pick(g, "insert", "insert", "insert", "lookup", "lookup", "new", "again", "pos", "print"), Scope: g.n(4), Name: scopeNames[min(g.n(len(scopeNames)), g.n(len(scopeNames)))], Kind: g.n(3), Decl: g.n(declKinds), Pos: 1 + g.n(1000), Obj: g.n(40)}
		if many && g.chance(80) || g.rare(5) {
			op.Name = fmt.Sprint("n", g.n(60))
			if many {
				op.Name = fmt.Sprint("n", g.n(600))
			}
		}
		if w, ok := g.novel(func(string) bool { return true }); ok {
			op.Name = w
		}
		if g.rare(5) {
			op.Name = pick(g, g.nearName(), "@"+op.Name, op.Name+" ", op.Name+op.Name)
		}
		if op.K == "new" && g.chance(20) {
			op.Scope = -1
		}
		return op
	})
	return c
}

// declOf makes what declares an object and tells where its position is.
func (op *scopeOp) declOf(s *ast.Scope) (decl interface{}, pos gotok.Pos) {
	at := gotok.Pos(op.Pos)
	switch op.Decl {
	case declKey:
		return &ast.BibDecl{Entry: at + 7, Key: &ast.Ident{NamePos: at, Name: op.Name}}, at
	case declOtherKey:
		return &ast.BibDecl{Entry: at, Key: &ast.Ident{NamePos: at, Name: op.Name + "x"}, ExtraKeys: []*ast.Ident{{NamePos: at + 3, Name: op.Name + "y"}}}, gotok.NoPos
	case declNoKey:
		return &ast.BibDecl{Entry: at}, gotok.NoPos
	case declExtra:
		// Another key than the first.
		d := &ast.BibDecl{Entry: at, Type: op.Name, ExtraKeys: []*ast.Ident{{NamePos: at + 3, Name: op.Name}}, Tags: []*ast.TagStmt{{NamePos: at + 9, Name: op.Name, RawName: op.Name, Value: &ast.Ident{NamePos: at + 12, Name: op.Name}}}}
		if op.Pos%2 == 0 {
			d.Key = &ast.Ident{NamePos: at, Name: op.Name + "x"}
		}
		return d, gotok.NoPos
	case declAbbrev:
		v := &ast.Number{ValuePos: at + 9, Value: "1"}
		return &ast.AbbrevDecl{Entry: at, Tag: &ast.TagStmt{NamePos: at + 3, Name: op.Name, RawName: op.Name, Value: v}, RBrace: at + 10}, gotok.NoPos
	case declScope:
		return s, gotok.NoPos
	case declString:
		return op.Name, gotok.NoPos
	case declParsed:
		// The key of a parsed entry.
		src := strings.Repeat("\n", op.Pos%7) + "@misc{knuth84, x = 1}"
		f, err := parser.ParseFile(gotok.NewFileSet(), "", src, 0)
		if err != nil || len(f.Entries) != 1 {
			panic(fmt.Sprintf("source %q: %v", src, err))
		}
		if op.Name != "knuth84" {
			return f.Entries[0], gotok.NoPos
		}
		return f.Entries[0], gotok.Pos(1 + strings.Index(src, "knuth84"))
	}
	return nil, gotok.NoPos
}

func checkScope(c scopeCase, o *Obs) error {
	type inserted struct {
		obj *ast.Object
		pos gotok.Pos
		was ast.Object
	}
	var (
		scopes []*ast.Scope
		outers []*ast.Scope
		models []map[string]*ast.Object
		objs   []inserted
		steps  []string
	)
	newScope := func(outer *ast.Scope) error {
		s := ast.NewScope(outer)
		if s == nil || s.Outer != outer {
			return fmt.Errorf("a new scope does not have the outer scope given")
		}
		scopes, outers, models = append(scopes, s), append(outers, outer), append(models, map[string]*ast.Object{})
		return nil
	}
	insert := func(i int, obj *ast.Object) error {
		want := models[i][obj.Name]
		got := scopes[i].Insert(obj)
		if got != want {
			return fmt.Errorf("after %s: inserting %q into scope %d returns %v, want %v", steps, obj.Name, i, got, want)
		}
		if want == nil {
			models[i][obj.Name] = obj
		} else {
			o.Label("second insert")
			if want != obj {
				o.NonTrivial(fmt.Sprint(steps))
			}
		}
		if got := scopes[i].Lookup(obj.Name); got != models[i][obj.Name] {
			return fmt.Errorf("after %s: looking %q up in scope %d right after inserting it gives %v", steps, obj.Name, i, got)
		}
		return nil
	}
	if err := newScope(nil); err != nil {
		return err
	}
	for n := range c.Ops {
		op := &c.Ops[n]
		i := -1
		if op.Scope >= 0 {
			i = op.Scope % len(scopes)
		}
		steps = append(steps, fmt.Sprintf("%s(%d, %q, %d, %d)", op.K, i, op.Name, op.Obj, op.Decl))
		switch op.K {
		case "new":
			var outer *ast.Scope
			if i >= 0 {
				outer = scopes[i]
			}
			if err := newScope(outer); err != nil {
				return err
			}
		case "insert":
			kind := ast.ObjKind(op.Kind)
			obj := ast.NewObj(kind, op.Name)
			if obj == nil || obj.Kind != kind || obj.Name != op.Name || obj.Decl != nil {
				return fmt.Errorf("a new object is %v", obj)
			}
			decl, pos := op.declOf(scopes[i])
			obj.Decl = decl
			objs = append(objs, inserted{obj, pos, *obj})
			if err := insert(i, obj); err != nil {
				return err
			}
		case "again":
			// An object that is in some scope already.
			if len(objs) > 0 {
				if err := insert(i, objs[op.Obj%len(objs)].obj); err != nil {
					return err
				}
			}
		case "lookup":
			if got, want := scopes[i].Lookup(op.Name), models[i][op.Name]; got != want {
				return fmt.Errorf("after %s: looking %q up in scope %d gives %v, want %v", steps, op.Name, i, got, want)
			}
			o.LabelIf(models[i][op.Name] == nil && outers[i] != nil && outers[i].Lookup(op.Name) != nil, "lookup of an outer name")
		case "pos":
			if len(objs) > 0 {
				x := objs[op.Obj%len(objs)]
				if got := x.obj.Pos(); got != x.pos {
					return fmt.Errorf("after %s: the position of object %q is %d, want %d", steps, x.was.Name, got, x.pos)
				}
				o.LabelIf(x.pos.IsValid(), "valid position")
			}
		case "print":
			_ = scopes[i].String() // must not change anything
		}
	}
	// All scopes at the end, and names near those in use.
	asked := scopeNames
	for n := range c.Ops {
		w := c.Ops[n].Name
		asked = append(asked[:len(asked):len(asked)], w, w+"x", "@"+w, w+" ", " "+w, strings.ToUpper(w), strings.ToLower(w), w[:len(w)/2])
		if n == 30 {
			break
		}
	}
	for i, s := range scopes {
		if s.Outer != outers[i] {
			return fmt.Errorf("after %s: the outer scope of scope %d has changed", steps, i)
		}
		if len(s.Objects) != len(models[i]) {
			return fmt.Errorf("after %s: scope %d has %d objects, want %d", steps, i, len(s.Objects), len(models[i]))
		}
		for _, x := range objs {
			if got, want := s.Lookup(x.obj.Name), models[i][x.obj.Name]; got != want {
				return fmt.Errorf("after %s: looking %q up in scope %d gives %v, want %v", steps, x.obj.Name, i, got, want)
			}
		}
		for _, name := range asked {
			if got, want := s.Lookup(name), models[i][name]; got != want {
				return fmt.Errorf("after %s: looking %q up in scope %d gives %v, want %v", steps, name, i, got, want)
			}
		}
	}
	for _, x := range objs {
		if got := x.obj.Pos(); got != x.pos {
			return fmt.Errorf("after %s: the position of object %q is %d, want %d", steps, x.was.Name, got, x.pos)
		}
		if *x.obj != x.was {
			return fmt.Errorf("after %s: object %q has changed to %q", steps, x.was.Name, x.obj.Name)
		}
	}
	o.LabelIf(len(scopes) > 2, "more than 2 scopes")
	return nil
}

func init() {
	register(Def[scopeCase]{
		ID:    "C25",
		Rule:  "histories of making scopes inside of others, inserting new and known objects, looking names up and asking for positions, compared with a map per scope; non-trivial: inserts a second object under a name; distinct by history up to that step",
		Quick: 2000000, Thorough: 30000000,
		Gen: genScope, Check: checkScope,
	})
}
