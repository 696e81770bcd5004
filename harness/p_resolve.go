package main

// C14 and C15: entries, and the run of resolvers.

import (
	"errors"
	"fmt"
	gotok "go/token"
	"io"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

// ----------------------------------------------------------------------------
// C14

type entriesCase struct {
	Printed
	Any  bool // a source of any shape instead of a printed bibliography
	Mode parser.Mode
	// Words are an entry type and a field name, whose constants have to address
	// an entry and its field.
	Words []string `json:",omitempty"`
}

// typeConsts and fieldConsts are the exported constants by the words that
// BibTeX's documentation uses.
var typeConsts = map[string]bibtex.EntryType{
	"Article": bibtex.EntryArticle, "Book": bibtex.EntryBook, "Booklet": bibtex.EntryBooklet, "InBook": bibtex.EntryInBook,
	"InCollection": bibtex.EntryInCollection, "InProceedings": bibtex.EntryInProceedings, "Manual": bibtex.EntryManual,
	"MastersThesis": bibtex.EntryMastersThesis, "Misc": bibtex.EntryMisc, "PhDThesis": bibtex.EntryPhDThesis,
	"Proceedings": bibtex.EntryProceedings, "TechReport": bibtex.EntryTechReport, "Unpublished": bibtex.EntryUnpublished,
}

var fieldConsts = map[string]bibtex.Field{
	"Address": bibtex.FieldAddress, "Annote": bibtex.FieldAnnote, "Author": bibtex.FieldAuthor, "BookTitle": bibtex.FieldBookTitle,
	"Chapter": bibtex.FieldChapter, "DOI": bibtex.EntryDOI, "CrossRef": bibtex.FieldCrossref, "Edition": bibtex.FieldEdition,
	"Editor": bibtex.FieldEditor, "HowPublished": bibtex.FieldHowPublished, "Institution": bibtex.FieldInstitution,
	"Journal": bibtex.FieldJournal, "Key": bibtex.FieldKey, "Month": bibtex.FieldMonth, "Note": bibtex.FieldNote,
	"Number": bibtex.FieldNumber, "Organization": bibtex.FieldOrganization, "Pages": bibtex.FieldPages,
	"Publisher": bibtex.FieldPublisher, "School": bibtex.FieldSchool, "Series": bibtex.FieldSeries, "Title": bibtex.FieldTitle,
	"Type": bibtex.FieldType, "Volume": bibtex.FieldVolume, "Year": bibtex.FieldYear,
}

func sortedKeys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// constCases combines every type with every field, in several spellings.
func constCases() []entriesCase {
	var out []entriesCase
	for _, t := range sortedKeys(typeConsts) {
		for _, f := range sortedKeys(fieldConsts) {
			out = append(out, entriesCase{Any: true, Printed: Printed{Doc: &Doc{}}, Mode: parser.ParseStrings, Words: []string{t, f}})
		}
	}
	return out
}

func checkConsts(typ, field string, mode parser.Mode) error {
	for _, spell := range []func(string) string{func(s string) string { return s }, asciiLower, asciiUpper} {
		src := "@" + spell(typ) + "{k, x = {y}, " + spell(field) + " = {v}}"
		b := bibtex.New(bibtex.WithParserMode(mode))
		f, err := b.Parse(strings.NewReader(src))
		if err != nil {
			return fmt.Errorf("%s: %w", src, err)
		}
		es, err := b.Resolve(f)
		if err != nil || len(es) != 1 {
			return fmt.Errorf("%s: %d entries, %v", src, len(es), err)
		}
		if want, ok := typeConsts[typ]; !ok || es[0].Type != want {
			return fmt.Errorf("%s: type %q, but the constant is %q", src, es[0].Type, want)
		}
		if _, ok := es[0].Tags[fieldConsts[field]]; !ok || len(es[0].Tags) != 2 {
			return fmt.Errorf("%s: no field %q, which is what the constant is", src, fieldConsts[field])
		}
	}
	return nil
}

// repeatTags gives some tags the names of others.
func (g G) repeatTags(d *Doc) {
	for i := range d.Decls {
		dc := &d.Decls[i]
		var tags []int
		for j := range dc.Items {
			if !dc.Items[j].Key {
				tags = append(tags, j)
			}
		}
		if dc.K != "bib" || len(tags) < 2 || !g.chance(50) {
			continue
		}
		for _, j := range tags {
			if g.chance(50) {
				dc.Items[j].Name = dc.Items[tags[g.n(len(tags))]].Name
			}
		}
	}
}

func genEntries(g G) entriesCase {
	c := entriesCase{Mode: g.modeBits() &^ parser.Trace}
	if g.chance(60) {
		c.Mode |= parser.ParseStrings
	}
	if g.chance(25) {
		c.Any, c.Doc, c.Src = true, &Doc{}, Src(g.anySource())
		return c
	}
	d := g.doc(docCfg{str: strCfg{all: true}, decls: 3, bigDocs: true})
	g.repeatTags(d)
	c.Printed = g.print(d, layoutCfg{comments: g.chance(30), plain: g.chance(30)})
	return c
}

// wantEntry is an entry as the source has it.
type wantEntry struct {
	typ, key string
	tags     map[string]*N
}

func (d *Decl) entry(parsed bool) wantEntry {
	w := wantEntry{typ: strings.ToLower(d.Word), tags: map[string]*N{}}
	seenKey := false
	for i := range d.Items {
		it := &d.Items[i]
		switch {
		case !it.Key:
			w.tags[strings.ToLower(it.Name)] = it.Val.tree(parsed)
		case !seenKey:
			w.key, seenKey = it.Name, true
		}
	}
	return w
}

// astEntry reads an entry from the syntax tree.
func astEntry(d *ast.BibDecl, base int) wantEntry {
	w := wantEntry{typ: d.Type, tags: map[string]*N{}}
	if d.Key != nil {
		w.key = d.Key.Name
	}
	for _, t := range d.Tags {
		w.tags[t.Name] = fromAST(t.Value, base)
	}
	return w
}

func compareEntries(want []wantEntry, got []bibtex.Entry, base int, pos bool) error {
	if len(want) != len(got) {
		return fmt.Errorf("%d entries, want %d", len(got), len(want))
	}
	for i, w := range want {
		g := got[i]
		if g.Type != w.typ || g.Key != w.key {
			return fmt.Errorf("entry %d: type %q key %q, want type %q key %q", i, g.Type, g.Key, w.typ, w.key)
		}
		if len(g.Tags) != len(w.tags) {
			return fmt.Errorf("entry %d (%s): %d tags, want %d", i, g.Key, len(g.Tags), len(w.tags))
		}
		for name, v := range w.tags {
			x, ok := g.Tags[name]
			if !ok {
				return fmt.Errorf("entry %d (%s): no tag %q", i, g.Key, name)
			}
			if d := diff(v, fromAST(x, base), pos); d != "" {
				return fmt.Errorf("entry %d (%s): tag %q: %s", i, g.Key, name, d)
			}
		}
	}
	return nil
}

func checkEntries(c entriesCase, o *Obs) error {
	if len(c.Words) == 2 {
		o.Label("constants")
		return checkConsts(c.Words[0], c.Words[1], c.Mode)
	}
	if err := c.selfCheck(); !c.Any && err != nil {
		return err
	}
	p := parseAt(string(c.Src), c.Mode, 0)
	if c.Any && p.err != nil {
		// What there is of the tree.
		o.Label("rejected")
	} else if p.err != nil {
		return fmt.Errorf("well-formed source rejected: %w", p.err)
	}
	var want []wantEntry
	var decls []*ast.BibDecl
	if c.Any {
		for _, d := range p.file.Entries {
			if b, ok := d.(*ast.BibDecl); ok {
				want = append(want, astEntry(b, p.base))
			}
		}
	} else {
		for i := range c.Doc.Decls {
			if d := &c.Doc.Decls[i]; d.K == "bib" {
				want = append(want, d.entry(c.Mode&parser.ParseStrings != 0))
			}
		}
	}
	for _, d := range p.file.Entries {
		if b, ok := d.(*ast.BibDecl); ok {
			decls = append(decls, b)
		}
	}
	for _, w := range want {
		o.NonTrivial(string(c.Src))
		o.LabelIf(w.key == "", "entry without key")
		o.LabelIf(len(w.tags) == 0, "entry without tags")
	}
	for _, d := range decls {
		names := map[string]bool{}
		for _, t := range d.Tags {
			if names[t.Name] {
				o.Label("repeated tag")
			}
			names[t.Name] = true
		}
	}
	o.LabelIf(len(want) < len(p.file.Entries), "has declarations without entry")
	o.LabelIf(len(want) > 3, "more than 3 entries")

	before := dump(p.file, p.base)
	b := bibtex.New()
	for round := 0; round < 2; round++ {
		got, err := b.Resolve(p.file)
		if err != nil {
			return fmt.Errorf("resolve: %w", err)
		}
		if err := compareEntries(want, got, p.base, true); err != nil {
			return fmt.Errorf("round %d: %w", round, err)
		}
		for i, d := range decls {
			for _, t := range d.Tags {
				if last := lastTag(d, t.Name); got[i].Tags[t.Name] != nil && !sameNode(got[i].Tags[t.Name], last.Value) {
					return fmt.Errorf("entry %d: the value of tag %q isn't that of the tree", i, t.Name)
				}
			}
		}
		// Entries belong to the caller.
		for i := range got {
			got[i].Type, got[i].Key = "changed", "changed"
			for n := range got[i].Tags {
				delete(got[i].Tags, n)
			}
			got[i].Tags["changed"] = &ast.Number{Value: "1"}
		}
	}
	for i, d := range decls {
		got, err := b.Resolve(d)
		if err != nil {
			return fmt.Errorf("resolve declaration %d alone: %w", i, err)
		}
		if err := compareEntries(want[i:i+1], got, p.base, true); err != nil {
			return fmt.Errorf("declaration %d alone: %w", i, err)
		}
	}
	// Nodes that hold no entries.
	var others []ast.Node
	others = append(others, &ast.BadDecl{}, &ast.BadExpr{}, &ast.BadStmt{}, ast.Authors{}, &ast.Author{}, &ast.TexCommentGroup{})
	_ = ast.Walk(p.file, func(n ast.Node, entering bool) (ast.WalkStatus, error) {
		switch n.(type) {
		case *ast.File, *ast.BibDecl:
		default:
			if entering && len(others) < 40 {
				others = append(others, n)
			}
		}
		return ast.WalkContinue, nil
	})
	for _, n := range others {
		got, err := b.Resolve(n)
		if err == nil || len(got) != 0 {
			return fmt.Errorf("resolving a %T: %d entries, error %v", n, len(got), err)
		}
	}
	if after := dump(p.file, p.base); after != before {
		return fmt.Errorf("resolving without resolvers changed the tree: %s", firstDiff(before, after))
	}
	return nil
}

func lastTag(d *ast.BibDecl, name string) *ast.TagStmt {
	var last *ast.TagStmt
	for _, t := range d.Tags {
		if t.Name == name {
			last = t
		}
	}
	return last
}

func sameNode(a, b ast.Node) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() == reflect.Pointer && vb.Kind() == reflect.Pointer {
		return va.Pointer() == vb.Pointer()
	}
	return reflect.DeepEqual(a, b)
}

// ----------------------------------------------------------------------------
// C15

type resolverSpec struct {
	K   string // mark, fail, author, simplify, render, stop
	Err int    `json:",omitempty"` // which error
}

type optionSpec struct {
	K         string         // resolvers, mode, renderer
	Resolvers []resolverSpec `json:",omitempty"`
	Mode      parser.Mode    `json:",omitempty"`
}

type runCase struct {
	Src     Src
	Options []optionSpec
	Node    int // what is resolved
	Rounds  int
}

func (g G) resolverSpec() resolverSpec {
	switch k := g.n(12); {
	case k <= 6:
		return resolverSpec{K: "mark"}
	case k == 7:
		return resolverSpec{K: "simplify"}
	case k == 8:
		return resolverSpec{K: "render"}
	case k == 9:
		return resolverSpec{K: "author"}
	case k == 10 && g.chance(50):
		return resolverSpec{K: "fail", Err: g.n(4)}
	}
	return resolverSpec{K: "mark"}
}

// modeProbes are sources that parse differently in each mode.
var modeProbes = []string{
	"% c\n@misc{k, t = {a~b}}\n",
	"% c\n@misc{k, 1 = 2, 2 = 3, 4 = 5}\n",
	strings.Repeat("@misc{k, 1 = 2, 2 = {a~b}}\n", 20),
}

func genRun(g G) runCase {
	c := runCase{Rounds: 1 + g.n(2), Node: g.n(8)}
	lo := 1
	if g.rare(10) {
		lo = 0
	}
	c.Options = list(g, lo, 6, func(g G) optionSpec {
		switch k := g.n(8); {
		case k <= 4:
			return optionSpec{K: "resolvers", Resolvers: list(g, 0, 5, func(g G) resolverSpec { return g.resolverSpec() })}
		case k <= 6:
			m := g.modeBits() &^ parser.Trace
			if g.chance(60) {
				m |= parser.ParseStrings
			}
			return optionSpec{K: "mode", Mode: m}
		}
		return optionSpec{K: "renderer"}
	})
	if g.chance(70) {
		d := g.doc(docCfg{str: strCfg{renderable: g.chance(70)}, decls: 2})
		c.Src = Src(g.print(d, layoutCfg{plain: true}).Src)
	} else {
		c.Src = Src(g.anySource())
	}
	return c
}

var resolverErrors = []error{
	errors.New("a resolver failed"), &readErr{-1}, fmt.Errorf("outer: %w", io.EOF), errors.Join(io.ErrClosedPipe, io.ErrShortWrite),
}

type resolverCall struct {
	id   int
	node ast.Node
}

// resolver makes the resolver with number id of a run.
func (s resolverSpec) resolver(id int, log *[]resolverCall) bibtex.Resolver {
	var inner bibtex.Resolver
	switch s.K {
	case "simplify":
		inner = bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver)
	case "render":
		inner = bibtex.NewRenderParsedTextResolver()
	case "author":
		inner = bibtex.NewAuthorResolver("author", "editor", "x")
	}
	return bibtex.ResolverFunc(func(n ast.Node) error {
		*log = append(*log, resolverCall{id, n})
		switch {
		case inner != nil:
			return inner.Resolve(n)
		case s.K == "fail":
			return resolverErrors[s.Err%len(resolverErrors)]
		}
		// Leave a mark that entries show.
		mark := func(d ast.Decl) {
			if b, ok := d.(*ast.BibDecl); ok {
				b.Type += "." + strconv.Itoa(id)
			}
		}
		switch t := n.(type) {
		case *ast.File:
			for _, d := range t.Entries {
				mark(d)
			}
		case *ast.Package:
			for _, f := range t.Files {
				for _, d := range f.Entries {
					mark(d)
				}
			}
		case ast.Decl:
			mark(t)
		}
		return nil
	})
}

// target picks the node to resolve.
func (c *runCase) target(f *ast.File) ast.Node {
	var bibs, rest []ast.Node
	for _, d := range f.Entries {
		if b, ok := d.(*ast.BibDecl); ok {
			bibs = append(bibs, b)
			for _, t := range b.Tags {
				rest = append(rest, t)
			}
		} else {
			rest = append(rest, d)
		}
	}
	switch {
	case c.Node == 4:
		return &ast.Package{Files: map[string]*ast.File{"a": f}}
	case c.Node == 5 && len(bibs) > 0:
		return bibs[len(bibs)-1]
	case c.Node == 6 && len(rest) > 0:
		return rest[len(rest)-1]
	}
	return f
}

var wholeNumber = regexp.MustCompile(`[0-9]+`)

func checkRun(c runCase, o *Obs) error {
	var log []resolverCall
	var specs []resolverSpec
	var opts []bibtex.Option
	var passed [][]bibtex.Resolver
	mode := parser.ParseStrings
	renderer := false
	rendered := 0
	for _, op := range c.Options {
		switch op.K {
		case "resolvers":
			rs := make([]bibtex.Resolver, 0, len(op.Resolvers)+3)
			for _, s := range op.Resolvers {
				rs = append(rs, s.resolver(len(specs), &log))
				specs = append(specs, s)
			}
			passed = append(passed, rs)
			opts = append(opts, bibtex.WithResolvers(rs...))
		case "mode":
			mode = op.Mode
			opts = append(opts, bibtex.WithParserMode(op.Mode))
		case "renderer":
			renderer = true
			opts = append(opts, bibtex.WithRenderer(ast.KindFile, func(io.Writer, ast.Node, bool) (ast.WalkStatus, error) {
				rendered++
				return ast.WalkSkipChildren, nil
			}))
		}
	}
	o.Label(fmt.Sprintf("%d resolvers", min(len(specs), 9)))
	if len(opts)%2 == 1 {
		// Another object is made of the same options.
		_ = bibtex.New(opts...)
		o.Label("options used twice")
	}
	b := bibtex.New(opts...)
	poison := bibtex.ResolverFunc(func(ast.Node) error { return errors.New("a resolver that was never configured ran") })
	for _, rs := range passed {
		for i := range rs {
			rs[i] = poison
		}
		_ = append(rs, poison) // writes behind the resolvers that were passed
	}

	// The mode.
	src := string(c.Src)
	for _, src := range []string{src, modeProbes[len(src)%len(modeProbes)]} {
		wf, werr := parser.ParseFile(gotok.NewFileSet(), "", src, mode)
		gf, gerr := b.Parse(strings.NewReader(src))
		if (werr == nil) != (gerr == nil) {
			return fmt.Errorf("Biber.Parse: error %v, but ParseFile in mode %s: %v", gerr, modeName(mode), werr)
		}
		if werr == nil {
			if x, y := dump(wf, 1), dump(gf, 1); x != y {
				return fmt.Errorf("Biber.Parse doesn't parse in mode %s: %s", modeName(mode), firstDiff(x, y))
			}
			continue
		}
		wl, _ := errList(werr)
		if gl, ok := errList(gerr); ok && gl.Error() != wl.Error() || ok && len(gl) != len(wl) {
			return fmt.Errorf("Biber.Parse: %d errors, but ParseFile in mode %s: %d", len(gl), modeName(mode), len(wl))
		}
	}
	if renderer {
		if err := b.Render(io.Discard, &ast.File{}); err != nil || rendered != 2 {
			return fmt.Errorf("the renderer option: %d calls, error %v", rendered, err)
		}
	}
	if len(log) > 0 {
		return fmt.Errorf("parsing or rendering ran resolver %d", log[0].id)
	}

	// Both trees go through the resolvers, one by hand.
	got, want := parseAt(src, mode, 0), parseAt(src, mode, 0)
	if got.file == nil {
		return fmt.Errorf("no tree")
	}
	node, ref := c.target(got.file), c.target(want.file)
	var refLog []resolverCall
	refs := make([]bibtex.Resolver, len(specs))
	for i, s := range specs {
		refs[i] = s.resolver(i, &refLog)
	}
	if len(specs) > 0 {
		o.NonTrivial(dump(c, 0))
	}
	plain := bibtex.New()
	for round := 0; round < max(1, c.Rounds); round++ {
		log = nil
		failed, ferr := -1, error(nil)
		for i, r := range refs {
			if ferr = r.Resolve(ref); ferr != nil {
				failed = i
				break
			}
		}
		before := dump(got.file, got.base)
		entries, err := b.Resolve(node)
		calls := len(specs)
		if failed >= 0 {
			calls = failed + 1
		}
		if len(log) != calls {
			return fmt.Errorf("round %d: %d resolvers ran, want %d", round, len(log), calls)
		}
		for i, l := range log {
			if l.id != i {
				return fmt.Errorf("round %d: resolver %d ran in place %d", round, l.id, i)
			}
			if !sameNode(l.node, node) {
				return fmt.Errorf("round %d: resolver %d got another node", round, i)
			}
		}
		if x, y := dump(want.file, want.base), dump(got.file, got.base); x != y {
			return fmt.Errorf("round %d: the tree differs from that of the same resolvers by hand: %s", round, firstDiff(x, y))
		}
		if len(specs) == 0 && before != dump(got.file, got.base) {
			return fmt.Errorf("no resolvers, but the tree changed")
		}
		if failed >= 0 {
			o.Label("a resolver fails")
			o.LabelIf(failed > 0, "a resolver behind the first fails")
			if entries != nil {
				return fmt.Errorf("resolver %d fails, but there are entries", failed)
			}
			if err == nil {
				return fmt.Errorf("resolver %d fails, but there is no error", failed)
			}
			if specs[failed].K == "fail" {
				if !errors.Is(err, ferr) {
					return fmt.Errorf("error %q doesn't wrap that of resolver %d (%q)", err, failed, ferr)
				}
			} else if !strings.Contains(err.Error(), ferr.Error()) {
				return fmt.Errorf("error %q doesn't hold that of resolver %d (%q)", err, failed, ferr)
			}
			rest := strings.Replace(err.Error(), ferr.Error(), "", 1)
			if ns := wholeNumber.FindAllString(rest, -1); len(ns) != 1 || ns[0] != strconv.Itoa(failed) {
				return fmt.Errorf("error %q doesn't tell that resolver %d failed", err, failed)
			}
			break
		}
		wantEntries, werr := plain.Resolve(ref)
		if (werr == nil) != (err == nil) {
			return fmt.Errorf("round %d: error %v, want %v", round, err, werr)
		}
		if x, y := dump(wantEntries, want.base), dump(entries, got.base); x != y {
			return fmt.Errorf("round %d: entries differ from those of the resolved tree: %s", round, firstDiff(x, y))
		}
	}
	return nil
}

func init() {
	register(Def[entriesCase]{
		ID:    "C14",
		Rule:  "random bibliographies with repeated tags, entries without key or tags, abbreviations and preambles, in both string modes, and accepted sources of any shape; the entries of the file and of each declaration are compared with what was written, and every other node is resolved alone; also every exported type constant with every field constant; non-trivial: at least one entry; distinct by source",
		Quick: 300000, Thorough: 15000000,
		Enum: constCases,
		Gen:  genEntries, Check: checkEntries,
	})
	register(Def[runCase]{
		ID:    "C15",
		Rule:  "random sequences of options with up to 20 recording, failing and real resolvers, applied to trees of printed and arbitrary sources and compared with the same resolvers run by hand on a second tree; non-trivial: at least one resolver; distinct by options, node and source",
		Quick: 250000, Thorough: 12000000,
		Gen: genRun, Check: checkRun,
	})
}
