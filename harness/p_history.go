package main

// C23: histories of work on several sources, one after another or at the same
// time, each in a process of its own. What a source gives in a history must be
// what it gives alone in a fresh process.

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	gotok "go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"pgregory.net/rapid"
)

// optSpec is an option of a bibliography object.
type optSpec struct {
	K     string       // mode resolvers renderer
	Mode  parser.Mode  `json:",omitempty"`
	Names []string     `json:",omitempty"` // resolvers
	Node  ast.NodeKind `json:",omitempty"`
	Rend  string       `json:",omitempty"`
}

// job is work on a source in a number of stages.
type job struct {
	Kind string // biber file expr package
	Srcs []Src
	Mode parser.Mode `json:",omitempty"` // other than biber
	Opts []optSpec   `json:",omitempty"`
}

// history runs stages of jobs. Every number in Steps runs the next stage of a
// job; what is left is run at the end.
type history struct {
	Jobs    []job
	Steps   []int `json:",omitempty"`
	Share   bool  `json:",omitempty"` // equal options, objects and buffers are shared
	Workers int   `json:",omitempty"` // goroutines, when positive
	Rounds  int   `json:",omitempty"` // how often each goroutine does its jobs
}

const stages = 8

// ----------------------------------------------------------------------------
// The process that runs a history

type historyEnv struct {
	h     *history
	mu    sync.Mutex
	opts  map[string]bibtex.Option
	objs  map[string]*bibtex.Biber
	fset  *gotok.FileSet
	buf   []byte
	dir   string
	ndirs int
	nfile int
}

func mustJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

var errHistResolve = errors.New("resolver error for a test")
var errHistRender = errors.New("renderer error for a test")

func namedResolver(name string) bibtex.Resolver {
	switch name {
	case "simplify":
		return bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver)
	case "render":
		return bibtex.NewRenderParsedTextResolver()
	case "author":
		return bibtex.NewAuthorResolver("author")
	case "author,editor":
		return bibtex.NewAuthorResolver("author", "editor")
	case "fail":
		return bibtex.ResolverFunc(func(ast.Node) error { return errHistResolve })
	}
	// Changes the keys.
	return bibtex.ResolverFunc(func(n ast.Node) error {
		return ast.Walk(n, func(n ast.Node, entering bool) (ast.WalkStatus, error) {
			if d, ok := n.(*ast.BibDecl); ok && entering && d.Key != nil {
				d.Key.Name += name
			}
			return ast.WalkContinue, nil
		})
	})
}

func namedRenderer(name string) render.NodeRendererFunc {
	return func(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
		switch name {
		case "fail":
			return ast.WalkStop, errHistRender
		case "skip":
			return ast.WalkSkipChildren, nil
		case "stop":
			return ast.WalkStop, nil
		}
		_, err := fmt.Fprintf(w, "<%s %v %v>", name, n.Kind(), entering)
		return ast.WalkContinue, err
	}
}

func (e *historyEnv) option(s optSpec) bibtex.Option {
	key := mustJSON(s)
	if o, ok := e.opts[key]; ok && e.h.Share {
		return o
	}
	var o bibtex.Option
	switch s.K {
	case "mode":
		o = bibtex.WithParserMode(s.Mode)
	case "resolvers":
		rs := make([]bibtex.Resolver, 0, len(s.Names)+4) // has room to append
		for _, n := range s.Names {
			rs = append(rs, namedResolver(n))
		}
		o = bibtex.WithResolvers(rs...)
	case "renderer":
		if s.Rend == "nil" {
			o = bibtex.WithRenderer(s.Node, nil)
			break
		}
		o = bibtex.WithRenderer(s.Node, namedRenderer(s.Rend))
	}
	e.opts[key] = o
	return o
}

// biber returns the object for a job.
func (e *historyEnv) biber(j *job) *bibtex.Biber {
	e.mu.Lock()
	defer e.mu.Unlock()
	key := mustJSON(j.Opts)
	if b := e.objs[key]; b != nil && e.h.Share {
		return b
	}
	var opts []bibtex.Option
	for _, s := range j.Opts {
		opts = append(opts, e.option(s))
	}
	b := bibtex.New(opts...)
	e.objs[key] = b
	return b
}

func (e *historyEnv) tempDir() string {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.ndirs++
	d := filepath.Join(e.dir, fmt.Sprint(e.ndirs))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

// bytes returns the source in a buffer. The buffer may be used again for the
// next source.
func (e *historyEnv) bytes(s Src) []byte {
	if e.h.Share && e.h.Workers == 0 {
		e.buf = append(e.buf[:0], s...)
		return e.buf
	}
	return []byte(s)
}

// work is a job that is being done.
type work struct {
	e       *historyEnv
	j       *job
	next    int
	out     []string
	b       *bibtex.Biber
	node    ast.Node // file, package or expression
	dir     string
	file    string
	base    int
	last    string // dump of node when it was last changed on purpose
	entries []bibtex.Entry
	lastEnt string
	authors []ast.Authors
	lastAut string
}

var positions = regexp.MustCompile(`&\{[0-9 ]+\}`)

func errString(err error) string {
	if err == nil {
		return "no error"
	}
	return "error: " + err.Error()
}

// safe runs a stage.
func (w *work) stage() {
	k := w.next
	w.next++
	s := ""
	func() {
		defer func() {
			if p := recover(); p != nil {
				s = fmt.Sprintf("panic: %v", p)
			}
		}()
		s = w.run(k)
	}()
	if w.j.Kind == "file" && k > 1 {
		// Messages may hold positions, which depend on the file set.
		s = positions.ReplaceAllString(s, "&{POS}")
	}
	if w.dir != "" {
		s = strings.ReplaceAll(s, w.dir, "DIR")
	}
	if w.file != "" {
		s = strings.ReplaceAll(s, w.file, "x.bib")
	}
	w.out = append(w.out, s)
}

func (w *work) dump() string {
	if isNilNode(w.node) {
		return "no tree"
	}
	if x, ok := w.node.(*ast.Package); ok {
		return dump(x.Files, w.base)
	}
	return dump(w.node, w.base)
}

func (w *work) fset() *gotok.FileSet {
	if w.e.h.Share {
		return w.e.fset
	}
	return gotok.NewFileSet()
}

func (w *work) run(k int) string {
	switch k {
	case 0:
		if w.j.Kind == "biber" || len(w.j.Opts) > 0 {
			w.b = w.e.biber(w.j)
		} else {
			w.b = bibtex.New()
		}
		return ""
	case 1:
		return w.parse()
	case 2: // text of every string
		out := []string{}
		for _, t := range w.strings() {
			sb := &strings.Builder{}
			err := render.NewTextRenderer().Render(sb, t)
			out = append(out, fmt.Sprintf("%q %s", sb, errString(err)))
		}
		return strings.Join(out, "\n")
	case 3: // authors of every string
		out := []string{}
		for _, t := range w.strings() {
			as, err := bibtex.ExtractAuthors(t)
			out = append(out, dump(as, 0)+" "+errString(err))
			w.authors = append(w.authors, as)
		}
		w.lastAut = strings.Join(out, "\n")
		return w.lastAut
	case 4:
		return w.render()
	case 5:
		if isNilNode(w.node) {
			return ""
		}
		es, err := w.b.Resolve(w.node)
		out := errString(err)
		if f, ok := w.node.(*ast.File); ok {
			// Again, one by one.
			for _, d := range f.Entries {
				one, err := w.b.Resolve(d)
				out += "\n" + errString(err)
				es = append(es, one...)
			}
		}
		w.entries = es
		w.lastEnt = dump(es, w.base)
		w.last = w.dump()
		return out + "\n" + w.lastEnt + "\n" + w.last
	case 6:
		return w.render()
	case 7:
		w.change()
	}
	return ""
}

// change does what a user may do with results of its own: it puts other parts in
// the place of those that are there.
func (w *work) change() {
	if isNilNode(w.node) {
		return
	}
	for _, t := range w.strings() {
		for i := range t.Values {
			t.Values[i] = &ast.Text{Value: "changed"}
		}
	}
	files := []*ast.File{}
	switch n := w.node.(type) {
	case *ast.File:
		files = append(files, n)
	case *ast.Package:
		for _, f := range n.Files {
			files = append(files, f)
		}
		n.Files["changed"] = &ast.File{Name: "changed"}
	}
	for _, f := range files {
		for i, d := range f.Entries {
			if d, ok := d.(*ast.BibDecl); ok {
				for k := range d.Tags {
					d.Tags[k] = &ast.TagStmt{Name: "changed", RawName: "changed", Value: &ast.Number{Value: "1"}}
				}
			}
			if i%2 == 1 {
				f.Entries[i] = &ast.BibDecl{Type: "changed"}
			}
		}
	}
	for i := range w.entries {
		w.entries[i].Tags["changed"] = &ast.Number{Value: "2"}
		w.entries[i].Key += "changed"
	}
	for _, as := range w.authors {
		for i := range as {
			as[i] = &ast.Author{First: &ast.Text{Value: "changed"}, Prefix: &ast.Text{}, Last: &ast.Text{}, Suffix: &ast.Text{}}
		}
	}
	w.last = w.dump()
	if w.lastEnt != "" {
		w.lastEnt = dump(w.entries, w.base)
	}
	out := []string{}
	for _, as := range w.authors {
		out = append(out, dump(as, 0))
	}
	w.lastAut = strings.Join(out, "\n")
}

func (w *work) strings() []*ast.ParsedText {
	if isNilNode(w.node) {
		return nil
	}
	return strNodes(w.node)
}

func (w *work) render() string {
	if isNilNode(w.node) {
		return ""
	}
	sb := &strings.Builder{}
	err := w.b.Render(sb, w.node)
	return fmt.Sprintf("%q %s", sb, errString(err))
}

func (w *work) parse() string {
	w.base = 1
	var err error
	switch w.j.Kind {
	case "biber":
		var f *ast.File
		f, err = w.b.Parse(bytes.NewReader(w.e.bytes(w.j.Srcs[0])))
		if f != nil {
			w.node = f
		}
	case "file":
		fset := w.fset()
		w.e.mu.Lock()
		w.e.nfile++
		name := fmt.Sprintf("x%d.bib", w.e.nfile)
		w.e.mu.Unlock()
		w.file = name
		var f *ast.File
		f, err = parser.ParseFile(fset, name, w.e.bytes(w.j.Srcs[0]), w.j.Mode)
		// Others may have added files to the set.
		fset.Iterate(func(tf *gotok.File) bool {
			if tf.Name() == name {
				w.base = tf.Base()
			}
			return true
		})
		if f != nil {
			w.node = f
		}
	case "expr":
		var x ast.Expr
		x, err = parser.ParseExpr(string(w.j.Srcs[0]))
		if !isNilNode(x) {
			w.node = x
		}
	case "package":
		w.dir = w.e.tempDir()
		var paths []string
		for i, s := range w.j.Srcs {
			p := filepath.Join(w.dir, fmt.Sprintf("f%d.bib", i))
			if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
				panic(err)
			}
			paths = append(paths, p)
		}
		var p *ast.Package
		p, err = parser.ParsePackage(paths, w.j.Mode)
		if p != nil {
			w.node = p
		}
	}
	w.last = w.dump()
	return errString(err) + "\n" + w.last
}

// finish tells whether the results are still what they were.
func (w *work) finish() string {
	if d := w.dump(); d != w.last {
		return "tree changed later: " + firstDiff(w.last, d)
	}
	if d := dump(w.entries, w.base); w.lastEnt != "" && d != w.lastEnt {
		return "entries changed later: " + firstDiff(w.lastEnt, d)
	}
	out := []string{}
	for _, as := range w.authors {
		out = append(out, dump(as, 0))
	}
	for _, s := range out {
		if !strings.Contains(w.lastAut, s) {
			return "authors changed later: " + s
		}
	}
	return "unchanged"
}

// crowd parses small sources into one file set from many goroutines and tells
// what went wrong.
func (e *historyEnv) crowd() (wrong string) {
	fset := gotok.NewFileSet()
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					mu.Lock()
					defer mu.Unlock()
					wrong = fmt.Sprintf("panic with a shared file set: %v", p)
				}
			}()
			for k := 0; k < 400; k++ {
				f, err := parser.ParseFile(fset, "x.bib", "@a{k}", 0)
				if err != nil || len(f.Entries) != 1 {
					mu.Lock()
					wrong = "failure with a shared file set: " + errString(err)
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	return wrong
}

// historyMain runs the history on the standard input.
func historyMain() int {
	h := &history{}
	if err := json.NewDecoder(os.Stdin).Decode(h); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	dir, err := os.MkdirTemp(scratchDir, "history")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	e := &historyEnv{h: h, opts: map[string]bibtex.Option{}, objs: map[string]*bibtex.Biber{}, fset: gotok.NewFileSet(), dir: dir}
	var works []*work
	newWork := func(i int) *work { return &work{e: e, j: &h.Jobs[i]} }
	results := make([][]string, len(h.Jobs))
	if h.Workers > 0 {
		runtime.GOMAXPROCS(4)
		rounds := max(1, h.Rounds)
		lanes := make([][]*work, h.Workers)
		for r := 0; r < rounds; r++ {
			for i := range h.Jobs {
				w := newWork(i)
				works = append(works, w)
				lanes[i%h.Workers] = append(lanes[i%h.Workers], w)
			}
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for _, lane := range lanes {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for n, w := range lane {
					for k := 0; k < stages; k++ {
						w.stage()
						if (n+k)%3 == 0 {
							runtime.Gosched()
						}
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		if h.Share {
			if s := e.crowd(); s != "" {
				works[0].out[1] += " " + s
			}
		}
	} else {
		for i := range h.Jobs {
			works = append(works, newWork(i))
		}
		for _, i := range h.Steps {
			if w := works[i]; w.next < stages {
				w.stage()
			}
		}
		for _, w := range works {
			for w.next < stages {
				w.stage()
			}
		}
	}
	for i, w := range works {
		w.out = append(w.out, w.finish())
		n := i % len(h.Jobs)
		if results[n] == nil {
			results[n] = w.out
		} else if mustJSON(results[n]) != mustJSON(w.out) {
			w.out[len(w.out)-1] += " (another round gave something else)"
			results[n] = w.out
		}
	}
	if err := json.NewEncoder(os.Stdout).Encode(results); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return 0
}

// ----------------------------------------------------------------------------
// The check

// errNoAnswer tells that a process could not be run, which says nothing about
// the library.
var errNoAnswer = errors.New("no answer")

func runHistory(h *history) ([][]string, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, fmt.Errorf("%w: %w", errNoAnswer, err)
	}
	if h.Workers > 0 {
		if r := os.Getenv("BIBCHECK_RACE"); r != "" {
			exe = r // built with the race detector
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, "-history", "-scratch", scratchDir, "C23")
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=2")
	cmd.Stdin = strings.NewReader(mustJSON(h))
	var stdout, stderr bytes.Buffer
	cmd.Stdout = &stdout
	cmd.Stderr = &limitedWriter{w: &stderr, n: 1 << 16}
	if err := cmd.Run(); err != nil {
		if ctx.Err() == nil && strings.Contains(stderr.String(), "github.com/jschaf/bibtex") || strings.Contains(stderr.String(), "all goroutines are asleep") {
			return nil, fmt.Errorf("the process that runs the history ends with %w: %s", err, head(stderr.String(), 3000))
		}
		return nil, fmt.Errorf("%w: %w: %s", errNoAnswer, err, head(stderr.String(), 1000))
	}
	var out [][]string
	if err := json.Unmarshal(stdout.Bytes(), &out); err != nil || len(out) != len(h.Jobs) {
		return nil, fmt.Errorf("%w: bad result: %w", errNoAnswer, err)
	}
	return out, nil
}

var baselines = map[string][]string{}

// baseline is what a job gives alone in a fresh process.
func baseline(j job) ([]string, error) {
	key := mustJSON(j)
	if b, ok := baselines[key]; ok {
		return b, nil
	}
	out, err := runHistory(&history{Jobs: []job{j}})
	if err != nil {
		return nil, fmt.Errorf("job on its own: %w", err)
	}
	if len(baselines) > 4000 {
		clear(baselines)
	}
	baselines[key] = out[0]
	return out[0], nil
}

var stageNames = [stages + 1]string{"new", "parse", "text", "authors", "render", "resolve", "render after resolving", "change", "results kept"}

func checkHistory(h history, o *Obs) error {
	if len(h.Jobs) == 0 {
		return nil
	}
	var want [][]string
	failing, ok := 0, 0
	for _, j := range h.Jobs {
		b, err := baseline(j)
		if err != nil {
			return keepNoAnswer(err, o)
		}
		want = append(want, b)
		if strings.HasPrefix(b[1], "error") {
			failing++
		} else {
			ok++
		}
		o.Label("job " + j.Kind)
	}
	got, err := runHistory(&h)
	if err != nil {
		return keepNoAnswer(err, o)
	}
	for i := range h.Jobs {
		if len(got[i]) != len(want[i]) {
			return fmt.Errorf("job %d: %d results, want %d", i, len(got[i]), len(want[i]))
		}
		for k := range want[i] {
			if got[i][k] != want[i][k] {
				return fmt.Errorf("job %d: %s: on its own it gives\n%s\nbut in this history\n%s\nwhich differs here: %s",
					i, stageNames[k], head(want[i][k], 600), head(got[i][k], 600), firstDiff(want[i][k], got[i][k]))
			}
		}
	}
	if len(h.Jobs) > 1 || h.Rounds > 1 {
		o.NonTrivial(mustJSON(h))
	}
	o.LabelIf(failing > 0 && ok > 0, "failing and succeeding jobs")
	o.LabelIf(h.Workers > 1, "concurrent")
	o.LabelIf(h.Workers > 1 && h.Share, "concurrent on shared objects")
	o.LabelIf(h.Workers == 0 && len(h.Steps) > 0, "interleaved")
	o.LabelIf(h.Share, "shared")
	o.LabelIf(len(h.Jobs) > 30, "more than 30 jobs")
	return nil
}

func keepNoAnswer(err error, o *Obs) error {
	if !errors.Is(err, errNoAnswer) {
		return err
	}
	o.Label("no answer")
	fmt.Fprintln(os.Stderr, err)
	os.Exit(4) // the check has failed, not the property
	return nil
}

// ----------------------------------------------------------------------------
// Generation

// optionSets are sets of options that many jobs have in common.
var optionSets = [][]optSpec{
	nil,
	{{K: "resolvers", Names: []string{"simplify", "author", "render"}}},
	{{K: "resolvers", Names: []string{"simplify"}}, {K: "resolvers", Names: []string{"author,editor"}}},
	{{K: "resolvers", Names: []string{"simplify"}}, {K: "resolvers", Names: []string{"key!"}}, {K: "resolvers", Names: []string{"render"}}},
	{{K: "resolvers", Names: []string{"simplify"}}, {K: "resolvers", Names: []string{"key?"}}},
	{{K: "resolvers", Names: []string{"render"}}},
	{{K: "mode", Mode: 0}},
	{{K: "mode", Mode: parser.ParseStrings | parser.ParseComments}, {K: "renderer", Node: ast.KindTextComma, Rend: "comma"}},
	{{K: "renderer", Node: ast.KindParsedText, Rend: "skip"}},
	{{K: "renderer", Node: ast.KindText, Rend: "fail"}, {K: "resolvers", Names: []string{"simplify", "fail"}}},
	{{K: "renderer", Node: ast.KindText, Rend: "x"}, {K: "renderer", Node: ast.KindIdent, Rend: "i"}},
	{{K: "renderer", Node: ast.KindTextSpace, Rend: "nil"}},
}

func genJob(g G) job {
	j := job{Kind: pick(g, "biber", "biber", "biber", "biber", "file", "expr", "package")}
	one := func() Src {
		switch k := g.n(12); {
		case k <= 3:
			return Src(g.printedSource())
		case k <= 5:
			d := g.doc(docCfg{str: strCfg{renderable: true}, decls: 3, onlyBib: true})
			pr := g.print(d, layoutCfg{plain: true})
			return pr.Src
		case k == 6:
			c := genNames(g)
			op := c.op()
			return Src("@misc{k, author = " + op.source() + ", editor = " + op.source() + ", title = {A \\& B}}")
		case k == 7:
			return Src(g.inField(g.soup(stringFragments, 0, 12)))
		case k == 8:
			return Src(strings.Repeat("@misc{k"+pick(g, ",", ", x = {a \\'o}", ", x = \"$", ", x = {"), 1+g.small(3, 60)))
		case k == 9:
			// Long words that are almost the same.
			n, ok := g.size(3000)
			if !ok {
				n = pick(g, 9, 17, 33, 65, 70, 130, 260)
			}
			word := func() string { return g.alike(letters, lowers, n) }
			return Src("@" + word() + "{" + word() + ", " + word() + " = {" + word() + " {" + word() + "}}, " + word() + ` = "\` + word() + ` $` + word() + `$"}`)
		}
		return Src(g.anySource())
	}
	j.Srcs = []Src{one()}
	if g.chance(80) && (j.Kind == "biber" || g.chance(50)) {
		j.Opts = optionSets[g.n(len(optionSets))]
	}
	switch j.Kind {
	case "biber":
		if j.Opts != nil || g.chance(20) {
			break
		}
		for i := g.n(4); i > 0; i-- {
			switch g.n(3) {
			case 0:
				j.Opts = append(j.Opts, optSpec{K: "mode", Mode: g.modeBits()&^parser.Trace | parser.ParseStrings})
			case 1:
				var names []string
				for k := g.n(3); k > 0; k-- {
					names = append(names, pick(g, "simplify", "render", "author", "author,editor", "fail", "key!"))
				}
				j.Opts = append(j.Opts, optSpec{K: "resolvers", Names: names})
			case 2:
				j.Opts = append(j.Opts, optSpec{K: "renderer", Node: ast.NodeKind(g.n(int(ast.KindPackage) + 1)), Rend: pick(g, "fail", "skip", "stop", "nil", "r1", "r2")})
			}
		}
	case "expr":
		s := string(j.Srcs[0])
		if g.chance(80) {
			s = pick(g, "{", `"`) + g.soup(stringFragments, 0, 8) + pick(g, "}", `"`)
		}
		j.Srcs[0] = Src(s)
	case "package":
		j.Mode = g.modeBits()&^parser.Trace | parser.ParseStrings
		for i := g.n(5); i > 0; i-- {
			j.Srcs = append(j.Srcs, one())
		}
	case "file":
		j.Mode = g.modeBits() &^ parser.Trace
		if g.chance(70) {
			j.Mode |= parser.ParseStrings
		}
	}
	return j
}

// jobPool are the jobs that histories are made of.
var jobPool []job

const poolSize = 150

func fillPool() {
	gen := rapid.Custom(func(t *rapid.T) job { return genJob(G{t: t}) })
	for i := 0; i < poolSize; i++ {
		j := gen.Example(int(mix(runSeed+uint64(i)) >> 2))
		if i%3 == 2 && j.Kind != "expr" {
			// The source of another job.
			if k := jobPool[int(mix(runSeed+uint64(i))>>9)%len(jobPool)]; k.Kind != "expr" {
				j.Srcs = k.Srcs
			}
		}
		if len(mustJSON(j)) < 20000 {
			jobPool = append(jobPool, j)
		}
	}
	sort.SliceStable(jobPool, func(a, b int) bool { return len(mustJSON(jobPool[a])) < len(mustJSON(jobPool[b])) })
}

func genHistory(g G) history {
	if jobPool == nil {
		fillPool()
	}
	h := history{Share: g.chance(60)}
	lo, hi := 1, 8
	if g.rare(12) {
		lo, hi = 15, 80
	}
	h.Jobs = list(g, lo, hi, func(g G) job {
		if g.rare(60) {
			return genJob(g)
		}
		return jobPool[g.n(len(jobPool))]
	})
	if g.chance(40) {
		// Some jobs again.
		for i := g.n(4); i > 0; i-- {
			h.Jobs = append(h.Jobs, h.Jobs[g.n(len(h.Jobs))])
		}
	}
	if g.chance(50) {
		h.Workers = 2 + g.n(5)
		h.Rounds = 1 + g.n(4)
		return h
	}
	if g.chance(80) {
		n := len(h.Jobs)
		lo := 0
		if g.chance(60) {
			lo = stages * n / 2
		}
		h.Steps = list(g, lo, stages*n, func(g G) int { return g.n(n) })
	}
	return h
}

func enumHistories() []history {
	deep := func(n int) Src { return Src("@misc{k, x = " + strings.Repeat("{", n) + strings.Repeat("}", n) + "}") }
	good := job{Kind: "biber", Srcs: []Src{"@misc{k, x = {a {b} c}, author = {A and B}}"}, Opts: optionSets[1]}
	var out []history
	for _, bad := range []job{
		{Kind: "biber", Srcs: []Src{deep(120000)}},
		{Kind: "file", Srcs: []Src{deep(120000)}, Mode: parser.ParseStrings},
		{Kind: "biber", Srcs: []Src{deep(3000)}},
		{Kind: "expr", Srcs: []Src{Src(strings.Repeat("{", 120000))}},
		{Kind: "biber", Srcs: []Src{Src(strings.Repeat("@", 1000))}},
		{Kind: "biber", Srcs: []Src{Src(strings.Repeat("@misc{k, x = {a}}\n", 3000))}},
	} {
		out = append(out, history{Jobs: []job{bad, good}}, history{Jobs: []job{good, bad, good, bad, bad, good}, Share: true},
			history{Jobs: []job{good, bad, good, bad}, Workers: 4, Rounds: 2, Share: true})
	}
	// Every set of options next to every other, on one source.
	src := Src("% c\n@misc{k, author = {A \\& B, C and D}, editor = {E}, x = {a \\% \\'o $m$, ~ {b-c}}}")
	var all []job
	for _, opts := range optionSets {
		all = append(all, job{Kind: "biber", Srcs: []Src{src}, Opts: opts})
	}
	for i := range all {
		for k := range all {
			if i != k {
				out = append(out, history{Jobs: []job{all[i], all[k], all[i]}, Share: true, Steps: []int{0, 1, 2}})
			}
		}
	}
	for n := 2; n <= 8; n++ {
		out = append(out, history{Jobs: append(append([]job{}, all...), all...), Share: n%2 == 0, Workers: n, Rounds: 6})
	}
	return out
}

func init() {
	register(Def[history]{
		ID:    "C23",
		Rule:  "histories of the stages (make, parse, render text, extract authors, render, resolve, render, change the results) of up to about 80 jobs with random sources and options, many failing; interleaved in one goroutine, with option values, bibliography objects, file sets and buffers shared or not, or by several goroutines under the race detector; each history and each job alone run in a fresh process and give the same results, which stay what they are until the end; non-trivial: more than one job or round; distinct by history",
		Quick: 4000, Thorough: 400000,
		Gen: genHistory, Check: checkHistory, Enum: enumHistories, CPULimit: 200 * time.Second,
	})
}
