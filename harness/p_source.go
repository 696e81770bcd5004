package main

// C12 and C13: ways to pass a source, and packages of files.

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"go/scanner"
	gotok "go/token"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

// tempDir makes a directory for the files of one case.
func tempDir() (string, func(), error) {
	d, err := os.MkdirTemp(scratchDir, "case")
	return d, func() { os.RemoveAll(d) }, err
}

type deliveryCase struct {
	Src    Src
	Mode   parser.Mode
	Chunks []int // sizes of reads; 0 reads nothing
	// EOFWithData delivers the end together with the last bytes.
	EOFWithData bool
	FailAt      int // bytes before the read error
	// FailWithData delivers the error together with bytes.
	FailWithData bool
	Fail         int // which error
	Big          int `json:",omitempty"` // instead of the source: about its size
	File         bool
}

var errRead = errors.New("read error for a test")

type readErr struct{ n int }

func (e *readErr) Error() string { return fmt.Sprintf("read error %d", e.n) }

// mildErr is an error that claims to be harmless.
type mildErr struct{ n int }

func (e mildErr) Error() string   { return "" }
func (e mildErr) Temporary() bool { return true }
func (e mildErr) Timeout() bool   { return true }
func (e mildErr) Is(error) bool   { return e.n%2 == 0 } // any error

// readErrors are errors that a reader may fail with.
var readErrors = []error{
	errRead, &readErr{7}, fmt.Errorf("wrapped: %w", io.EOF), io.ErrUnexpectedEOF, mildErr{1}, mildErr{2},
	io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite, os.ErrClosed, os.ErrNotExist, os.ErrDeadlineExceeded, os.ErrPermission,
	syscall.EINTR, syscall.EAGAIN, &os.PathError{Op: "read", Path: "x.bib", Err: syscall.EIO}, context.Canceled, bufio.ErrTooLong, bufio.ErrFinalToken,
	errors.Join(errRead, io.EOF), scanner.ErrorList{{Msg: "read error"}}, &scanner.Error{Msg: "read error"},
}

// chunkReader delivers a text in chunks and then an error.
type chunkReader struct {
	s      string
	chunks []int
	i      int
	end    error
	atOnce bool // the error comes with the last bytes
	zeros  int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.s) == 0 {
		return 0, r.end
	}
	n := len(r.s)
	if len(r.chunks) > 0 {
		n = r.chunks[r.i%len(r.chunks)]
		r.i++
	}
	if n == 0 && r.zeros >= 5 {
		n = 1
	}
	if n == 0 {
		r.zeros++
		return 0, nil
	}
	r.zeros = 0
	n = copy(p, r.s[:min(n, len(r.s))])
	r.s = r.s[n:]
	if len(r.s) == 0 && r.atOnce {
		return n, r.end
	}
	return n, nil
}

func genDelivery(g G) deliveryCase {
	c := deliveryCase{Src: Src(g.anySource()), Mode: g.modeBits() &^ parser.Trace}
	if g.chance(60) {
		c.Mode |= parser.ParseStrings
	}
	if g.rare(25) {
		mid, n := g.soup(fragments, 1, 5), g.n(3000)
		if len(mid) > 500 {
			n %= 20
		}
		c.Src += Src(strings.Repeat(mid, n))
	}
	c.Chunks = list(g, 0, 5, func(g G) int { return pick(g, 1, 2, 3, 7, 64, 0, 511, 512, 513, 4096, 100000) })
	c.EOFWithData = g.chance(50)
	c.FailAt = g.n(len(c.Src) + 1)
	c.FailWithData = g.chance(50)
	c.Fail = g.n(len(readErrors))
	c.File = g.rare(8)
	return c
}

// isErr tells whether err is the given error or wraps it.
func isErr(err, want error) bool {
	if err == nil {
		return false
	}
	if reflect.DeepEqual(err, want) {
		return true
	}
	switch w := err.(type) {
	case interface{ Unwrap() error }:
		return isErr(w.Unwrap(), want)
	case interface{ Unwrap() []error }:
		for _, e := range w.Unwrap() {
			if isErr(e, want) {
				return true
			}
		}
	}
	return false
}

// enumBig makes large sources.
func enumBig() []deliveryCase {
	var out []deliveryCase
	for i, n := range []int{1 << 16, 1<<20 + 1, 5 << 20, 20 << 20} {
		out = append(out, deliveryCase{Big: n, Chunks: [][]int{{4096, 0, 7}, {1 << 20}, {511, 100000}, nil}[i], FailAt: n - 3, Fail: i, FailWithData: i%2 == 0, File: true, Mode: parser.ParseStrings * parser.Mode(i%2)})
	}
	return out
}

func checkDelivery(c deliveryCase, o *Obs) error {
	src := string(c.Src)
	if c.Big > 0 {
		// A few long fields, so that the tree isn't large.
		o.Label("large")
		text := strings.Repeat("x", c.Big/4)
		src = "@misc{k, a = {" + text + "}, b = \"" + text + "\"}\n@string{s = {" + text + "}}\n@misc{l, c = {" + text + "}}\n"
		c.FailAt = min(c.FailAt, len(src))
	}
	if len(src) > 0 && c.Big == 0 {
		o.NonTrivial(src, fmt.Sprint(c.Chunks, c.EOFWithData))
	}
	name := "some.bib"
	if c.File {
		o.Label("file")
		dir, remove, err := tempDir()
		if err != nil {
			panic(err)
		}
		defer remove()
		name = filepath.Join(dir, "a b.bib")
		if err := os.WriteFile(name, []byte(src), 0o644); err != nil {
			panic(err)
		}
	}
	parse := func(src any) (*ast.File, error) { return parser.ParseFile(gotok.NewFileSet(), name, src, c.Mode) }
	wantF, wantErr := parse(src)
	o.LabelIf(wantErr == nil, "accepted")
	same := func(what string, f *ast.File, err error) error {
		if !reflect.DeepEqual(wantErr, err) {
			return fmt.Errorf("%s: error %v, but for a string %v", what, err, wantErr)
		}
		if !reflect.DeepEqual(wantF, f) {
			return fmt.Errorf("%s: tree differs from that of a string: %s", what, firstDiff(dump(wantF, 0), dump(f, 0)))
		}
		return nil
	}
	var end error = io.EOF
	reader := func() *chunkReader { return &chunkReader{s: src, chunks: c.Chunks, end: end, atOnce: c.EOFWithData} }

	b := []byte(src)
	f, err := parse(b)
	if string(b) != src {
		return fmt.Errorf("byte slice: modified by parsing to %q", b)
	}
	for i := range b {
		b[i] = 'x'
	}
	if err := same("byte slice, overwritten later", f, err); err != nil {
		return err
	}
	if len(src) == 0 {
		f, err = parse([]byte(nil))
		if err := same("nil byte slice", f, err); err != nil {
			return err
		}
	}

	buf := bytes.NewBufferString(src)
	f, err = parse(buf)
	buf.Reset()
	buf.WriteString(strings.Repeat("y", len(src)))
	if err := same("buffer, overwritten later", f, err); err != nil {
		return err
	}
	// A buffer that was read from before.
	buf = bytes.NewBufferString("@misc{" + src)
	buf.Next(len("@misc{"))
	f, err = parse(buf)
	if err := same("buffer that was read from", f, err); err != nil {
		return err
	}

	// Readers that were read from before: what is left of them is the source.
	const read = "@misc{"
	rest := func(r io.Reader) io.Reader {
		_, _ = io.ReadFull(r, make([]byte, len(read)))
		return r
	}
	for _, r := range []struct {
		what string
		r    io.Reader
	}{
		{"strings.Reader that was read from", rest(strings.NewReader(read + src))},
		{"bytes.Reader that was read from", rest(bytes.NewReader([]byte(read + src)))},
		{"bufio.Reader that was read from", rest(bufio.NewReaderSize(strings.NewReader(read+src), 16))},
		{"section reader", io.NewSectionReader(strings.NewReader(read+src+"}"), int64(len(read)), int64(len(src)))},
		{"strings.Reader", strings.NewReader(src)}, {"bytes.Reader", bytes.NewReader([]byte(src))},
		{fmt.Sprintf("reader with chunks %v", c.Chunks), reader()},
		{"limited reader", io.LimitReader(strings.NewReader(src+"@misc{other,"), int64(len(src)))},
		{"multi reader", io.MultiReader(strings.NewReader(src[:c.FailAt]), strings.NewReader(src[c.FailAt:]))},
	} {
		f, err = parse(r.r)
		if err := same(r.what, f, err); err != nil {
			return err
		}
	}
	if c.File {
		f, err = parse(nil)
		if err := same("file", f, err); err != nil {
			return err
		}
		if f, err = parser.ParseFile(gotok.NewFileSet(), name+"x", nil, c.Mode); f != nil || !errors.Is(err, os.ErrNotExist) {
			return fmt.Errorf("missing file: tree %v, error %v", f != nil, err)
		}
		if f, err = parser.ParseFile(gotok.NewFileSet(), filepath.Dir(name), nil, c.Mode); f != nil || err == nil {
			return fmt.Errorf("directory: tree %v, error %v", f != nil, err)
		}
		// An open file, read to some point before.
		open, err := os.Open(name)
		if err != nil {
			return err
		}
		_, err = open.Seek(int64(c.FailAt), io.SeekStart)
		if err != nil {
			return err
		}
		f, err = parse(open)
		open.Close()
		wantF, wantErr = parse(src[c.FailAt:])
		if err := same("open file that was read from", f, err); err != nil {
			return err
		}
	}

	// The bibliography object.
	name = ""
	wantF, wantErr = parse(src)
	if wantErr != nil {
		wantF = nil
	}
	biber := bibtex.New(bibtex.WithParserMode(c.Mode))
	for _, r := range []struct {
		what string
		r    io.Reader
	}{{"strings.Reader", strings.NewReader(src)}, {"chunks", reader()}, {"buffer", bytes.NewBufferString(src)}} {
		f, err := biber.Parse(r.r)
		if err := same("Biber.Parse of "+r.what, f, err); err != nil {
			return err
		}
	}

	// Reading fails.
	end = readErrors[c.Fail%len(readErrors)]
	failing := func() io.Reader {
		return &chunkReader{s: src[:c.FailAt], chunks: c.Chunks, end: end, atOnce: c.FailWithData}
	}
	f, err = parse(failing())
	if f != nil || !isErr(err, end) {
		return fmt.Errorf("read error %q after %d bytes: tree %v, error %v", end, c.FailAt, f != nil, err)
	}
	f, err = biber.Parse(failing())
	if f != nil || !isErr(err, end) {
		return fmt.Errorf("Biber.Parse: read error %q after %d bytes: tree %v, error %v", end, c.FailAt, f != nil, err)
	}

	// No source at all.
	var nilBuf *bytes.Buffer
	for _, bad := range []any{1, nilBuf, []string{src}, &src, struct{}{}, []rune(src), true, errRead, map[string]string{"x": src}, func() string { return src }} {
		f, err := parse(bad)
		if f != nil || err == nil {
			return fmt.Errorf("source of type %T: tree %v, error %v", bad, f != nil, err)
		}
	}
	return nil
}

// ----------------------------------------------------------------------------
// C13

type pkgFile struct {
	Src  Src
	Kind string // file, missing, dir
	Name int    // form of the file name
}

type pkgCase struct {
	Files []pkgFile
	Order []int // paths in the order they are passed; may repeat
	Spell []int // how each path is spelled
	Mode  parser.Mode
}

// baseNames are unusual names of files, in which * stands for a number.
var baseNames = []string{
	"*.bib~", "*.bak", "*.txt", "*.tex", "*.bib.gz", "*.bib.bib", "*", "*.", "#*#", "~*.bib", "_*.bib", "-*.bib", "*.bib.swp", "*.tmp", "*.BIB", "*.Bib",
	"..*.bib", "*-.bib", "*,*.bib", "*:*.bib", "*;*", "@*.bib", "*@x.bib", "{*}.bib", "test_*.bib", "*_test.bib", "*.bbl", "*.bst", "*\n.bib", "$HOME*", "CON*",
	"*.html", "*.json", "lost+found*", ".git*", "vendor*.bib", "testdata*.bib", "'*'", "\"*\"", "file:*", "http:*", "[*].bib", "*\xff.bib",
}

func genPkg(g G) pkgCase {
	c := pkgCase{Mode: g.modeBits() &^ parser.Trace}
	if g.chance(60) {
		c.Mode |= parser.ParseStrings
	}
	lo, hi := 1, 6
	if g.rare(50) {
		lo, hi = 10, 40
	}
	c.Files = list(g, lo, hi, func(g G) pkgFile {
		f := pkgFile{Kind: "file"}
		if g.chance(40) {
			f.Name = g.n(9 + len(baseNames))
		}
		switch k := g.n(20); {
		case k <= 12:
			f.Src = Src(g.printedSource())
		case k == 13:
			f.Kind = "missing"
		case k == 14:
			f.Kind = "dir"
		case k == 15:
			f.Src = ""
		default:
			f.Src = Src(g.anySource())
		}
		if g.rare(50) {
			// Many entries.
			f.Src = Src(strings.Repeat(string(f.Src)+"\n", 2+g.n(60)))
		}
		return f
	})
	for i := range c.Files {
		c.Order = append(c.Order, i)
	}
	// A random order with repetitions.
	c.Order = append(c.Order, list(g, 0, 3, func(g G) int { return g.n(len(c.Files)) })...)
	for i := len(c.Order) - 1; i > 0; i-- {
		j := g.n(i + 1)
		c.Order[i], c.Order[j] = c.Order[j], c.Order[i]
	}
	if g.rare(20) {
		c.Order = nil
	}
	for range c.Order {
		k := 0
		if g.chance(30) {
			k = g.n(6)
		}
		c.Spell = append(c.Spell, k)
	}
	return c
}

func checkPkg(c pkgCase, o *Obs) error {
	dir, remove, err := tempDir()
	if err != nil {
		panic(err)
	}
	defer remove()
	var names []string
	for i, f := range c.Files {
		base := fmt.Sprintf("f%d.bib", i*7%10+i/10*10)
		switch f.Name {
		case 1:
			base = "x y" + base
		case 2:
			base = "." + base
		case 3:
			base = fmt.Sprintf("F%d", i)
		case 4:
			base = "é" + base + " "
		case 5: // the same base name in several directories
			base = fmt.Sprintf("d%d/f.bib", i)
		case 6:
			base = fmt.Sprintf("d/f%d.bib", i)
		case 7:
			base = fmt.Sprintf("f%d.bib%d", i%2, i)
		case 8:
			base = fmt.Sprintf("%%2F%d*?\\.BIB", i)
		}
		if k := f.Name - 9; k >= 0 && k < len(baseNames) {
			base = strings.ReplaceAll(baseNames[k], "*", fmt.Sprint(i))
		}
		if sub := filepath.Dir(base); sub != "." {
			if err := os.MkdirAll(filepath.Join(dir, sub), 0o755); err != nil {
				panic(err)
			}
		}
		name := filepath.Join(dir, base)
		names = append(names, name)
		switch f.Kind {
		case "file":
			err = os.WriteFile(name, []byte(f.Src), 0o644)
		case "dir":
			err = os.Mkdir(name, 0o755)
		}
		if err != nil {
			panic(err)
		}
	}
	type alone struct {
		f   *ast.File
		err error
	}
	single := map[string]alone{}
	var wantErr error
	var paths []string
	if err := os.MkdirAll(filepath.Join(dir, "sub"), 0o755); err != nil {
		panic(err)
	}
	odd := false
	for k, i := range c.Order {
		if i < 0 || i >= len(names) {
			continue
		}
		path := names[i]
		if k < len(c.Spell) {
			rest := path[len(dir)+1:]
			switch c.Spell[k] {
			case 1:
				path = dir + "/./" + rest
			case 2:
				path = dir + "//" + rest
			case 3:
				path = dir + "/sub/../" + rest
			case 4:
				if wd, err := os.Getwd(); err == nil {
					if rel, err := filepath.Rel(wd, path); err == nil {
						path = rel
					}
				}
			case 5:
				path = filepath.Dir(dir) + "/./" + filepath.Base(dir) + "/" + rest
			}
		}
		odd = odd || path != names[i]
		paths = append(paths, path)
		f, err := parser.ParseFile(gotok.NewFileSet(), path, nil, c.Mode)
		single[path] = alone{f, err}
		if err != nil && wantErr == nil {
			wantErr = err
		}
	}
	o.Label(fmt.Sprintf("%d paths", len(paths)))
	o.LabelIf(wantErr != nil, "some path fails")
	o.LabelIf(len(single) < len(paths), "path repeated")
	o.LabelIf(odd, "a path not in its shortest form")
	if len(paths) > 1 {
		o.NonTrivial(dump(c, 0))
	}
	given := append([]string(nil), paths...)
	pkg, err := parser.ParsePackage(paths, c.Mode)
	if !reflect.DeepEqual(given, paths) {
		return fmt.Errorf("the list of paths was changed")
	}
	if (err == nil) != (wantErr == nil) || err != nil && err.Error() != wantErr.Error() || reflect.TypeOf(err) != reflect.TypeOf(wantErr) {
		return fmt.Errorf("error %v, want %v", err, wantErr)
	}
	if pkg == nil {
		return fmt.Errorf("no package")
	}
	for name, a := range single {
		f, ok := pkg.Files[name]
		if a.err != nil {
			if ok {
				return fmt.Errorf("%s fails to parse, but is in the package", filepath.Base(name))
			}
			continue
		}
		if f == nil {
			return fmt.Errorf("%s parses, but is not in the package", filepath.Base(name))
		}
		if x, y := dump(a.f, firstPos(a.f)), dump(f, firstPos(f)); x != y {
			return fmt.Errorf("%s: tree differs from that of the file alone: %s", filepath.Base(name), firstDiff(x, y))
		}
	}
	for name := range pkg.Files {
		if _, ok := single[name]; !ok {
			return fmt.Errorf("%q is in the package", name)
		}
	}

	// Entries, in the order of the file names.
	var want, order []string
	for name := range pkg.Files {
		order = append(order, name)
	}
	sort.Strings(order)
	for _, name := range order {
		f := pkg.Files[name]
		es, err := bibtex.New().Resolve(f)
		if err != nil {
			return fmt.Errorf("resolve a file: %w", err)
		}
		for _, e := range es {
			want = append(want, dump(e, 0))
		}
	}
	es, err := bibtex.New().Resolve(pkg)
	if err != nil {
		return fmt.Errorf("resolve the package: %w", err)
	}
	var got []string
	for _, e := range es {
		got = append(got, dump(e, 0))
	}
	if x, y := strings.Join(want, "\n"), strings.Join(got, "\n"); x != y {
		return fmt.Errorf("%d entries in the package, %d in its files: %s", len(got), len(want), firstDiff(x, y))
	}
	o.LabelIf(len(want) > 3, "more than 3 entries")
	return nil
}

func init() {
	register(Def[deliveryCase]{
		ID:    "C12",
		Rule:  "sources of any shape passed as string, byte slice, buffer, several readers with random chunks, a file and to Biber.Parse, compared with reflect.DeepEqual; readers that fail after a random number of bytes; sources of unsupported types; and four sources of up to 20 MB; non-trivial: not empty; distinct by source and chunks",
		Enum:  enumBig,
		Quick: 120000, Thorough: 6000000,
		Gen: genDelivery, Check: checkDelivery,
	})
	register(Def[pkgCase]{
		ID:    "C13",
		Rule:  "lists of up to nine paths (some not in their shortest form, with special characters or the same base name) of files that parse, fail to parse, are missing or are directories, in random order with repetitions; compared with parsing each path alone; non-trivial: at least two paths; distinct by files, order and mode",
		Quick: 120000, Thorough: 2000000,
		Gen: genPkg, Check: checkPkg,
	})
}
