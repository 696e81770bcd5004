package main

// A complete, readable form of a tree, for comparisons of one result with
// another.

import (
	"fmt"
	gotok "go/token"
	"reflect"
	"sort"
	"strings"

	"github.com/jschaf/bibtex/ast"
)

var posType = reflect.TypeOf(gotok.NoPos)

type dumper struct {
	sb    strings.Builder
	base  int // positions are printed relative to base
	noPos bool
	seen  map[uintptr]bool
}

// dump prints everything that can be reached from v. Positions are printed
// relative to base; a negative base leaves them out.
func dump(v any, base int) string {
	d := &dumper{base: base, noPos: base < 0, seen: map[uintptr]bool{}}
	d.value(reflect.ValueOf(v))
	return d.sb.String()
}

func (d *dumper) value(v reflect.Value) {
	if !v.IsValid() {
		d.sb.WriteString("nil")
		return
	}
	if v.Type() == posType {
		switch {
		case d.noPos:
		case v.Int() == 0:
			d.sb.WriteString("nopos")
		default:
			fmt.Fprintf(&d.sb, "@%d", int(v.Int())-d.base)
		}
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			d.sb.WriteString("nil")
			return
		}
		d.value(v.Elem())
	case reflect.Pointer:
		if v.IsNil() {
			d.sb.WriteString("nil")
			return
		}
		if d.seen[v.Pointer()] {
			d.sb.WriteString("(cycle)")
			return
		}
		d.seen[v.Pointer()] = true
		d.value(v.Elem())
		delete(d.seen, v.Pointer())
	case reflect.Struct:
		d.sb.WriteString(v.Type().Name())
		d.sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				d.sb.WriteByte(' ')
			}
			d.value(v.Field(i))
		}
		d.sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		d.sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				d.sb.WriteByte(' ')
			}
			d.value(v.Index(i))
		}
		d.sb.WriteByte(']')
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		d.sb.WriteString("map[")
		for i, k := range keys {
			if i > 0 {
				d.sb.WriteByte(' ')
			}
			d.value(k)
			d.sb.WriteByte(':')
			d.value(v.MapIndex(k))
		}
		d.sb.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(&d.sb, "%q", v.String())
	case reflect.Func, reflect.Chan:
		d.sb.WriteString("?")
	default:
		fmt.Fprint(&d.sb, v)
	}
}

// firstPos returns the position of the first element of a file, or 1.
func firstPos(f *ast.File) int {
	p := 0
	if len(f.Entries) > 0 {
		p = int(f.Entries[0].Pos())
	}
	if len(f.Comments) > 0 && (p == 0 || int(f.Comments[0].Pos()) < p) {
		p = int(f.Comments[0].Pos())
	}
	return max(p, 1)
}

// firstDiff shows where two dumps begin to differ.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("...%s / ...%s", head(a[lo:], 160), head(b[lo:], 160))
}
