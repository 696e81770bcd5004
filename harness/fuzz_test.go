package main

// Coverage-guided fuzzing of the checks, with the fuzzer of the go command. The
// fuzzer's input is either the sequence of a generator's choices or a source.
//
//	BIBCHECK_FUZZ      the property
//	BIBCHECK_FUZZ_OUT  file for a failing case

import (
	"encoding/json"
	"os"
	"testing"

	"pgregory.net/rapid"
)

func fuzzed(f *testing.F) *prop {
	p := props[os.Getenv("BIBCHECK_FUZZ")]
	if p == nil {
		f.Skip("no property")
	}
	scratchDir = f.TempDir()
	return p
}

// failed records a failing case. The fuzzer makes a failing input smaller, so
// the last case that is written is the smallest.
func failed(t interface{ Fatalf(string, ...any) }, p *prop, c any, err error) {
	raw, jerr := json.Marshal(c)
	if jerr != nil {
		t.Fatalf("%v", jerr)
	}
	b, _ := json.MarshalIndent(replayFile{Property: p.id, Tier: "thorough", Kind: "check", Error: err.Error(), Case: raw}, "", " ")
	if out := os.Getenv("BIBCHECK_FUZZ_OUT"); out != "" {
		_ = os.WriteFile(out, append(b, '\n'), 0o644)
	}
	t.Fatalf("the check failed: %v", err)
}

// FuzzChoices drives the generator of a property.
func FuzzChoices(f *testing.F) {
	p := fuzzed(f)
	for i := 0; i < 64; i++ {
		b := make([]byte, 0, 4096)
		for x := uint64(i + 1); len(b) < cap(b); x = mix(x) {
			for k := 0; k < 8; k++ {
				b = append(b, byte(x>>(8*k)))
			}
		}
		f.Add(b)
	}
	f.Fuzz(rapid.MakeFuzz(func(t *rapid.T) {
		c, err := p.fuzz(t)
		if err != nil {
			failed(t, p, c, err)
		}
	}))
}

// FuzzSource checks sources.
func FuzzSource(f *testing.F) {
	p := fuzzed(f)
	if p.fuzzSrc == nil {
		f.Skip("not about sources")
	}
	for _, s := range fuzzSeeds {
		for _, m := range []byte{0, 2, 3, 255} {
			f.Add(m, s)
		}
	}
	f.Fuzz(func(t *testing.T, mode byte, src string) {
		if len(src) > 1<<14 {
			return
		}
		if c, err := p.fuzzSrc(mode, src); err != nil {
			failed(t, p, c, err)
		}
	})
}

var fuzzSeeds = []string{
	"@article{key, author = {A von B and {C D} and others}, title = \"x {y} $z$ \\'e\", year = 2001}\n",
	"% c\n@string(abc = \"a\" # {b} # def)\n\n@preamble{ {\\noop{x}} # abc }\n@Book(k1, k2, url = {\\url{http://a~b}},)\n",
	"@a{10.1/x, t = {\\c c \\\"{o} \\& ~ \\href{a}{b}, {\\'\\i}}}, @b{}",
	"@comment{x} stray @a{k t = }} \x00 \xff \xef\xbb\xbf",
	"A, Jr., B and {von}~C \\'{E}d de la F and \\o",
}
