package checks

import (
	"os"
	"path/filepath"
	"strings"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

// small makes a small module of the whole notation.
func small(c *rt.Case) *a.ModuleDefinition {
	g := gen.NewFull(c.Rng)
	g.MaxDepth = 1 + c.Rng.Intn(3)
	g.Short = true
	m := g.Module()
	if n := len(m.ModuleBody.AssignmentList); n > 2 {
		m.ModuleBody.AssignmentList = m.ModuleBody.AssignmentList[:1+c.Rng.Intn(2)]
	}
	return m
}

func toks(c *rt.Case, m *a.ModuleDefinition) []gen.Tok {
	p := gen.Printer{R: c.Rng}
	return p.Module(m)
}

// exampleTexts are the modules shipped with the repository.
func exampleTexts(r *rt.Runner) []string {
	var out []string
	files, _ := filepath.Glob(filepath.Join(r.RepoDir, "examples", "*.asn1"))
	for _, f := range files {
		if data, err := os.ReadFile(f); err == nil {
			out = append(out, string(data))
		}
	}
	return out
}

// anyText makes text that is valid, or invalid in some way.
func anyText(c *rt.Case) (string, string) {
	r := c.Rng
	switch k := r.Intn(10); {
	case k < 3:
		return text(c, small(c), r.Intn(5)), "valid"
	case k < 5:
		ts := toks(c, small(c))
		for n := 1 + r.Intn(3); n > 0; n-- {
			ts = gen.MutateToks(r, ts)
		}
		if len(ts) == 0 {
			return "", "empty"
		}
		l := gen.Layout{R: r, Style: r.Intn(4)}
		return l.Join(ts), "mutated items"
	case k < 8:
		s := text(c, small(c), r.Intn(5))
		for n := 1 + r.Intn(3); n > 0; n-- {
			s = gen.MutateText(r, s)
		}
		return s, "mutated bytes"
	case k < 9:
		return []string{"", "A DEFINITIONS ::= BEGIN "}[r.Intn(2)] + gen.Soup(r, r.Intn(40)), "random items"
	default:
		return []string{"", "A DEFINITIONS ::= BEGIN "}[r.Intn(2)] + gen.Bytes(r, r.Intn(200)), "random bytes"
	}
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

// specialChars are single characters, and bytes that are none: all of the first thousand, and
// those beyond which some classification of characters treats in its own way.
func specialChars() []string {
	var out []string
	for r := rune(0); r < 0x400; r++ {
		out = append(out, string(r))
	}
	for b := 0x80; b < 0x100; b++ {
		out = append(out, string([]byte{byte(b)}))
	}
	for _, r := range []rune{0x660, 0x669, 0x966, 0x1680, 0x180e, 0x2000, 0x2003, 0x200b, 0x200d, 0x200e, 0x2010, 0x2011, 0x2012, 0x2013, 0x2014, 0x2028, 0x2029,
		0x202f, 0x205f, 0x2060, 0x2160, 0x2212, 0x2460, 0x3000, 0x3007, 0x4e00, 0xd7ff, 0xe000, 0xfeff, 0xfe63, 0xff0d, 0xff10, 0xff19, 0xff1a, 0xff21, 0xff41,
		0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10400, 0x10428, 0x104a0, 0x1d400, 0x1d7ce, 0x1f600, 0xe0001, 0x10ffff} {
		out = append(out, string(r))
	}
	for _, s := range []string{"\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\xe2\x82", "\xf0\x9f\x98"} {
		out = append(out, s)
	}
	return out
}
