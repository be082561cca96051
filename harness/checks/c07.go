package checks

import (
	"fmt"
	"strings"
	"unicode"

	"verif/gen"
	"verif/refg"
	"verif/rt"
)

// accepted checks that text which is accepted derives from the notation.
func accepted(c *rt.Case, src string) bool {
	m, err := parse(c, src)
	if err != nil {
		return false
	}
	_ = m
	ts, lerr := refg.Lex(src)
	if lerr != nil {
		c.Violation("text is accepted, but lexical rules reject it: %v\n%s", lerr, src)
	}
	ok, at := refg.Accepts(ts)
	if !ok {
		what := "end of text"
		if at < len(ts) {
			what = fmt.Sprintf("%q in line %d", ts[at].Kind, ts[at].Line)
		}
		c.Violation("text is accepted, but it is not a module: no module continues with item %d, %s\n%s", at, what, src)
	}
	return true
}

func init() {
	register(&rt.Check{ID: "C07", Unprivileged: true,
		Rule: "valid modules changed in items or bytes; those that are accepted have to be recognized by an independent lexer and an Earley recognizer of the notation; non-trivial if the changed text differs from all others",
		Run: func(r *rt.Runner) {
			base := func(c *rt.Case) []gen.Tok {
				ts := toks(c, small(c))
				l := gen.Layout{R: c.Rng, Style: 3}
				src := l.Join(ts)
				c.Input("text", src)
				mustParse(c, src)
				rts, err := refg.Lex(src)
				if err != nil {
					c.Broken("reference lexer rejects a module: %v\n%s", err, src)
				}
				if ok, at := refg.Accepts(rts); !ok {
					c.Broken("reference grammar rejects a module at item %d\n%s", at, src)
				}
				return ts
			}
			verdict := func(c *rt.Case, src string) {
				c.Input("text", src)
				if accepted(c, src) {
					c.Count("changed text accepted", 1)
					c.Sample("accepted", src)
				} else {
					c.Count("changed text rejected", 1)
				}
				c.Nontrivial(src)
			}
			r.Parallel("items", r.N(6000, 150000), func(c *rt.Case) {
				ts := base(c)
				for k := 0; k < 60; k++ {
					mt := ts
					for n := 1 + c.Rng.Intn(2); n > 0; n-- {
						mt = gen.MutateToks(c.Rng, mt)
					}
					if len(mt) == 0 {
						continue
					}
					l := gen.Layout{R: c.Rng, Style: []int{0, 1, 1, 2}[c.Rng.Intn(4)]}
					verdict(c, l.Join(mt))
				}
			})
			r.Parallel("bytes", r.N(6000, 150000), func(c *rt.Case) {
				ts := base(c)
				l := gen.Layout{R: c.Rng, Style: c.Rng.Intn(4)}
				src := l.Join(ts)
				for k := 0; k < 60; k++ {
					s := src
					for n := 1 + c.Rng.Intn(2); n > 0; n-- {
						s = gen.MutateText(c.Rng, s)
					}
					verdict(c, s)
				}
			})
			// every item deleted, doubled, and every item put in front of, or instead of, every item
			r.Parallel("every item", r.N(60, 1500), func(c *rt.Case) {
				ts := base(c)
				if len(ts) > 60 {
					return
				}
				l := gen.Layout{R: c.Rng, Style: 0}
				for i := range ts {
					del := append(append([]gen.Tok{}, ts[:i]...), ts[i+1:]...)
					if len(del) > 0 {
						verdict(c, l.Join(del))
					}
					for _, t := range gen.AllTokens {
						ins := append(append(append([]gen.Tok{}, ts[:i]...), t), ts[i:]...)
						verdict(c, l.Join(ins))
						ins = append(append(append([]gen.Tok{}, ts[:i]...), t), ts[i+1:]...)
						verdict(c, l.Join(ins))
					}
				}
				for _, t := range gen.AllTokens {
					verdict(c, l.Join(append(append([]gen.Tok{}, ts...), t)))
				}
			})
			// every byte deleted, and hyphens, comment delimiters and digits put everywhere
			r.Parallel("every byte", r.N(80, 2000), func(c *rt.Case) {
				ts := base(c)
				l := gen.Layout{R: c.Rng, Style: []int{0, 1, 3}[c.Rng.Intn(3)]}
				src := l.Join(ts)
				if len(src) > 800 {
					src = text(c, small(c), 1)
				}
				if len(src) > 800 {
					return
				}
				for i := 0; i <= len(src); i++ {
					if i < len(src) {
						verdict(c, src[:i]+src[i+1:])
					}
					verdict(c, src[:i])
					for _, s := range []string{"-", "--", "*/", "/*", "0", "a", "A", ".", "\n", "é", "\xff"} {
						verdict(c, src[:i]+s+src[i:])
					}
				}
			})
			// every rule of the notation with every item of a text that uses it deleted, doubled, exchanged with the next or
			// moved to the end
			rules := refg.Rules()
			r.Parallel("every rule", r.N(16, 200)*len(rules), func(c *rt.Case) {
				d := refg.Derivation{R: c.Rng, Prefer: c.Index % len(rules)}
				var ts []gen.Tok
				for k := 0; k < 20; k++ {
					x := d.Module(4 + c.Rng.Intn(8))
					if len(ts) == 0 || len(x) < len(ts) {
						ts = append([]gen.Tok{}, x...)
					}
					if k >= 2 && len(ts) <= 80 {
						break
					}
				}
				c.Input("text", (&gen.Layout{R: c.Rng, Style: 0}).Join(ts))
				if len(ts) > 300 {
					return
				}
				l := gen.Layout{R: c.Rng, Style: 0}
				for i := range ts {
					try := func(mid ...gen.Tok) {
						rest := ts[i+1:]
						if len(mid) == 2 && mid[0] != ts[i] {
							rest = ts[i+2:]
						}
						x := append(append(append([]gen.Tok{}, ts[:i]...), mid...), rest...)
						if len(x) > 0 {
							verdict(c, l.Join(x))
						}
					}
					try()
					try(ts[i], ts[i])
					if i+1 < len(ts) && ts[i+1] != ts[i] {
						try(ts[i+1], ts[i])
					}
					// within the item
					s := string(ts[i])
					if len(s) < 2 || c.Rng.Intn(3) != 0 {
						continue
					}
					for k := range s {
						if c.Rng.Intn(3) == 0 || len(s) < 12 {
							try(gen.Tok(s[:k] + s[k+1:]))
							try(gen.Tok(s[:k+1] + s[k:]))
							if k > 0 {
								try(gen.Tok(s[:k] + " " + s[k:]))
							}
							try(gen.Tok(s[:k+1] + " " + s[k:]))
						}
					}
				}
				c.Count("rules with every item changed", 1)
			})
			// large texts with a mistake that the reference does not accept in a small one
			sizes := []int{250, 5000, 70000}
			r.Parallel("large", (len(lists)+len(nests))*len(sizes)*r.N(2, 20), func(c *rt.Case) {
				i := c.Index % ((len(lists) + len(nests)) * len(sizes))
				k, n := i/len(sizes), sizes[i%len(sizes)]+c.Rng.Intn(20)
				var broken func(n int) string
				what := ""
				if k < len(lists) {
					f := lists[k]
					mistake := c.Rng.Intn(5)
					at := c.Rng.Intn(3) // beginning, middle, end
					what = fmt.Sprintf("mistake %d at %d", mistake, at)
					broken = func(n int) string {
						i := []int{0, n / 2, n - 2}[at]
						x := rep(f[1]+f[2], i) + f[1]
						y := rep(f[1]+f[2], n-i-2) + f[1]
						sep := f[2]
						switch mistake {
						case 0:
							sep = " " + f[2] + " " + f[2] + " "
						case 1:
							sep = " "
						case 2:
							sep = f[2] + " } " + f[2]
						case 3:
							sep = f[2] + " ::= " + f[2]
						case 4:
							y += f[2] + " , ( "
						}
						return f[0] + x + sep + y + f[3]
					}
				} else {
					f := nests[k-len(lists)]
					n /= 10
					p := strings.SplitN(f[1], "|", 3)
					mistake := c.Rng.Intn(2)
					what = fmt.Sprintf("mistake %d", mistake)
					broken = func(n int) string {
						x, y := n+1, n
						if mistake == 1 {
							x, y = n, n+1
						}
						return f[0] + rep(p[0], x) + p[1] + rep(p[2], y) + f[2]
					}
				}
				small := broken(4)
				rts, err := refg.Lex(small)
				if err == nil {
					if ok, _ := refg.Accepts(rts); ok {
						return
					}
				}
				src := broken(n)
				c.Input("small text of that form", small)
				c.Input("form", fmt.Sprintf("size %d, %s", n, what))
				if _, err := parse(c, src); err == nil {
					c.Violation("text that is no module (as %q, but of size %d, %s) is accepted", small, n, what)
				}
				c.Count("large texts rejected", 1)
				c.Nontrivial(fmt.Sprint(small, n))
			})
			chars := specialChars()
			r.Parallel("every character", r.N(1, 4)*len(chars), func(c *rt.Case) {
				ch := chars[c.Index%len(chars)]
				src := text(c, small(c), c.Rng.Intn(4))
				mustParse(c, src)
				for _, s := range []string{ch + src, src + ch, src + " " + ch, src + " " + ch + " X ::= ", src + "\n" + ch + "\nx", ch + "\n" + src} {
					verdict(c, s)
				}
				for k := 0; k < 12; k++ {
					i := c.Rng.Intn(len(src) + 1)
					verdict(c, src[:i]+ch+src[i:])
					verdict(c, src[:i]+" "+ch+" "+src[i:])
				}
			})
			// numbers in the digits of other scripts
			r.Parallel("digits", r.N(600, 10000), func(c *rt.Case) {
				src := text(c, small(c), c.Rng.Intn(4))
				var at []int
				for i := range src {
					if src[i] >= '0' && src[i] <= '9' {
						at = append(at, i)
					}
				}
				if len(at) == 0 {
					src = "A DEFINITIONS ::= BEGIN a INTEGER ::= 12 b REAL ::= 1.5E3 END"
					at = []int{38, 39, 52, 54, 56}
				}
				nd := unicode.Nd.R16
				zero := rune(nd[1+c.Rng.Intn(len(nd)-1)].Lo)
				if c.Rng.Intn(4) == 0 {
					x := unicode.Nd.R32[c.Rng.Intn(len(unicode.Nd.R32))]
					zero = rune(x.Lo) + 10*rune(c.Rng.Intn(int(x.Hi-x.Lo+1)/10))
				}
				for k := 0; k < 10; k++ {
					i := at[c.Rng.Intn(len(at))]
					verdict(c, src[:i]+string(zero+rune(src[i]-'0'))+src[i+1:])
					// the whole number
					j := i
					for i > 0 && src[i-1] >= '0' && src[i-1] <= '9' {
						i--
					}
					for j < len(src) && src[j] >= '0' && src[j] <= '9' {
						j++
					}
					all := ""
					for _, d := range src[i:j] {
						all += string(zero + d - '0')
					}
					verdict(c, src[:i]+all+src[j:])
				}
			})
			bad := []string{
				"%s-", "%s--x", "%s-- --", "/* %s", "%s /*", "%s END", "%s x", "%s ;", "%s %s", "%s #", "# %s", "%s \"", "%s -", "%s /* /* */", "%s */", "%s 1", "%s ::=", "%s\x00", "\x00%s", "%s \\", "%s _",
			}
			r.Parallel("around the module", len(bad)*r.N(40, 400), func(c *rt.Case) {
				f := bad[c.Index%len(bad)]
				src := text(c, small(c), c.Rng.Intn(2))
				args := []any{src, src}
				s := fmt.Sprintf(f, args[:countVerbs(f)]...)
				c.Input("text", s)
				if f == "%s-- --" { // a line comment right after the word END is not recognized, or it is a comment
					accepted(c, s)
					return
				}
				_, err := parse(c, s)
				if err == nil {
					c.Violation("text that is no module (%q around a module) is accepted\n%s", f, s)
				}
				c.Count("text around the module rejected", 1)
				c.Nontrivial(s)
			})
		}})
}

func countVerbs(f string) int {
	n := 0
	for i := 0; i+1 < len(f); i++ {
		if f[i] == '%' && f[i+1] == 's' {
			n++
		}
	}
	return n
}
