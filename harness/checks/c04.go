package checks

import (
	"fmt"
	"reflect"
	"strings"

	"verif/gen"
	"verif/rt"
)

func init() {
	register(&rt.Check{ID: "C04", Unprivileged: true,
		Rule: "one sequence of lexical items in different layouts (minimal, white space, line ends, line and block comments with hostile content, items at buffer boundaries); non-trivial if it has more than 12 items, distinct by items",
		Run: func(r *rt.Runner) {
			r.Parallel("layouts", r.N(25000, 400000), func(c *rt.Case) {
				ts := toks(c, gen.NewFull(c.Rng).Module())
				l := gen.Layout{R: c.Rng, Style: 0}
				base := l.Join(ts)
				c.Input("single spaces", base)
				want := mustParse(c, base)
				for style := 1; style <= 4; style++ {
					l := gen.Layout{R: c.Rng, Style: style}
					switch c.Rng.Intn(6) {
					case 0:
						l.EOL = "\r\n"
					case 1:
						l.EOL = "\n"
					case 2:
						l.EOL = "\r"
					}
					n := 1
					if style == 3 {
						n = 3
					}
					for ; n > 0; n-- {
						src := l.Join(ts)
						c.Input("other layout", src)
						got := mustParse(c, src)
						if !reflect.DeepEqual(want, got) {
							c.Violation("layout changes the module: %s\n%s\n--- instead of\n%s", gen.Diff(want, got), src, base)
						}
						c.Count("layouts", 1)
						if style == 3 {
							c.Sample("comments", src)
						}
					}
				}
				if len(ts) > 12 {
					c.Nontrivial(base)
				}
			})
			// every item in turn crosses the boundary of read buffers
			r.Parallel("boundary", r.N(300, 4000), func(c *rt.Case) {
				ts := toks(c, small(c))
				l := gen.Layout{R: c.Rng, Style: []int{0, 1, 3}[c.Rng.Intn(3)]}
				base := l.Join(ts)
				if len(base) > 1500 {
					ts = toks(c, small(c))
					base = l.Join(ts)
				}
				c.Input("text", base)
				want := mustParse(c, base)
				for k := 0; k <= len(base) && k < 1500; k++ {
					n := 4096 - k
					var pad string
					switch c.Rng.Intn(4) {
					case 0:
						pad = rep(" ", n)
					case 1:
						pad = rep("\r\n", n/2) + rep(" ", n%2)
					case 2:
						pad = "--" + rep("x", n-3) + "\n"
					default:
						pad = "/*" + rep("*", n-4) + "*/"
					}
					if strings.HasPrefix(base, "/") || strings.HasPrefix(base, "-") {
						pad = rep(" ", n)
					}
					c.Input("shifted text", pad+base)
					got := mustParse(c, pad+base)
					if !reflect.DeepEqual(want, got) {
						c.Violation("text shifted by %d bytes is parsed to another module: %s", n, gen.Diff(want, got))
					}
				}
				c.Count("offsets", len(base)+1)
				c.Nontrivial(base)
			})
			// every character within a comment, next to what ends comments
			chars := specialChars()
			r.Parallel("characters in comments", r.N(1, 8)*len(chars), func(c *rt.Case) {
				ch := chars[c.Index%len(chars)]
				ts := toks(c, small(c))
				l := gen.Layout{R: c.Rng, Style: 0}
				base := l.Join(ts)
				c.Input("single spaces", base)
				want := mustParse(c, base)
				coms := []string{"/*" + ch + "*/", "/* " + ch + ch + " */", "/*" + ch + "/*" + ch + "*/" + ch + "*/", "/***" + ch + "***/", "/*/" + ch + "*/"}
				if ch != "/" && ch != "*" {
					coms = append(coms, "/* *"+ch+"/ */", "/* "+ch+" -- */")
				} else {
					coms = coms[1:2]
				}
				if ch[0] < 10 || ch[0] > 13 {
					coms = append(coms, "-- x"+ch+"\n", "-- "+ch+ch+" --", "-- /* "+ch+"\n")
					if ch != "-" {
						coms = append(coms, "--"+ch+"--", "-- -"+ch+"- x\n", "--"+ch+"\n")
					} else {
						coms = coms[:len(coms)-2]
					}
				}
				for _, com := range coms {
					i := c.Rng.Intn(len(ts))
					src := l.Join(ts[:i+1]) + " " + com + " " + l.Join(ts[i+1:])
					c.Input("other layout", src)
					got := mustParse(c, src)
					if !reflect.DeepEqual(want, got) {
						c.Violation("comment %q changes the module: %s", com, gen.Diff(want, got))
					}
				}
				c.Count("comments of special characters", len(coms))
				c.Nontrivial(base)
			})
			// gaps of any size
			r.Parallel("wide gaps", r.N(120, 1200), func(c *rt.Case) {
				ts := toks(c, small(c))
				l := gen.Layout{R: c.Rng, Style: 0}
				base := l.Join(ts)
				c.Input("single spaces", base)
				want := mustParse(c, base)
				n := []int{255, 256, 257, 1000, 4096, 32768, 65535, 65536, 65537, 200000}[c.Rng.Intn(10)] + c.Rng.Intn(3)
				var gap string
				k := c.Index % 12
				switch k {
				case 0, 1:
					in := []string{"", " ", "x", "\n", "--"}[c.Rng.Intn(5)]
					gap = rep("/*"+in, n) + " " + rep("*/"+in, n-1) + "*/"
				case 2:
					gap = rep("/* x */", n)
				case 3:
					gap = rep("-- x --", n)
				case 4:
					gap = rep("--\r\n", n)
				case 5:
					gap = "-- " + rep("- ", n) + "--"
				case 6:
					gap = "/*" + rep("/", n) + " */"
				case 7:
					gap = "/" + rep("*", n) + "/"
					if n == 1 {
						gap = "/**/"
					}
				case 8:
					gap = rep([]string{" ", "\n", "\t", "\v", "\f", "\r"}[c.Rng.Intn(6)], n)
				case 9:
					gap = "/*" + rep("\"END", n) + "*/"
				case 10:
					gap = "/*" + rep("/**/", n) + "*/"
				case 11:
					gap = "--" + rep("é", n) + "\r"
				}
				i := c.Rng.Intn(len(ts))
				src := l.Join(ts[:i+1]) + " " + gap + " " + l.Join(ts[i+1:])
				c.Input("form", fmt.Sprintf("gap of kind %d and size %d after item %d", k, n, i))
				got := mustParse(c, src)
				if !reflect.DeepEqual(want, got) {
					c.Violation("gap of kind %d and size %d changes the module: %s", k, n, gen.Diff(want, got))
				}
				c.Count("wide gaps", 1)
				c.Nontrivial(fmt.Sprint(k, n, i, base))
			})
			// comments at every place between items, one at a time
			r.Parallel("every gap", r.N(2500, 40000), func(c *rt.Case) {
				ts := toks(c, small(c))
				l := gen.Layout{R: c.Rng, Style: 0}
				base := l.Join(ts)
				c.Input("single spaces", base)
				want := mustParse(c, base)
				for i := 0; i <= len(ts); i++ {
					com := l.Comment()
					var b strings.Builder
					for j, t := range ts {
						if j == i {
							b.WriteString(com + " ")
						}
						b.WriteString(string(t) + " ")
					}
					if i == len(ts) {
						b.WriteString(com)
					}
					src := b.String()
					c.Input("other layout", src)
					got := mustParse(c, src)
					if !reflect.DeepEqual(want, got) {
						c.Violation("comment %q before item %d changes the module: %s", com, i, gen.Diff(want, got))
					}
				}
				c.Count("gaps", len(ts)+1)
				c.Nontrivial(base)
			})
		}})
}
