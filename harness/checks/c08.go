package checks

import (
	"fmt"
	"strings"
	"sync"

	"verif/gen"
	"verif/refg"
	"verif/rt"
)

// mistakes put an item into text that no module continues with, whatever is before it.
var mistakes = []struct {
	kind string
	toks []string
	// cause says what the error has to contain, %s is the item
	cause func(tok, msg string) bool
}{
	{"item that is not in the grammar", []string{"=", "\"", "'", ">", "@"}, nil},
	{"keyword of the module header", []string{"DEFINITIONS", "BEGIN", "EXTENSIBILITY", "AUTOMATIC"}, nil},
	{"unknown character", []string{"#", "$", "%", "&", "*", "+", "?", "\\", "_", "`", "~", "€", "\u00a0", "\u2028"}, func(tok, msg string) bool { return strings.Contains(msg, tok) }},
	{"malformed identifier", []string{"foo-", "Foo-", "a--b", "A--", "x-y--z", "a-b-", "END-", "a--"}, func(tok, msg string) bool {
		return strings.Contains(msg, strings.TrimRight(strings.SplitN(tok, "--", 2)[0], "-")) && strings.Contains(msg, "hyphen")
	}},
	{"number out of range", []string{"9223372036854775808", "99999999999999999999", "100000000000000000000000000000000000001"}, func(tok, msg string) bool {
		return strings.Contains(msg, tok) || strings.Contains(msg, "range")
	}},
}

func init() {
	register(&rt.Check{ID: "C08", Unprivileged: true,
		Rule: "valid module with one item put into it that no module continues with there, in layouts with all line ends and comments; non-trivial if the item is not in the first line, distinct by text",
		Run: func(r *rt.Runner) {
			check := func(c *rt.Case, src string, line int, cause func(msg string) bool, what string) {
				c.Input("text", src)
				_, err := parse(c, src)
				if err == nil {
					c.Violation("module with a mistake (%s) is accepted\n%s", what, src)
				}
				msg := err.Error()
				if !strings.HasPrefix(msg, fmt.Sprintf("line %d:", line)) {
					c.Violation("mistake (%s) is in line %d, error is %q\n%s", what, line, msg, src)
				}
				if cause != nil && !cause(msg) {
					c.Violation("mistake (%s) is not named as the cause in error %q\n%s", what, msg, src)
				}
				c.Count("mistakes: "+what, 1)
				if line > 1 {
					c.Nontrivial(src)
				}
				c.Sample(what, src+"\n=> "+msg)
			}
			noEnd := func(msg string) bool { return !strings.Contains(msg, "unexpected $end") }
			r.Parallel("mistakes", r.N(150000, 2500000), func(c *rt.Case) {
				ts := toks(c, small(c))
				k := mistakes[c.Index%len(mistakes)]
				tok := k.toks[c.Rng.Intn(len(k.toks))]
				i := c.Rng.Intn(len(ts) + 1)
				if k.kind == "keyword of the module header" {
					i = after(ts, "BEGIN", c.Rng.Intn(len(ts)+1))
				}
				mt := append([]gen.Tok{}, ts[:i]...)
				mt = append(mt, gen.Tok(tok))
				if c.Rng.Intn(2) == 0 || i >= len(ts) {
					mt = append(mt, ts[i:]...)
				} else {
					mt = append(mt, ts[i+1:]...)
				}
				l := gen.Layout{R: c.Rng, Style: 2 + c.Rng.Intn(3)}
				switch c.Rng.Intn(5) {
				case 0:
					l.EOL = "\r\n"
				case 1:
					l.EOL = "\n"
				}
				src := joinApart(&l, mt, i)
				check(c, src, l.Lines[i], func(msg string) bool {
					return noEnd(msg) && (k.cause == nil || k.cause(tok, msg))
				}, k.kind)
			})
			// mistakes far down, after lines of every kind
			r.Parallel("far down", r.N(60, 600), func(c *rt.Case) {
				ts := toks(c, small(c))
				k := mistakes[c.Index%len(mistakes)]
				tok := k.toks[c.Rng.Intn(len(k.toks))]
				i := c.Rng.Intn(len(ts) + 1)
				if k.kind == "keyword of the module header" {
					i = after(ts, "BEGIN", c.Rng.Intn(len(ts)+1))
				}
				mt := append(append(append([]gen.Tok{}, ts[:i]...), gen.Tok(tok)), ts[i:]...)
				l := gen.Layout{R: c.Rng, Style: 2 + c.Rng.Intn(3)}
				src := joinApart(&l, mt, i)
				n := []int{120, 250, 32760, 65500, 65530, 66000, 131070, 200000, 1000000}[c.Rng.Intn(9)] + c.Rng.Intn(20)
				pad := []string{"\n", "\r\n", "\r", "\f", "\v", " -- comment\n", "/*\n*/", "x\n", "--\r\n"}[c.Rng.Intn(9)]
				if pad == "x\n" { // within one comment
					src = "/*" + rep(pad, n) + "*/" + src
				} else {
					src = rep(pad, n) + " " + src
				}
				check(c, src, l.Lines[i]+n, func(msg string) bool {
					return noEnd(msg) && (k.cause == nil || k.cause(tok, msg))
				}, k.kind)
				c.Count("mistakes far down", 1)
			})
			// any items, the first one that no module continues with is told by the reference grammar
			messages := &messageKinds{byText: map[string]string{}}
			r.Parallel("any items", r.N(12000, 200000), func(c *rt.Case) {
				ts := toks(c, small(c))
				for k := 0; k < 12; k++ {
					mt := ts
					for n := 1 + c.Rng.Intn(2); n > 0; n-- {
						mt = gen.MutateToks(c.Rng, mt)
					}
					if len(mt) == 0 {
						continue
					}
					l := gen.Layout{R: c.Rng, Style: 2 + c.Rng.Intn(3)}
					src := l.Join(mt)
					rts, err := refg.Lex(src)
					if err != nil {
						continue
					}
					ok, at := refg.Accepts(rts)
					if ok {
						continue
					}
					if _, x := refg.Implemented(rts); x != at || at == len(rts) {
						continue // not supported, or ends early (see below)
					}
					line, kind := rts[at].Line, rts[at].Kind
					check(c, src, line, noEnd, "any item")
					_, perr := parse(c, src)
					_, msg, _ := strings.Cut(perr.Error(), ":")
					if other := messages.add(msg, kind); other != "" {
						c.Violation("unexpected %s and unexpected %s are both reported as %q\n%s", kind, other, msg, src)
					}
				}
			})
			// text that ends too early
			r.Parallel("ends early", r.N(40000, 500000), func(c *rt.Case) {
				ts := toks(c, small(c))
				i := 1 + c.Rng.Intn(len(ts)-1)
				l := gen.Layout{R: c.Rng, Style: 2 + c.Rng.Intn(3)}
				src := l.Join(ts)
				src = src[:l.Ends[i-1]]
				check(c, src, l.Lines[i-1], nil, "text ends early")
			})
			// comment that is not closed
			r.Parallel("open comment", r.N(20000, 200000), func(c *rt.Case) {
				ts := toks(c, small(c))
				i := c.Rng.Intn(len(ts) + 1)
				l := gen.Layout{R: c.Rng, Style: 2 + c.Rng.Intn(3)}
				src := joinApart(&l, append(append(append([]gen.Tok{}, ts[:i]...), "/*"), ts[i:]...), i)
				src = src[:l.Ends[i]] + " unclosed"
				c.Input("text", src)
				_, err := parse(c, src)
				if err == nil {
					c.Violation("comment that is not closed is accepted\n%s", src)
				}
				if !strings.Contains(err.Error(), "comment") {
					c.Violation("comment that is not closed is reported as %q\n%s", err.Error(), src)
				}
				c.Count("open comments", 1)
			})
		}})
}

// messageKinds holds the kind of item that a message was first given for.
type messageKinds struct {
	mu     sync.Mutex
	byText map[string]string
}

// add returns another kind of item that the same message was given for, if there is one.
func (k *messageKinds) add(msg, kind string) string {
	k.mu.Lock()
	defer k.mu.Unlock()
	if old, ok := k.byText[msg]; ok && old != kind {
		return old
	}
	k.byText[msg] = kind
	return ""
}

// after moves an index behind the first occurrence of an item.
func after(ts []gen.Tok, word string, i int) int {
	for k, t := range ts {
		if string(t) == word {
			if i <= k {
				i = k + 1
			}
			break
		}
	}
	return i
}

// joinApart joins items, with white space around item i.
func joinApart(l *gen.Layout, ts []gen.Tok, i int) string {
	l.Apart = i + 1
	defer func() { l.Apart = 0 }()
	return l.Join(ts)
}
