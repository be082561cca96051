package checks

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strings"
	"syscall"
	"testing/iotest"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

// randReader delivers random chunks, sometimes none, sometimes together with io.EOF.
type randReader struct {
	r     *rand.Rand
	s     string
	max   int
	empty int
}

func (x *randReader) Read(p []byte) (int, error) {
	if x.empty < 5 && x.r.Intn(4) == 0 {
		x.empty++
		return 0, nil
	}
	x.empty = 0
	if len(x.s) == 0 {
		return 0, io.EOF
	}
	n := 1 + x.r.Intn(x.max)
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], x.s)
	// callers must not rely on bytes beyond n
	for i := n; i < len(p) && i < n+8; i++ {
		p[i] = 'Z'
	}
	x.s = x.s[n:]
	if len(x.s) == 0 && x.r.Intn(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// cutReader delivers bytes up to an offset first.
type cutReader struct {
	parts []string
}

func (x *cutReader) Read(p []byte) (int, error) {
	for len(x.parts) > 0 && x.parts[0] == "" {
		x.parts = x.parts[1:]
	}
	if len(x.parts) == 0 {
		return 0, io.EOF
	}
	n := copy(p, x.parts[0])
	x.parts[0] = x.parts[0][n:]
	return n, nil
}

func same(c *rt.Case, what string, m1 *a.ModuleDefinition, err1 error, m2 *a.ModuleDefinition, err2 error) {
	if fmt.Sprint(err1) != fmt.Sprint(err2) {
		c.Violation("%s: error is %q instead of %q", what, fmt.Sprint(err2), fmt.Sprint(err1))
	}
	if (m1 == nil) != (m2 == nil) {
		c.Violation("%s: module is %v instead of %v", what, m2 != nil, m1 != nil)
	}
	if !reflect.DeepEqual(m1, m2) {
		c.Violation("%s: modules are not equal", what)
	}
}

// wrapped is text in a form that some program might unpack, which is nothing special for a parser.
func wrapped(c *rt.Case, src string) (string, string) {
	utf16 := func(big bool) string {
		var b strings.Builder
		for _, x := range "\ufeff" + src {
			if x > 0xffff {
				continue
			}
			if big {
				b.Write([]byte{byte(x >> 8), byte(x)})
			} else {
				b.Write([]byte{byte(x), byte(x >> 8)})
			}
		}
		return b.String()
	}
	switch c.Rng.Intn(12) {
	case 0, 1, 2:
		return "\ufeff" + src, "byte order mark"
	case 3:
		return utf16(false), "UTF-16, little endian"
	case 4:
		return utf16(true), "UTF-16, big endian"
	case 5:
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		io.WriteString(z, src)
		z.Close()
		return b.String(), "gzip"
	case 6:
		return "#!/usr/bin/asn1go\n" + src, "script"
	case 7:
		return src + "\x1a", "SUB at the end"
	case 8:
		return src + strings.Repeat("\x00", 1+c.Rng.Intn(600)), "NUL at the end"
	case 9:
		return strings.ReplaceAll(strings.ReplaceAll(src, "\r\n", "\n"), "\n", "\r\n"), "CRLF"
	case 10:
		return "-----BEGIN ASN.1-----\n" + src + "\n-----END ASN.1-----\n", "armor"
	}
	return strings.TrimRight(src, " \t\r\n\v\f"), "nothing after the last item"
}

func openFDs(name string) int {
	n := 0
	ents, _ := os.ReadDir("/proc/self/fd")
	for _, e := range ents {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && l == name {
			n++
		}
	}
	return n
}

// midway are readers of a longer text from which a part was taken before.
func midway(c *rt.Case, src string) []io.Reader {
	before := []string{"x", "\n", "B DEFINITIONS ::= BEGIN END\n", "-- ", "/* ", "first line\n"}[c.Rng.Intn(6)]
	before = strings.Repeat(before, 1+c.Rng.Intn(3))
	all := before + src
	skip := func(r io.Reader) io.Reader {
		if _, err := io.ReadFull(r, make([]byte, len(before))); err != nil {
			c.Broken("%v", err)
		}
		return r
	}
	s := strings.NewReader(all)
	s.Seek(int64(len(before)), io.SeekStart)
	out := []io.Reader{s, skip(bytes.NewReader([]byte(all))), skip(bytes.NewBufferString(all)), skip(bufio.NewReader(strings.NewReader(all))),
		skip(bufio.NewReaderSize(strings.NewReader(all), 16)), io.NewSectionReader(strings.NewReader(all+" after"), int64(len(before)), int64(len(src))),
		io.LimitReader(skip(strings.NewReader(all+" after")), int64(len(src)))}
	return out
}

func init() {
	register(&rt.Check{ID: "C02", Unprivileged: true,
		Rule: "valid and invalid text through readers that split it in different ways and through files; non-trivial if text has more than 20 bytes, distinct by text",
		Run: func(r *rt.Runner) {
			stream := func(c *rt.Case, rd io.Reader) (*a.ModuleDefinition, error) {
				c.Eval(1)
				return guard(c, "ParseStream", func() (*a.ModuleDefinition, error) { return a.ParseStream(rd) })
			}
			r.Parallel("readers", r.N(25000, 500000), func(c *rt.Case) {
				src, kind := anyText(c)
				if c.Rng.Intn(20) == 0 {
					src = rep(" ", 4000+c.Rng.Intn(120)) + src
				}
				if c.Rng.Intn(10) == 0 {
					src, kind = wrapped(c, src)
				}
				c.Input("text", src)
				c.Count("text: "+kind, 1)
				m, err := parse(c, src)
				readers := []struct {
					name string
					r    io.Reader
				}{
					{"strings.Reader", strings.NewReader(src)},
					{"one byte", iotest.OneByteReader(strings.NewReader(src))},
					{"half", iotest.HalfReader(strings.NewReader(src))},
					{"data with EOF", iotest.DataErrReader(strings.NewReader(src))},
					{"one byte, data with EOF", iotest.DataErrReader(iotest.OneByteReader(strings.NewReader(src)))},
					{"random", &randReader{r: c.Rng, s: src, max: 1 + c.Rng.Intn(50)}},
					{"random large", &randReader{r: c.Rng, s: src, max: 6000}},
				}
				for _, rd := range readers {
					m2, err2 := stream(c, rd.r)
					same(c, rd.name, m, err, m2, err2)
				}
				for _, rd := range midway(c, src) {
					m2, err2 := stream(c, rd)
					same(c, fmt.Sprintf("rest of %T", rd), m, err, m2, err2)
				}
				// with other input in between
				a.ParseString("X DEFINITIONS ::= BEGIN A ::= SEQUENCE { a INTEGER DEFAULT 7 } b REAL ::= 1.5E")
				m2, err2 := parse(c, src)
				same(c, "repeated", m, err, m2, err2)
				name := filepath.Join(c.R.Scratch, fmt.Sprintf("f%d", c.Index))
				if e := os.WriteFile(name, []byte(src), 0600); e != nil {
					c.Broken("%v", e)
				}
				defer os.Remove(name)
				m3, err3 := guard(c, "ParseFile", func() (*a.ModuleDefinition, error) { return a.ParseFile(name) })
				c.Eval(1)
				same(c, "ParseFile", m, err, m3, err3)
				if err == nil {
					c.Count("accepted", 1)
				} else {
					c.Count("rejected", 1)
				}
				c.Sample(kind, src)
				if len(src) > 20 {
					c.Nontrivial(src)
				}
			})
			r.Parallel("cuts", r.N(600, 10000), func(c *rt.Case) {
				src := text(c, small(c), c.Rng.Intn(5))
				if c.Rng.Intn(2) == 0 {
					src, _ = anyText(c)
				}
				if len(src) > 1200 {
					src = src[:1200]
				}
				c.Input("text", src)
				m, err := parse(c, src)
				for k := 1; k < len(src); k++ {
					m2, err2 := stream(c, &cutReader{[]string{src[:k], src[k:]}})
					same(c, fmt.Sprintf("cut at %d", k), m, err, m2, err2)
				}
				c.Count("cuts", len(src))
				c.Nontrivial(src)
			})
			// texts beyond the sizes at which limits and other ways to read are usual
			r.Parallel("large", r.N(24, 120), func(c *rt.Case) {
				limit := []int{1 << 16, 1 << 18, 1 << 20, 1 << 21, 1 << 22, 5000000, 1 << 23, 10000000}[c.Index%8]
				src, kind := anyText(c)
				if c.Rng.Intn(2) == 0 {
					src = text(c, gen.NewFull(c.Rng).Module(), c.Rng.Intn(5))
				}
				if c.Index%3 == 2 { // many assignments
					k := strings.LastIndex(src, "END")
					if k < 0 {
						src, k = src+" END", len(src)+1
					}
					line := "\nZz ::= SEQUENCE { a INTEGER (0..5) OPTIONAL, b OCTET STRING }"
					src = src[:k] + rep(line, min(limit, 1<<21)/len(line)+1) + "\n" + src[k:]
				} else {
					fill := []string{" ", "\n", "--c\n", "/* x */"}[c.Rng.Intn(4)]
					fill = rep(fill, (limit+c.Rng.Intn(5)-2-c.Rng.Intn(len(src)+1))/len(fill)+1)
					if k := strings.IndexAny(src, " \n") + 1; c.Rng.Intn(3) == 0 {
						src = src[:k] + fill + src[k:]
					} else {
						src = fill + src
					}
				}
				c.Input("text", src)
				name := filepath.Join(c.R.Scratch, fmt.Sprintf("large-%d", c.Index))
				if e := os.WriteFile(name, []byte(src), 0600); e != nil {
					c.Broken("%v", e)
				}
				defer os.Remove(name)
				m, err := parse(c, src)
				for _, rd := range []io.Reader{strings.NewReader(src), &randReader{r: c.Rng, s: src, max: 100000}, bufio.NewReaderSize(strings.NewReader(src), 1<<20), iotest.DataErrReader(strings.NewReader(src)),
					struct{ io.Reader }{strings.NewReader(src)}, bytes.NewBufferString(src)} {
					m2, err2 := stream(c, rd)
					same(c, fmt.Sprintf("%T", rd), m, err, m2, err2)
				}
				m3, err3 := guard(c, "ParseFile", func() (*a.ModuleDefinition, error) { return a.ParseFile(name) })
				c.Eval(1)
				same(c, "ParseFile", m, err, m3, err3)
				c.Count("bytes of large texts", len(src))
				c.Count("large: "+kind, 1)
				c.Nontrivial(fmt.Sprint("large", c.Index))
			})
			r.Sequential("files", r.N(60, 400), func(c *rt.Case) {
				old := debug.SetGCPercent(-1)
				defer debug.SetGCPercent(old)
				src, kind := anyText(c)
				name := filepath.Join(c.R.Scratch, "fd-test.asn1")
				if e := os.WriteFile(name, []byte(src), 0600); e != nil {
					c.Broken("%v", e)
				}
				defer os.Remove(name)
				if real, e := filepath.EvalSymlinks(name); e == nil {
					name = real
				}
				c.Input("text", src)
				for i := 0; i < 5; i++ {
					a.ParseFile(name)
					c.Eval(1)
				}
				if n := openFDs(name); n > 0 {
					c.Violation("ParseFile left %d file descriptors open (%s text)", n, kind)
				}
				m, err := parse(c, src)
				link := filepath.Join(c.R.Scratch, "fd-test-link.asn1")
				if e := os.Symlink(name, link); e != nil {
					c.Broken("%v", e)
				}
				defer os.Remove(link)
				viaLink, linkErr := guard(c, "ParseFile", func() (*a.ModuleDefinition, error) { return a.ParseFile(link) })
				same(c, "ParseFile of a symbolic link", m, err, viaLink, linkErr)
				if file, e := os.Open(name); e == nil { // from the middle of a file
					k := c.Rng.Intn(len(src) + 1)
					file.Seek(int64(k), io.SeekStart)
					rest, restErr := parse(c, src[k:])
					m2, err2 := stream(c, file)
					file.Close()
					same(c, "rest of a file", rest, restErr, m2, err2)
				}
				// other content of the same size under the same name, and with the same time
				if st, e := os.Stat(name); e == nil && len(src) > 0 {
					for _, keepTime := range []bool{true, false} {
						k := c.Rng.Intn(len(src))
						other := src[:k] + string("aZ1- {"[c.Rng.Intn(6)]) + src[k+1:]
						if c.Rng.Intn(3) == 0 {
							k = strings.IndexAny(src, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") + 1
							other = src[:k] + "xY5"[c.Rng.Intn(3):][:1] + src[min(k+1, len(src)):]
						}
						if e := os.WriteFile(name, []byte(other), 0600); e != nil {
							c.Broken("%v", e)
						}
						if keepTime {
							os.Chtimes(name, st.ModTime(), st.ModTime())
						}
						m, err := parse(c, other)
						m2, err2 := guard(c, "ParseFile", func() (*a.ModuleDefinition, error) { return a.ParseFile(name) })
						same(c, "ParseFile of a file that was written again", m, err, m2, err2)
					}
					os.WriteFile(name, []byte(src), 0600)
					c.Count("files written again", 2)
				}
				pr, pw, e := os.Pipe()
				if e != nil {
					c.Broken("%v", e)
				}
				go func() {
					io.WriteString(pw, src)
					pw.Close()
				}()
				piped, pipeErr := guard(c, "ParseFile", func() (*a.ModuleDefinition, error) {
					return a.ParseFile(fmt.Sprintf("/proc/self/fd/%d", pr.Fd()))
				})
				pr.Close()
				same(c, "ParseFile of a pipe", m, err, piped, pipeErr)
				c.Eval(2)
				for _, bad := range []string{filepath.Join(c.R.Scratch, "no-such-file"), c.R.Scratch, filepath.Join(name, "x"), ""} {
					m, err := guard(c, "ParseFile", func() (*a.ModuleDefinition, error) { return a.ParseFile(bad) })
					c.Eval(1)
					if err == nil || m != nil {
						c.Violation("ParseFile of %q, which can not be read, returned module %v and error %v", bad, m != nil, err)
					}
					if _, cause := os.ReadFile(bad); cause != nil {
						var errno syscall.Errno
						if errors.As(cause, &errno) && !errors.Is(err, errno) && !strings.Contains(err.Error(), errno.Error()) {
							c.Violation("ParseFile of %q returned the error %q, which does not tell that %v", bad, err, errno)
						}
					}
				}
				c.Count("descriptor checks", 1)
			})
		}})
}
