package checks

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	a "github.com/chemikadze/asn1go"

	"verif/rt"
)

// failReader fails after n bytes.
type failReader struct {
	s     string
	n     int // offset of the failure
	chunk int
	mode  int
	err   error

	pos    int
	failed bool
	after  int // reads after the failure
	empty  int
}

const (
	failSticky   = iota // keeps failing
	failOnceData        // fails once, then delivers the rest
	failOnceEOF         // fails once, then reports the end of input
	failWithData        // error comes together with the last bytes, then delivers the rest
	failWithEOF         // error comes together with the last bytes, then reports the end of input
	failEmpty           // delivers nothing without an error for some reads, then keeps failing
	failModes
)

var failNames = []string{"sticky", "once, then data", "once, then EOF", "with data, then rest", "with data, then EOF", "after empty reads"}

func (x *failReader) Read(p []byte) (int, error) {
	if x.failed {
		x.after++
		if x.after > 5000 {
			return 0, x.err // do not run forever
		}
		switch x.mode {
		case failSticky:
			return 0, x.err
		case failOnceEOF, failWithEOF:
			return 0, io.EOF
		case failEmpty:
			if x.empty < 30 {
				x.empty++
				return 0, nil
			}
			return 0, x.err
		}
		if x.pos >= len(x.s) {
			return 0, io.EOF
		}
		n := copy(p, x.s[x.pos:])
		x.pos += n
		return n, nil
	}
	left := x.n - x.pos
	if left == 0 {
		x.failed = true
		if x.mode == failEmpty {
			return 0, nil
		}
		return 0, x.err
	}
	n := left
	if n > x.chunk {
		n = x.chunk
	}
	n = copy(p[:min(n, len(p))], x.s[x.pos:])
	x.pos += n
	if x.pos == x.n && (x.mode == failWithData || x.mode == failWithEOF) {
		x.failed = true
		return n, x.err
	}
	return n, nil
}

// dressed gives a failing reader the methods of other readers, which deliver the same bytes and the same failure.
// Failures that are not repeated stay failures of the stream that a reader of this kind has remembered.
func dressed(rd *failReader, kind int) (io.Reader, string) {
	switch kind {
	case 1:
		return bufio.NewReader(rd), "bufio.Reader"
	case 2:
		return bufio.NewReaderSize(rd, 16), "small bufio.Reader"
	case 3:
		return io.MultiReader(strings.NewReader(""), rd), "io.MultiReader"
	case 4:
		return io.TeeReader(rd, io.Discard), "io.TeeReader"
	case 5:
		return io.LimitReader(rd, 1<<40), "io.LimitedReader"
	case 6:
		return writerTo{rd}, "io.WriterTo"
	case 7:
		return &sized{rd}, "reader that knows its size"
	case 8:
		return io.NopCloser(rd), "io.ReadCloser"
	case 9:
		return bufio.NewReadWriter(bufio.NewReader(rd), bufio.NewWriter(io.Discard)), "bufio.ReadWriter"
	}
	return rd, "plain reader"
}

const dresses = 10

// writerTo writes what it reads.
type writerTo struct{ *failReader }

func (x writerTo) WriteTo(w io.Writer) (n int64, err error) {
	buf := make([]byte, 512)
	for {
		k, rerr := x.Read(buf)
		if k > 0 {
			m, werr := w.Write(buf[:k])
			if n += int64(m); werr != nil {
				return n, werr
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

// sized tells how many bytes are left, as strings.Reader and bytes.Buffer do.
type sized struct{ *failReader }

func (x *sized) Len() int    { return len(x.s) - x.pos }
func (x *sized) Size() int64 { return int64(len(x.s)) }

func init() {
	register(&rt.Check{ID: "C03", Unprivileged: true,
		Rule: "reader fails at every offset of a text in six modes (sticky, once, with data, after empty reads); non-trivial if the failure is within a valid module, distinct by text, offset and mode",
		Run: func(r *rt.Runner) {
			errs := []error{errors.New("injected failure 4711"), io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, context.Canceled, io.ErrClosedPipe, io.ErrNoProgress, syscall.EIO, io.ErrShortBuffer, &os.PathError{Op: "read", Path: "x.asn1", Err: syscall.ESTALE},
				fmt.Errorf("connection 4711: %w", io.EOF), &os.PathError{Op: "read", Path: "y.asn1", Err: io.EOF}, busy{}, errors.New("EOF"), syscall.EAGAIN, syscall.EINTR, os.ErrClosed}
			try := func(c *rt.Case, src string, valid bool, off, mode, chunk int, e error) {
				rd := &failReader{s: src, n: off, chunk: chunk, mode: mode, err: e}
				kind := 0
				if c.Rng.Intn(3) == 0 {
					kind = c.Rng.Intn(dresses)
				}
				in, name := dressed(rd, kind)
				c.Count("failures of "+name, 1)
				what := fmt.Sprintf("%s failing at offset %d of %d (%s, chunks of %d, %v)", name, off, len(src), failNames[mode], chunk, e)
				m, err := guard(c, "ParseStream with "+what, func() (*a.ModuleDefinition, error) { return a.ParseStream(in) })
				c.Eval(1)
				if !rd.failed {
					// parser gave up before the failure because of the text
					if valid {
						c.Violation("%s: parsing stopped at offset %d without reading valid text to its end", what, rd.pos)
					}
					if err == nil || m != nil {
						c.Violation("%s: parsing succeeded without reading to the end", what)
					}
					c.Count("rejected before the failure", 1)
					return
				}
				c.Count("failures: "+failNames[mode], 1)
				if err == nil || m != nil {
					c.Violation("%s: parsing returned module %v and error %v", what, m != nil, err)
				}
				if rd.after > 1000 {
					c.Violation("%s: parser made %d reads after the failure", what, rd.after)
				}
				// a failure within an encoded character leaves a byte behind that is not valid by itself
				if valid && (off == len(src) || utf8.RuneStart(src[off])) {
					msg := e.Error()
					if !strings.Contains(err.Error(), msg) {
						c.Violation("%s: failure is not named in the error %q", what, err.Error())
					}
					c.Count("named causes", 1)
				}
			}
			r.Parallel("every offset", r.N(800, 12000), func(c *rt.Case) {
				valid := c.Rng.Intn(5) != 0
				var src string
				if valid {
					src = text(c, small(c), c.Rng.Intn(5))
				} else {
					src, _ = anyText(c)
				}
				c.Input("text", src)
				if valid {
					mustParse(c, src)
				}
				step := 1
				if len(src) > 1200 {
					step = len(src) / 600
				}
				for off := 0; off <= len(src); off += step {
					mode := c.Rng.Intn(failModes)
					chunk := []int{1, 3, 17, 100000}[c.Rng.Intn(4)]
					try(c, src, valid, off, mode, chunk, errs[c.Rng.Intn(len(errs))])
					try(c, src, valid, off, (mode+1)%failModes, 100000, errs[0])
				}
				c.Sample("text", src)
				c.Nontrivial(src)
			})
			// failures of the operating system
			r.Parallel("files", r.N(400, 4000), func(c *rt.Case) {
				src := text(c, small(c), c.Rng.Intn(5))
				if len(src) > 60000 {
					src = src[:60000]
				}
				off := len(src)
				if c.Rng.Intn(3) == 0 {
					off = c.Rng.Intn(len(src) + 1)
				}
				c.Input("text before the failure", src[:off])
				var f *os.File
				kind := []string{"connection that is reset", "pipe with a deadline", "file that is closed", "directory", "file that can not be read"}[c.Index%5]
				switch kind {
				case "connection that is reset":
					f = resetInput(c, src[:off])
				case "pipe with a deadline":
					pr, pw, err := os.Pipe()
					if err != nil {
						c.Broken("%v", err)
					}
					defer pw.Close()
					go io.WriteString(pw, src[:off])
					if err := pr.SetReadDeadline(time.Now().Add(100 * time.Millisecond)); err != nil {
						c.Broken("%v", err)
					}
					f = pr
				case "file that is closed":
					name := filepath.Join(c.R.Scratch, fmt.Sprintf("closed-%d", c.Index))
					write(c, name, src)
					defer os.Remove(name)
					f, _ = os.Open(name)
					f.Close()
				case "directory":
					f, _ = os.Open(c.R.Scratch)
				default:
					f, _ = os.Open("/proc/self/mem") // nothing is mapped at its beginning
				}
				if f == nil {
					c.Broken("no input")
				}
				m, err := guard(c, "ParseStream of a "+kind, func() (*a.ModuleDefinition, error) { return a.ParseStream(f) })
				f.Close()
				c.Eval(1)
				if err == nil || m != nil {
					c.Violation("%s after %d bytes of %d: parsing returned module %v and error %v", kind, off, len(src), m != nil, err)
				}
				c.Count("failures of a "+kind, 1)
				c.Nontrivial(fmt.Sprint(kind, c.Index))
			})
			// long words, numbers and comments around the buffer boundary
			r.Parallel("boundary", r.N(400, 4000), func(c *rt.Case) {
				item := []string{
					"A" + rep("b", c.Rng.Intn(60)) + " ::= NULL",
					"a INTEGER ::= " + rep("0", c.Rng.Intn(40)) + "12",
					"a REAL ::= 1." + rep("0", c.Rng.Intn(40)) + "12E5",
					"A ::= --" + rep("x", c.Rng.Intn(60)) + "--NULL",
					"A ::= /*" + rep("/* */", c.Rng.Intn(12)) + "*/NULL",
					"A ::= SEQUENCE { a NULL, ..., [[ b NULL ]] }",
					"A ::= INTEGER (MIN..MAX)",
					"é" + rep("é世", c.Rng.Intn(20)) + " INTEGER ::= 5",
				}[c.Rng.Intn(8)]
				head := "M DEFINITIONS ::= BEGIN "
				padN := 4096 - len(head) - c.Rng.Intn(len(item)+1)
				src := head + rep(" ", padN) + item + " END "
				c.Input("text", src)
				mustParse(c, src)
				for off := 4096 - 70; off <= len(src); off++ {
					for mode := 0; mode < failModes; mode++ {
						try(c, src, true, off, mode, []int{1, 4096, 100000}[c.Rng.Intn(3)], errs[c.Rng.Intn(len(errs))])
					}
				}
				c.Nontrivial(src)
			})
		}})
}
