package checks

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

// busy is an error that could go away.
type busy struct{}

func (busy) Error() string   { return "busy" }
func (busy) Temporary() bool { return true }
func (busy) Timeout() bool   { return true }

// writerErrors are all failures, whatever they mean elsewhere.
var writerErrors = []error{errors.New("writer failed on purpose"), io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, os.ErrClosed, os.ErrDeadlineExceeded, context.Canceled, busy{},
	syscall.EPIPE, syscall.EAGAIN, syscall.EINTR, syscall.ENOSPC, &os.PathError{Op: "write", Path: "out.go", Err: syscall.EPIPE}, fmt.Errorf("peer: %w", io.EOF), bufio.ErrBufferFull}

// faultyWriter fails at an offset of the output.
type faultyWriter struct {
	left     int
	full     bool // writes that do not fit are rejected as a whole
	once     bool // later writes succeed
	late     bool // all bytes are accepted by the failing write
	accepted bytes.Buffer
	failed   int
	after    int // calls after the failure
	err      error
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	if w.failed > 0 {
		w.after++
		if w.once {
			return len(p), nil
		}
		return 0, w.err
	}
	if len(p) < w.left {
		w.left -= len(p)
		w.accepted.Write(p)
		return len(p), nil
	}
	w.failed++
	n := w.left
	switch {
	case w.late:
		n = len(p)
	case w.full:
		n = 0
	}
	if n > len(p) {
		n = len(p)
	}
	w.accepted.Write(p[:n])
	return n, w.err
}

// dressedWriter gives a failing writer the methods of other writers, which fail in the same way.
func dressedWriter(w *faultyWriter, kind int) (io.Writer, string) {
	switch kind {
	case 1:
		return stringWriter{w}, "io.StringWriter"
	case 2:
		return readerFrom{w}, "io.ReaderFrom"
	case 3:
		return &fileLike{w}, "writer like a file"
	case 4:
		return io.MultiWriter(w, io.Discard), "io.MultiWriter"
	}
	return w, "plain writer"
}

const writerDresses = 5

type stringWriter struct{ *faultyWriter }

func (w stringWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

type readerFrom struct{ *faultyWriter }

func (w readerFrom) ReadFrom(r io.Reader) (n int64, err error) {
	buf := make([]byte, 700)
	for {
		k, rerr := r.Read(buf)
		if k > 0 {
			m, werr := w.Write(buf[:k])
			if n += int64(m); werr != nil {
				return n, werr
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

// fileLike can be flushed and closed, which gives no second error.
type fileLike struct{ *faultyWriter }

func (w *fileLike) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w *fileLike) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}
func (w *fileLike) Flush() error { return nil }
func (w *fileLike) Sync() error  { return nil }

func init() {
	register(&rt.Check{ID: "C21", Unprivileged: true,
		Rule: "writers that fail at every byte offset of the output of random modules (accepting a part, nothing or all of the failing write, once or forever); non-trivial if distinct by output, offset and mode",
		Run: func(r *rt.Runner) {
			r.Parallel("faults", r.N(1500, 25000), func(c *rt.Case) {
				g := gen.NewCode(c.Rng)
				g.MaxTypes = 1 + c.Rng.Intn(5)
				g.Budget = 30
				g.Flat = true
				m := codeModule(c, g)
				if c.Index == 0 {
					m.ModuleBody = a.ModuleBody{}
				}
				params := a.GenParams{IntegerRepr: reprs[c.Rng.Intn(2)]}
				whole := mustGenerate(c, m, params)
				cg := a.NewCodeGenerator(params)
				step := 1
				if len(whole) > 1500 {
					step = len(whole)/1500 + 1
				}
				for mode := 0; mode < 5; mode++ {
					for off := c.Rng.Intn(step); off <= len(whole); off += step {
						if step > 1 && off+step > len(whole) {
							off = len(whole)
						}
						w := &faultyWriter{left: off, full: mode == 1, once: mode == 2 || mode == 4, late: mode == 3 || mode == 4}
						kind := 0
						if c.Rng.Intn(2) == 0 {
							kind = c.Rng.Intn(writerDresses)
						}
						w.err = writerErrors[0]
						if c.Rng.Intn(2) == 0 {
							w.err = writerErrors[c.Rng.Intn(len(writerErrors))]
						}
						dressed, name := dressedWriter(w, kind)
						_, err := guard(c, "Generate", func() (int, error) { return 0, cg.Generate(*m, dressed) })
						c.Eval(1)
						got := w.accepted.String()
						what := fmt.Sprintf("%s failing at offset %d of %d in mode %d (%v)", name, off, len(whole), mode, w.err)
						c.Count("runs with "+name, 1)
						if err == nil && w.failed > 0 {
							c.Violation("%s: no error", what)
						}
						if err == nil && got != whole {
							c.Violation("%s: no error, but %d bytes were written", what, len(got))
						}
						if err != nil && w.failed == 0 {
							c.Violation("%s: error %v although no write failed", what, err)
						}
						if !strings.HasPrefix(whole, got) {
							c.Violation("%s: what was written is no prefix of the output:\n%s", what, got)
						}
						if w.failed > 0 {
							c.Count(fmt.Sprintf("failures in mode %d", mode), 1)
							c.Nontrivial(fmt.Sprint(c.Index, mode, off))
						} else {
							c.Count("complete", 1)
						}
						c.Count("writes after the failure", w.after)
					}
				}
			})
		}})
}
