package checks

import (
	"encoding/asn1"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"time"

	a "github.com/chemikadze/asn1go"

	"verif/rt"
)

// file types that are marshalled
type fileInner struct {
	N int    `asn1:"tag:1,optional"`
	S string `asn1:"utf8"`
}
type fileOuter struct {
	B    bool
	I    int64 `asn1:"explicit,tag:2"`
	Big  *big.Int
	O    []byte
	L    []fileInner `asn1:"set"`
	OID  asn1.ObjectIdentifier
	Bits asn1.BitString
	T    time.Time `asn1:"generalized"`
	Raw  asn1.RawValue
	Opt  fileInner `asn1:"optional,tag:5"`
}
type fileBad struct {
	A int
	F float64
}
type fileBadLate struct {
	O []byte
	S string `asn1:"ia5"`
}

// fileValue makes a value that encodes, or one that does not.
func fileValue(r *rand.Rand, ok bool) any {
	octets := make([]byte, r.Intn(300))
	if r.Intn(8) == 0 {
		octets = make([]byte, r.Intn(200000))
	}
	r.Read(octets)
	inner := func() fileInner { return fileInner{r.Intn(3), strings.Repeat("é", r.Intn(40))} }
	if ok {
		switch r.Intn(9) {
		case 0:
			return r.Int63() - r.Int63()
		case 1:
			return octets
		case 2:
			return "text"
		case 3:
			return asn1.RawContent(nil) == nil
		case 4:
			return []fileInner{inner(), inner()}
		case 5:
			x := inner()
			return &x
		case 6:
			return new(big.Int).SetBytes(octets)
		case 7:
			return struct{}{}
		}
		o := fileOuter{B: true, I: r.Int63(), Big: new(big.Int).SetBytes(octets), O: octets, OID: asn1.ObjectIdentifier{1, 2, r.Intn(1 << 30)},
			Bits: asn1.BitString{Bytes: octets, BitLength: len(octets) * 8}, T: time.Unix(r.Int63n(1<<31), 0).UTC(),
			Raw: asn1.RawValue{Tag: 4, Bytes: octets}}
		for n := r.Intn(4); n > 0; n-- {
			o.L = append(o.L, inner())
		}
		return o
	}
	switch r.Intn(9) {
	case 0:
		return 1.5
	case 1:
		return map[string]int{"a": 1}
	case 2:
		return fileBad{1, 2}
	case 3:
		return fileBadLate{octets, "é"}
	case 4:
		return make(chan int)
	case 5:
		return asn1.ObjectIdentifier{}
	case 6:
		return nil
	case 7:
		return []any{1, func() {}}
	}
	return fileOuter{Big: new(big.Int), OID: asn1.ObjectIdentifier{9, 9, 9}, T: time.Unix(0, 0)}
}

// encodeRef is the encoding to expect. Marshal of the standard library may panic for values it does not support.
func encodeRef(v any) (data []byte, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return asn1.Marshal(v)
}

// limitReport is what a process with a limited file size observed.
type limitReport struct {
	Limits   int
	Problems []string
}

// LimitFiles writes values under all limits of file size.
func LimitFiles(seed string) {
	signal.Ignore(syscall.SIGXFSZ)
	var rep limitReport
	r := rand.New(rand.NewSource(mixString(seed)))
	var lim syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim)
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "limit")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "f")
	for i := 0; i < 20; i++ {
		v := fileValue(r, true)
		want, err := encodeRef(v)
		if err != nil {
			continue
		}
		step := 1 + len(want)/100
		for k := 0; k <= len(want)+1; k += step {
			os.Remove(path)
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(k), Max: lim.Max})
			err := a.MarshalToFile(v, path, 0600)
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
			rep.Limits++
			got, _ := os.ReadFile(path)
			if err == nil && string(got) != string(want) {
				rep.Problems = append(rep.Problems, fmt.Sprintf("no error for file size limited to %d, but file has %d of %d bytes", k, len(got), len(want)))
			}
			if err != nil && k >= len(want) {
				rep.Problems = append(rep.Problems, fmt.Sprintf("error for file size limited to %d with %d bytes: %v", k, len(want), err))
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(rep)
}

// closingPipe makes a pipe whose reader takes n bytes and closes it then. The result ends it in any case.
func closingPipe(c *rt.Case, path string, n int) func() {
	if err := syscall.Mkfifo(path, 0600); err != nil {
		c.Broken("%v", err)
	}
	fd, err := syscall.Open(path, syscall.O_RDONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
	if err != nil {
		c.Broken("%v", err)
	}
	const setPipeSize = 1031
	syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), setPipeSize, 4096)
	stop, done := make(chan bool), make(chan bool)
	go func() {
		defer close(done)
		defer syscall.Close(fd)
		buf := make([]byte, n)
		for {
			if k, _ := syscall.Read(fd, buf); k > 0 {
				return
			}
			select {
			case <-stop:
				return
			case <-time.After(20 * time.Microsecond):
			}
		}
	}()
	return func() { close(stop); <-done }
}

func init() {
	register(&rt.Check{ID: "C26", Unprivileged: true,
		Rule: "random values, encodable or not, written over files that are missing, shorter, longer, read-only, linked, directories, pipes that are closed, or limited in size; contents, mode and return value are monitored, with encoding/asn1 as reference for the encoding; non-trivial if distinct by value and state",
		Run: func(r *rt.Runner) {
			umask := os.FileMode(syscall.Umask(0))
			syscall.Umask(int(umask))
			r.Parallel("files", r.N(30000, 400000), func(c *rt.Case) {
				dir := scratch(c)
				defer os.RemoveAll(dir)
				ok := c.Rng.Intn(4) != 0
				v := fileValue(c.Rng, ok)
				want, err := encodeRef(v)
				ok = err == nil
				panics := err != nil && strings.HasPrefix(err.Error(), "panic")
				if panics {
					return
				}
				c.Input("value", fmt.Sprintf("%T %+v", v, v))
				path := filepath.Join(dir, "file")
				mode := []os.FileMode{0600, 0644, 0666, 0400, 0755, 0640, 0777, 0000}[c.Rng.Intn(8)]
				state := []string{"missing", "missing", "empty", "shorter", "longer", "longer", "longer", "equal", "other of the same size", "read-only", "symlink", "dangling symlink", "directory", "no directory", "pipe that is closed"}[c.Rng.Intn(15)]
				before := ""
				oldMode := os.FileMode(0)
				target := path
				writable := true
				create := func(text string, m os.FileMode) {
					write(c, target, text)
					if err := os.Chmod(target, m); err != nil {
						c.Broken("%v", err)
					}
					before, oldMode = text, m
				}
				switch state {
				case "empty":
					create("", 0644)
				case "shorter":
					create("x", 0604)
				case "longer":
					create(strings.Repeat("previous ", 1+len(want)/9+c.Rng.Intn(20)), 0640)
				case "equal":
					create(string(want), 0644)
				case "other of the same size":
					other := []byte(want)
					if len(other) > 0 {
						other = append([]byte{}, other...)
						other[c.Rng.Intn(len(other))] ^= 1 << c.Rng.Intn(8)
					}
					create(string(other), []os.FileMode{0644, 0600}[c.Rng.Intn(2)])
				case "read-only":
					create("some content that was there before", 0444)
				case "symlink":
					target = filepath.Join(dir, "target")
					create(strings.Repeat("y", len(want)+3), 0644)
					os.Symlink("target", path)
				case "dangling symlink":
					target = filepath.Join(dir, "target")
					os.Symlink("target", path)
				case "directory":
					os.Mkdir(path, 0755)
					writable = false
				case "no directory":
					path = filepath.Join(dir, "missing", "file")
					target = path
					writable = false
				case "pipe that is closed":
					if ok { // more than a pipe can hold
						octets := make([]byte, 16384+c.Rng.Intn(100000))
						c.Rng.Read(octets)
						if v = octets; c.Rng.Intn(2) == 0 {
							v = fileOuter{Big: big.NewInt(1), O: octets, OID: asn1.ObjectIdentifier{1, 2, 3}, T: time.Unix(0, 0).UTC()}
						}
						if want, err = encodeRef(v); err != nil {
							c.Broken("%v", err)
						}
					}
					defer closingPipe(c, path, 1+c.Rng.Intn(200))()
				}
				others := bystanders(c, dir, "file", "target")
				_, err = guard(c, "MarshalToFile", func() (int, error) { return 0, a.MarshalToFile(v, path, mode) })
				c.Eval(1)
				if d := others(); d != "" {
					c.Violation("MarshalToFile to a file that is %s: %s", state, d)
				}
				what := fmt.Sprintf("file is %s, mode %o, value %T", state, mode, v)
				switch {
				case ok && state == "pipe that is closed":
					// the pipe may be replaced by a file, but then with all of the encoding
					info, serr := os.Lstat(path)
					if serr != nil {
						c.Violation("%s: %v", what, serr)
					}
					if info.Mode().IsRegular() {
						if got, _ := content(path); got != string(want) || err != nil {
							c.Violation("%s: pipe becomes a file of %d bytes instead of %d, error is %v", what, len(got), len(want), err)
						}
					} else if err == nil {
						c.Violation("%s: no error", what)
					}
					c.Count("write error, file was "+state, 1)
				case ok && state == "read-only":
					got, _ := content(path)
					if err == nil && got != string(want) || err != nil && got != before {
						c.Violation("%s: error is %v, and the file has %d bytes", what, err, len(got))
					}
					c.Count("file was "+state, 1)
				case ok && writable:
					if err != nil {
						c.Violation("%s: %v", what, err)
					}
					info, err := os.Stat(path)
					if err != nil {
						c.Violation("%s: %v", what, err)
					}
					os.Chmod(path, 0600) // to read it
					got, _ := content(path)
					if got != string(want) {
						c.Violation("%s: file has %d bytes, and not the encoding of %d bytes", what, len(got), len(want))
					}
					if before == "" && oldMode == 0 {
						if info.Mode() != mode&^umask {
							c.Violation("%s: file is created with mode %o", what, info.Mode())
						}
					}
					c.Count("written, file was "+state, 1)
				case ok:
					if err == nil {
						c.Violation("%s: no error", what)
					}
					c.Count("write error, file was "+state, 1)
				default:
					if err == nil {
						c.Violation("%s: no error for a value that can not be encoded", what)
					}
					if state != "pipe that is closed" {
						got, exists := content(target)
						if oldMode != 0 {
							if !exists || got != before {
								c.Violation("%s: value can not be encoded, but the file is changed", what)
							}
							if info, err := os.Stat(target); err != nil || info.Mode() != oldMode {
								c.Violation("%s: value can not be encoded, but mode of the file is changed", what)
							}
						} else if exists && state != "directory" && got != "" {
							c.Violation("%s: value can not be encoded, but a file is written", what)
						}
					}
					c.Count("encoding error, file was "+state, 1)
				}
				// nothing else may be left behind
				ents, _ := os.ReadDir(dir)
				for _, e := range ents {
					if n := e.Name(); n != "file" && n != "target" {
						c.Violation("%s: leaves %s", what, n)
					}
				}
				c.Nontrivial(fmt.Sprint(what, reflect.ValueOf(want).Len(), c.Index))
				c.Sample(state, fmt.Sprintf("%s -> %v", what, err))
			})
			// several files of one directory at the same time
			r.Parallel("together", r.N(400, 6000), func(c *rt.Case) {
				dir := scratch(c)
				defer os.RemoveAll(dir)
				n := 2 + c.Rng.Intn(10)
				values, wants := make([]any, n), make([]string, n)
				for i := range values {
					for {
						values[i] = fileValue(c.Rng, c.Rng.Intn(5) != 0)
						want, err := encodeRef(values[i])
						if err != nil && strings.HasPrefix(err.Error(), "panic") {
							continue
						}
						if wants[i] = string(want); err != nil {
							wants[i] = "error"
						}
						break
					}
				}
				name := func(i int) string { return filepath.Join(dir, fmt.Sprintf("file%d", i)) }
				problems := make([]string, n)
				var wg sync.WaitGroup
				for i := range values {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						for k := 0; k < 5; k++ {
							err := a.MarshalToFile(values[i], name(i), 0600)
							got, _ := content(name(i))
							if (err != nil) != (wants[i] == "error") || err == nil && got != wants[i] {
								problems[i] = fmt.Sprintf("%T gives %v and a file of %d bytes instead of %d", values[i], err, len(got), len(wants[i]))
							}
						}
					}(i)
				}
				wg.Wait()
				c.Eval(5 * n)
				for _, p := range problems {
					if p != "" {
						c.Violation("%d files are written at the same time: %s", n, p)
					}
				}
				ents, _ := os.ReadDir(dir)
				for _, e := range ents {
					if !strings.HasPrefix(e.Name(), "file") {
						c.Violation("leaves %s", e.Name())
					}
				}
				c.Count("files written at the same time", 5*n)
				c.Nontrivial(fmt.Sprint("together", c.Index))
			})
			r.Parallel("limits", r.N(8, 100), func(c *rt.Case) {
				self, _ := os.Executable()
				cmd := exec.Command(self, "limit", fmt.Sprint(r.Seed, c.Index), "-")
				cmd.Stderr = os.Stderr
				data, err := cmd.Output()
				var rep limitReport
				if err != nil || json.Unmarshal(data, &rep) != nil || rep.Limits == 0 {
					c.Broken("process: %v %s", err, data)
				}
				c.Eval(rep.Limits)
				if len(rep.Problems) > 0 {
					c.Violation("%s", strings.Join(rep.Problems, "\n"))
				}
				c.Count("limits of file size", rep.Limits)
				c.Nontrivial(fmt.Sprint("limit", c.Index))
			})
		}})
}
