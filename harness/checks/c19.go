package checks

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

// run is one observed run of a command.
type run struct {
	code           int
	stdout, stderr string
}

// chunkReader delivers input in pieces with pauses, as a slow program would.
type chunkReader struct {
	s string
	n int
	d time.Duration
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.s) == 0 {
		return 0, io.EOF
	}
	if r.d > 0 {
		time.Sleep(r.d)
	}
	n := r.n
	if n <= 0 || n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.s)
	r.s = r.s[n:]
	return n, nil
}

// command runs a built command. A nil stdout is collected, otherwise it goes to the file.
func command(c *rt.Case, dir, bin string, args []string, stdin io.Reader, stdout *os.File) run {
	return commandPath(c, dir, filepath.Join(c.R.BinDir, bin), args, stdin, stdout)
}

func commandPath(c *rt.Case, dir, path string, args []string, stdin io.Reader, stdout *os.File) run {
	if _, err := os.Stat(path); err != nil {
		c.Broken("%v", err)
	}
	cmd := exec.Command(path, args...)
	cmd.Dir = dir
	cmd.Stdin = stdin
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir, "GOCOVERDIR=" + os.Getenv("GOCOVERDIR")}
	// none of these is part of the interface
	for _, name := range environment {
		if c.Rng.Intn(12) == 0 {
			value := environmentValues[c.Rng.Intn(len(environmentValues))]
			cmd.Env = append(cmd.Env, name+"="+value)
			c.Count("environment variables set", 1)
			c.Input("environment "+name, value)
		}
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var o, e bytes.Buffer
	cmd.Stdout = &o
	if stdout != nil {
		cmd.Stdout = stdout
	}
	cmd.Stderr = &e
	if err := cmd.Start(); err != nil {
		c.Broken("%v", err)
	}
	var mu sync.Mutex
	timedOut := false
	t := time.AfterFunc(120*time.Second, func() {
		mu.Lock()
		timedOut = true
		mu.Unlock()
		cmd.Process.Kill()
	})
	cmd.Wait()
	t.Stop()
	mu.Lock()
	defer mu.Unlock()
	if timedOut {
		c.Violation("%s %q does not end", path, args)
	}
	c.Eval(1)
	return run{cmd.ProcessState.ExitCode(), o.String(), e.String()}
}

// environment are variables that tools which generate code know, and some that every program might know.
var environment = []string{"GOPACKAGE", "GOFILE", "GOLINE", "GOARCH", "GOOS", "GOPATH", "GOFLAGS", "DOLLAR", "PACKAGE", "OUTPUT", "INPUT", "ASN1GO", "ASN1GO_PACKAGE", "ASN1GO_OPTIONS", "ASN1GO_FLAGS",
	"ASN1GO_DEFAULT_INTEGER_REPR", "ASN1GO_INTEGER_REPR", "ASN1GO_DEBUG", "INTEGER_REPR", "DEBUG", "VERBOSE", "TRACE", "QUIET", "LANG", "LC_ALL", "TZ", "COLUMNS", "TERM", "NO_COLOR", "USER", "PWD", "EDITOR", "SOURCE_DATE_EPOCH"}
var environmentValues = []string{"1", "0", "", "true", "other", "big.Int", "int64", "main", "C", "de_DE.ISO-8859-1", "/dev/null", "-package=x", "4"}

// limited runs a built command that can write at most kb*1024 bytes to any file.
func limited(c *rt.Case, dir string, kb int, bin string, args []string, stdin io.Reader, stdout *os.File) run {
	script := fmt.Sprintf("ulimit -f %d && exec \"$0\" \"$@\"", kb)
	return commandPath(c, dir, "/bin/bash", append([]string{"-c", script, filepath.Join(c.R.BinDir, bin)}, args...), stdin, stdout)
}

// resetInput is an input that gives text and fails then.
func resetInput(c *rt.Case, text string) *os.File {
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		c.Broken("%v", err)
	}
	here, there := os.NewFile(uintptr(fds[0]), "reset input"), os.NewFile(uintptr(fds[1]), "peer")
	syscall.SetsockoptInt(fds[1], syscall.SOL_SOCKET, syscall.SO_SNDBUF, 1<<20)
	if _, err := io.WriteString(there, text); err != nil {
		c.Broken("%v", err)
	}
	if _, err := io.WriteString(here, "unread"); err != nil { // closing with unread data resets the connection
		c.Broken("%v", err)
	}
	there.Close()
	return here
}

// fullDevice is /dev/full for writing, or nil if there is no such device here.
func fullDevice() *os.File {
	f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		return nil
	}
	var st syscall.Stat_t
	if err := syscall.Fstat(int(f.Fd()), &st); err != nil || st.Mode&syscall.S_IFMT != syscall.S_IFCHR || st.Rdev != 1<<8|7 {
		f.Close()
		return nil
	}
	return f
}

func scratch(c *rt.Case) string {
	d, err := os.MkdirTemp(c.R.Scratch, "case")
	if err != nil {
		c.Broken("%v", err)
	}
	return d
}

func write(c *rt.Case, path, text string) {
	if err := os.WriteFile(path, []byte(text), 0644); err != nil {
		c.Broken("%v", err)
	}
}

func content(path string) (string, bool) {
	data, err := os.ReadFile(path)
	return string(data), err == nil
}

// bystanders makes files next to others, that programs could take for their own. The result says what has happened to them.
func bystanders(c *rt.Case, dir string, names ...string) func() string {
	text := map[string]string{}
	for _, n := range names {
		for _, x := range []string{n + ".tmp", n + "~", n + ".bak", n + ".new", n + ".lock", n + ".old", "." + n, "." + n + ".tmp", "tmp", n + ".part", strings.TrimSuffix(n, filepath.Ext(n)) + ".tmp", "asn1go.log", "gen.go", "asn1go.tmp"} {
			if c.Rng.Intn(8) != 0 {
				continue
			}
			own := x == ""
			for _, n := range names {
				own = own || x == n
			}
			if _, err := os.Lstat(filepath.Join(dir, x)); own || err == nil {
				continue
			}
			text[x] = fmt.Sprintf("%s, not to be touched %d", x, c.Rng.Intn(1000))
			write(c, filepath.Join(dir, x), text[x])
			c.Count("other files in the directory", 1)
		}
	}
	return func() string {
		for x, want := range text {
			if got, ok := content(filepath.Join(dir, x)); !ok || got != want {
				return fmt.Sprintf("changes or removes %s, another file in the directory", x)
			}
			os.Remove(filepath.Join(dir, x))
		}
		ents, _ := os.ReadDir(dir)
	next:
		for _, e := range ents {
			for _, n := range names {
				if e.Name() == n {
					continue next
				}
			}
			if strings.HasPrefix(e.Name(), "extra") {
				continue
			}
			return "leaves " + e.Name()
		}
		return ""
	}
}

func init() {
	register(&rt.Check{ID: "C19", Unprivileged: true,
		Rule: "invocations of the built asn1go in a scratch directory, over forms of input and output, flags, modules and kinds of failure; exit status, both streams and files are compared with what the library gives; non-trivial if distinct by module and invocation",
		Run: func(r *rt.Runner) {
			r.Parallel("invocations", r.N(4000, 60000), func(c *rt.Case) {
				dir := scratch(c)
				defer os.RemoveAll(dir)
				var m *a.ModuleDefinition
				switch c.Rng.Intn(5) {
				case 0:
					g := gen.NewFull(c.Rng)
					g.Types = []string{"A", "B", "C"}
					m = g.Module()
				default:
					g := gen.NewCode(c.Rng)
					m = g.Module()
				}
				src := pretty(m)
				if c.Rng.Intn(10) == 0 && len(src) > 2 { // a parse error, most likely
					k := c.Rng.Intn(len(src) - 1)
					src = src[:k] + src[k+1:]
				}
				if c.Rng.Intn(12) == 0 { // longer than buffers on the way
					n := 1000 + c.Rng.Intn(8000)
					if c.Rng.Intn(8) == 0 {
						n = 50000 << c.Rng.Intn(5)
					}
					src = "--" + strings.Repeat(" padding %s %d ", n) + "\n" + src
				}
				c.Input("module", src)
				var args []string
				pkg, repr := "", ""
				flag := func(name, value string) {
					dash := []string{"-", "--"}[c.Rng.Intn(2)]
					if c.Rng.Intn(2) == 0 {
						args = append(args, dash+name+"="+value)
					} else {
						args = append(args, dash+name, value)
					}
				}
				if c.Rng.Intn(2) == 0 {
					pkg = packageName(c)
					flag("package", pkg)
				}
				switch c.Rng.Intn(8) {
				case 0, 1:
					repr = "int64"
				case 2, 3:
					repr = "big.Int"
				case 4:
					repr = []string{"int32", "bigint", "big.int", "int", "%s", "big.Int "}[c.Rng.Intn(6)]
				}
				if repr != "" {
					flag("default-integer-repr", repr)
				}
				// expectation
				wantOut, wantErr := "", ""
				if mod, err := parse(c, src); err != nil {
					wantErr = err.Error()
				} else if out, err := generate(c, mod, a.GenParams{Package: pkg, IntegerRepr: a.IntegerRepr(repr)}); err != nil {
					wantErr = err.Error()
				} else {
					wantOut = out
				}
				in := filepath.Join(dir, []string{"in.asn1", "in put %d.asn1", "in", "-", "~in", "@in.asn1", "http:in", "in.ASN1", "in.gz", "é"}[c.Rng.Intn(10)])
				out := filepath.Join(dir, []string{"out.go", "out %s.go", "out", "-out.txt", "$OUT", "out.asn1", "è"}[c.Rng.Intn(7)])
				if c.Rng.Intn(3) == 0 {
					in = filepath.Base(in)
					out = filepath.Base(out)
					if in != "-" && strings.HasPrefix(out, "-") && c.Rng.Intn(2) == 0 {
						out = "-" // a name like any other
					}
				}
				abs := func(p string) string {
					if filepath.IsAbs(p) {
						return p
					}
					return filepath.Join(dir, p)
				}
				form := c.Rng.Intn(3)
				var stdin io.Reader
				before, existed := "", false
				switch form {
				case 0:
					stdin = &chunkReader{s: src, n: c.Rng.Intn(3) * 4000}
				case 1:
					write(c, abs(in), src)
					args = append(args, in)
				case 2:
					write(c, abs(in), src)
					args = append(args, in, out)
					switch c.Rng.Intn(3) {
					case 0: // longer content than will be written
						before, existed = strings.Repeat("previous content // \n", 1+len(wantOut)/10), true
					case 1:
						before, existed = "x", true
					}
					if existed {
						write(c, abs(out), before)
					}
				}
				// failures on top of that
				failure := ""
				var stdout *os.File
				mustSay := ""
				switch c.Rng.Intn(16) {
				case 0:
					failure = "missing input"
					if form == 0 {
						args = append(args, in)
						form = 1
					}
					os.Remove(abs(in))
					mustSay = filepath.Base(in)
				case 1:
					failure = "input is a directory"
					if form == 0 {
						args = append(args, in)
						form = 1
					}
					os.Remove(abs(in))
					if err := os.Mkdir(abs(in), 0755); err != nil {
						c.Broken("%v", err)
					}
					mustSay = "directory"
				case 2:
					failure = "unknown flag"
					args = append([]string{"-no-such-flag"}, args...)
					mustSay = "no-such-flag"
				case 3:
					failure = "too many arguments"
					if form == 0 {
						write(c, abs(in), src)
						args = append(args, in)
					}
					for len(args) < 3 || form < 3 {
						args = append(args, filepath.Join(dir, fmt.Sprintf("extra%d", len(args))))
						form++
					}
					form = 3
				case 4:
					if form == 2 {
						failure = "output is a directory"
						os.RemoveAll(abs(out))
						if err := os.Mkdir(abs(out), 0755); err != nil {
							c.Broken("%v", err)
						}
						existed = false
						mustSay = filepath.Base(out)
					}
				case 5:
					if form == 2 {
						failure = "directory of output is missing"
						args[len(args)-1] = filepath.Join(dir, "missing", "out.go")
						mustSay = "missing"
					}
				case 6:
					if form < 2 {
						failure = "full device"
						if stdout = fullDevice(); stdout == nil {
							failure = ""
							break
						}
						defer stdout.Close()
					}
				case 7:
					if form == 2 && wantErr == "" {
						failure = "no value for a flag"
						args = append(args[:len(args)-2:len(args)-2], "-package")
						form = 0
						stdin = strings.NewReader(src)
					}
				}
				// files that are nobody's business
				others := bystanders(c, dir, filepath.Base(in), filepath.Base(out))
				got := command(c, dir, "asn1go", args, stdin, stdout)
				if d := others(); d != "" {
					c.Violation("asn1go %q: %s", args, d)
				}
				c.Input("invocation", fmt.Sprintf("asn1go %q (%s) exits with %d\n--- stdout\n%s\n--- stderr\n%s", args, failure, got.code, got.stdout, got.stderr))
				what := fmt.Sprintf("asn1go %q (%s)", args, failure)
				if failure == "" && wantErr == "" {
					if got.code != 0 {
						c.Violation("%s fails with status %d: %s", what, got.code, got.stderr)
					}
					if form == 2 {
						if got.stdout != "" {
							c.Violation("%s writes to standard output", what)
						}
						if after, ok := content(abs(out)); !ok || after != wantOut {
							c.Violation("%s writes\n%s\ninstead of\n%s", what, after, wantOut)
						}
						if existed {
							c.Count("files overwritten", 1)
						}
					} else if got.stdout != wantOut {
						c.Violation("%s prints\n%s\ninstead of\n%s", what, got.stdout, wantOut)
					}
					c.Count(fmt.Sprintf("successful with %d names", form), 1)
				} else {
					if got.code == 0 {
						c.Violation("%s exits with 0, expected failure: %s", what, wantErr)
					}
					if strings.TrimSpace(got.stderr) == "" {
						c.Violation("%s says nothing on standard error", what)
					}
					if got.stdout != "" {
						c.Violation("%s fails, but writes to standard output:\n%s", what, got.stdout)
					}
					if mustSay != "" && !strings.Contains(got.stderr, mustSay) {
						c.Violation("%s does not name %s on standard error: %s", what, mustSay, got.stderr)
					}
					if strings.Contains(got.stderr, "%!") {
						c.Violation("%s gives a badly formatted message: %s", what, got.stderr)
					}
					if failure == "" && !strings.Contains(addressRe.ReplaceAllString(got.stderr, "0x"), strings.TrimSpace(addressRe.ReplaceAllString(wantErr, "0x"))) {
						c.Violation("%s does not give the cause on standard error:\n%s\ninstead of\n%s", what, got.stderr, wantErr)
					}
					for _, p := range []string{abs(out), filepath.Join(dir, "extra1"), filepath.Join(dir, "extra2"), filepath.Join(dir, "extra3")} {
						if after, ok := content(p); ok && after != "" && after != before {
							c.Violation("%s fails, but leaves output in %s:\n%s", what, p, after)
						}
					}
					if failure == "" {
						failure = "error of the module"
					}
					c.Count("failure: "+failure, 1)
				}
				if form != 3 {
					if after, ok := content(abs(in)); ok && after != src {
						c.Violation("%s changes its input", what)
					}
				}
				c.Nontrivial(src + strings.Join(args, "\x00"))
				c.Sample(fmt.Sprint(form, failure), fmt.Sprintf("asn1go %q -> %d %s", args, got.code, got.stderr))
			})
			supported := func(c *rt.Case, types int) (src, out string) {
				for k := 0; k < 20; k++ {
					g := gen.NewCode(c.Rng)
					g.MaxTypes = types
					src := pretty(g.Module())
					m := mustParse(c, src)
					if out, err := generate(c, m, a.GenParams{}); err == nil {
						return src, out
					}
				}
				return "A DEFINITIONS ::= BEGIN X ::= INTEGER END", mustGenerate(c, mustParse(c, "A DEFINITIONS ::= BEGIN X ::= INTEGER END"), a.GenParams{})
			}
			r.Parallel("size limits", r.N(400, 6000), func(c *rt.Case) {
				dir := scratch(c)
				defer os.RemoveAll(dir)
				src, want := supported(c, 60)
				limit := 1
				if n := len(want) / 1024; n > 1 {
					limit = 1 + c.Rng.Intn(n+1)
				}
				in, out := filepath.Join(dir, "in.asn1"), filepath.Join(dir, "out.go")
				write(c, in, src)
				c.Input("module", src)
				var got run
				form := c.Rng.Intn(2)
				if form == 0 {
					got = limited(c, dir, limit, "asn1go", []string{in, out}, nil, nil)
				} else {
					f, err := os.Create(out)
					if err != nil {
						c.Broken("%v", err)
					}
					got = limited(c, dir, limit, "asn1go", []string{in}, nil, f)
					f.Close()
				}
				after, _ := content(out)
				what := fmt.Sprintf("asn1go with %d bytes of output and a limit of %d kB", len(want), limit)
				if len(want) <= limit*1024 {
					if got.code != 0 || after != want {
						c.Violation("%s exits with %d and writes %d bytes: %s", what, got.code, len(after), got.stderr)
					}
					c.Count("outputs within the limit", 1)
				} else {
					if got.code == 0 || strings.TrimSpace(got.stderr) == "" {
						c.Violation("%s exits with %d and says %q", what, got.code, got.stderr)
					}
					c.Count("outputs beyond the limit", 1)
				}
				c.Nontrivial(fmt.Sprint(form, limit, src))
			})
			r.Parallel("many problems", r.N(40, 520), func(c *rt.Case) {
				dir := scratch(c)
				defer os.RemoveAll(dir)
				n := []int{1, 2, 255, 256, 512, 768, 1024, 254, 257, 2048}[c.Index%10]
				if c.Index >= 10 {
					n = 1 + c.Rng.Intn(600)
				}
				bad := []string{"Missing%d", "SEQUENCE { a NULL, b%d BOOLEAN }", "SEQUENCE { COMPONENTS OF S%d }", "CHOICE { a Missing%d }"}
				src := "A DEFINITIONS ::= BEGIN\n"
				one := bad[c.Rng.Intn(len(bad))]
				for i := 0; i < n; i++ {
					if c.Index >= 20 {
						one = bad[c.Rng.Intn(len(bad))]
					}
					src += fmt.Sprintf("T%d ::= "+one+"\n", i, i)
				}
				src += "END\n"
				c.Input("module", src)
				in, out := filepath.Join(dir, "in.asn1"), filepath.Join(dir, "out.go")
				write(c, in, src)
				_, want := generate(c, mustParse(c, src), a.GenParams{})
				if want == nil {
					c.Broken("module with %d problems is generated", n)
				}
				got := command(c, dir, "asn1go", [][]string{{in}, {in, out}}[c.Rng.Intn(2)], nil, nil)
				if got.code == 0 || got.code < 0 {
					c.Violation("asn1go exits with %d for a module with %d problems", got.code, n)
				}
				if got.stdout != "" || !strings.Contains(addressRe.ReplaceAllString(got.stderr, "0x"), strings.TrimSpace(errText(want))) {
					c.Violation("asn1go writes %q and says %q for a module with %d problems", got.stdout, got.stderr, n)
				}
				if after, ok := content(out); ok && after != "" {
					c.Violation("asn1go fails, but writes %s", after)
				}
				c.Count("modules with many problems", 1)
				c.Nontrivial(src)
			})
			r.Parallel("inputs that break off", r.N(600, 8000), func(c *rt.Case) {
				dir := scratch(c)
				defer os.RemoveAll(dir)
				src, _ := supported(c, 10)
				if len(src) > 100000 {
					src = src[:100000]
				}
				k := c.Rng.Intn(len(src) + 1)
				switch c.Rng.Intn(3) {
				case 0:
					k = len(src) // complete, but nobody can know
				case 1:
					src = strings.TrimRight(src, "\n ")
					k = len(src)
				}
				complete := k == len(src)
				src = src[:k]
				c.Input("text before the failure", src)
				stdin := resetInput(c, src)
				defer stdin.Close()
				var args []string
				out := filepath.Join(dir, "out.go")
				got := command(c, dir, "asn1go", args, stdin, nil)
				if got.code == 0 {
					c.Violation("asn1go reports success, but its input failed after %d bytes", len(src))
				}
				if strings.TrimSpace(got.stderr) == "" || got.stdout != "" {
					c.Violation("asn1go fails as its input does, writes %q and says %q", got.stdout, got.stderr)
				}
				if complete && !strings.Contains(got.stderr, "reset") {
					c.Violation("asn1go does not say that its input failed: %s", got.stderr)
				}
				if after, ok := content(out); ok && after != "" {
					c.Violation("asn1go fails, but writes %s", after)
				}
				c.Count("inputs that failed", 1)
				c.Nontrivial(src)
			})
		}})
}
