package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	a "github.com/chemikadze/asn1go"

	"verif/rt"
	"verif/wire"
)

// Generated packages are compiled into one program for a batch of modules, the program is run, and what it
// observed is reported back.

type program struct {
	dir  string
	main string
	pkgs map[string]string // sources by package name
}

// build the program, code that was type-checked before has to compile.
func (p *program) build(c *rt.Case) string {
	p.dir = scratch(c)
	files := map[string]string{"main.go": p.main}
	for name, src := range p.pkgs {
		files[name+"/generated.go"] = src
	}
	files["go.mod"] = fmt.Sprintf(`module batch

go 1.23

require (
	github.com/chemikadze/asn1go v0.0.0
	verif v0.0.0
)

replace github.com/chemikadze/asn1go => %s

replace verif => %s
`, c.R.RepoDir, filepath.Join(c.R.VerifDir, "harness"))
	sum, _ := os.ReadFile(filepath.Join(c.R.RepoDir, "go.sum"))
	files["go.sum"] = string(sum)
	for name, text := range files {
		path := filepath.Join(p.dir, name)
		os.MkdirAll(filepath.Dir(path), 0755)
		write(c, path, text)
	}
	args := []string{"build", "-mod=mod", "-trimpath", "-o", "driver"}
	if o := os.Getenv("VERIF_OVERLAY"); o != "" {
		args = append(args, "-overlay="+o)
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = p.dir
	cmd.Env = append(os.Environ(), "GOFLAGS=")
	out, err := cmd.CombinedOutput()
	if err != nil {
		if bytes.Contains(out, []byte("generated.go:")) || bytes.Contains(out, []byte("main.go:")) { // main.go names what they declare
			c.Violation("generated code does not compile: %s", out)
		}
		c.Broken("driver can not be built: %v\n%s", err, out)
	}
	return filepath.Join(p.dir, "driver")
}

// run builds and runs the program, and decodes what it prints.
func (p *program) run(c *rt.Case, v any) {
	path := p.build(c)
	defer os.RemoveAll(p.dir)
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, path)
	cmd.Dir = p.dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	var exit *exec.ExitError
	switch {
	case ctx.Err() != nil:
		c.Violation("program of generated packages does not end")
	case errors.As(err, &exit) && exit.ExitCode() > 0:
		text := e.String()
		if len(text) > 5000 {
			text = text[:5000]
		}
		c.Violation("program of generated packages fails: %v\n%s", err, text)
	case err != nil:
		c.Broken("program of generated packages: %v\n%s", err, e.String())
	}
	if err := json.Unmarshal(o.Bytes(), v); err != nil {
		c.Broken("report of the program: %v\n%s", err, o.String())
	}
}

func reprName(r a.IntegerRepr) string { return string(r) }

// wireBatch runs values of random modules.
func wireBatch(c *rt.Case, cfgs []wire.Config, values int) {
	problems, mods := wireRun(c, cfgs, values)
	if len(problems) > 0 {
		x := problems[0]
		c.Input("module", mods[x.Pkg])
		c.Violation("%s: value %s: %s\n%s", x.Type, x.Value, x.Text, mods[x.Pkg])
	}
}

func wireRun(c *rt.Case, cfgs []wire.Config, values int) ([]wire.Problem, []string) {
	var main strings.Builder
	var imports, list strings.Builder
	p := program{pkgs: map[string]string{}}
	var mods []string
	for i, cfg := range cfgs {
		g := wire.New(cfg)
		repr := reprs[i%2]
		src := pretty(g.Module)
		c.Input("module", src)
		m := mustParse(c, src)
		if d := genDiff(g.Module, m); d != "" {
			c.Violation("module is not parsed as written: %s\n%s", d, src)
		}
		name := fmt.Sprintf("p%d", i)
		code := mustGenerate(c, m, a.GenParams{Package: name, IntegerRepr: repr})
		pkg := compile(c, code)
		declared := map[string]bool{}
		for _, d := range pkg.Decls {
			if d.Kind == "type" {
				declared[d.Name] = true
			}
		}
		p.pkgs[name] = code
		mods = append(mods, src+"\n"+code)
		fmt.Fprintf(&imports, "\t%s \"batch/%s\"\n", name, name)
		fmt.Fprintf(&list, "\t\t{Cfg: wire.Config{Seed: %d, Choices: %v, Fixed: %d}, BigInt: %v, Values: %d, Types: map[string]reflect.Type{\n",
			cfg.Seed, cfg.Choices, cfg.Fixed, repr == a.IntegerReprBigInt, values)
		names := g.Structured()
		sort.Strings(names)
		for _, n := range names {
			if !declared[goName(n)] {
				c.Violation("type %s is not generated\n%s\n%s", n, src, code)
			}
			fmt.Fprintf(&list, "\t\t\t%q: reflect.TypeOf((*%s.%s)(nil)).Elem(),\n", n, name, goName(n))
		}
		list.WriteString("\t\t}},\n")
	}
	fmt.Fprintf(&main, "package main\n\nimport (\n\t\"reflect\"\n\n%s\n\t\"verif/wire\"\n)\n\nfunc main() {\n\twire.Main([]wire.Pkg{\n%s\t})\n}\n", imports.String(), list.String())
	p.main = main.String()
	var rep wire.Report
	p.run(c, &rep)
	if !rep.Done {
		c.Broken("no report of the program")
	}
	c.Eval(rep.Values)
	for k, n := range rep.Counts {
		c.Count(k, n)
	}
	c.Count("packages compiled", len(cfgs))
	for _, s := range rep.Samples {
		c.Sample("value", s)
	}
	for i, m := range mods {
		c.Nontrivial(fmt.Sprint(i%2, m))
	}
	return rep.Problems, mods
}

// wireConfigs for a batch.
func wireConfigs(c *rt.Case, n int, choices bool) []wire.Config {
	var out []wire.Config
	for i := 0; i < n; i++ {
		out = append(out, wire.Config{Seed: c.Rng.Int63(), Choices: choices})
	}
	return out
}
