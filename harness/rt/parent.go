package rt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode"
	"unicode/utf8"
)

// Parent runs the worker, decides the verdict and writes the evidence. It returns the exit code.
func Parent(chk *Check, tier string, seed int64, bin, repo, verif, only string) int {
	start := time.Now()
	scratch, err := os.MkdirTemp("", "verif-"+chk.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(scratch)
	p := parent{chk, tier, seed, bin, repo, verif, scratch, filepath.Join(verif, "out", "replay")}
	res, tail, code := p.worker("w0", only)
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, tail)
	}
	var violations []Violation
	switch {
	case res != nil:
		violations = res.Violations
	default:
		violations = p.crashed("w0", tail, code, only)
		if violations == nil {
			fmt.Fprintf(os.Stderr, "worker of %s failed (%v):\n%s\n", chk.ID, code, tail)
			return 3
		}
		res = &Result{Counts: map[string]int64{}}
	}
	if races := raceReports(tail); len(races) > 0 {
		for _, rr := range races {
			violations = append(violations, Violation{Family: "race", Message: rr})
		}
		res.Counts["race reports"] = int64(len(races))
	}
	knownLines, ok := p.known(res.Known)
	if !ok {
		return 3
	}
	if only == "" {
		p.evidence(res, violations, time.Since(start).Seconds())
	}
	for _, l := range knownLines {
		fmt.Println(l)
	}
	if len(violations) > 0 {
		path := p.replay(violations)
		for i, v := range violations {
			if i == 5 {
				fmt.Printf("... and %d more\n", len(violations)-i)
				break
			}
			fmt.Printf("--- %s family=%s index=%d\n%s\n", chk.ID, v.Family, v.Index, printable(trim(v.Message, 3000)))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, path)
		return 1
	}
	if len(res.Broken) > 0 {
		fmt.Fprintf(os.Stderr, "check %s is broken: %s\n", chk.ID, strings.Join(res.Broken, "\n"))
		return 3
	}
	if only == "" && (res.Evals == 0 || res.Distinct < 2) {
		fmt.Fprintf(os.Stderr, "check %s observed nothing\n", chk.ID)
		return 3
	}
	fmt.Printf("OK property=%s evaluations=%d distinct_nontrivial=%d\n", chk.ID, res.Evals, res.Distinct)
	return 0
}

type parent struct {
	chk       *Check
	tier      string
	seed      int64
	bin       string
	repo      string
	verif     string
	scratch   string
	replayDir string
}

func (p *parent) worker(name, only string) (*Result, string, error) {
	dir := filepath.Join(p.scratch, name)
	os.MkdirAll(dir, 0755)
	self, _ := os.Executable()
	cmd := exec.Command(self, "worker", p.chk.ID, p.tier)
	cov := filepath.Join(p.scratch, "cov")
	os.MkdirAll(cov, 0755)
	cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.FormatInt(p.seed, 10), "VERIF_SCRATCH="+dir, "VERIF_BIN="+p.bin,
		"VERIF_REPO="+p.repo, "VERIF_DIR="+p.verif, "VERIF_ONLY="+only, "GOCOVERDIR="+cov, "GOTRACEBACK=single",
		"GORACE=halt_on_error=0 exitcode=0 history_size=3")
	errFile, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		return nil, err.Error(), err
	}
	cmd.Stdout = errFile
	cmd.Stderr = errFile
	cmd.Stdin = nil
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if p.chk.Unprivileged && os.Geteuid() == 0 {
		if cmd.SysProcAttr.Credential, err = p.unprivileged(dir, cov); err != nil {
			return nil, err.Error(), err
		}
	}
	code := cmd.Run()
	errFile.Close()
	tail, _ := os.ReadFile(errFile.Name())
	if len(tail) > 1<<20 {
		tail = tail[:1<<20]
	}
	data, rerr := os.ReadFile(filepath.Join(dir, "result.json"))
	if rerr != nil {
		return nil, string(tail), fmt.Errorf("no result: %v", code)
	}
	res := &Result{}
	if err := json.Unmarshal(data, res); err != nil || !res.Done {
		return nil, string(tail), fmt.Errorf("bad result: %v", err)
	}
	return res, string(tail), nil
}

// nobody is the user, and the group, who owns nothing.
const nobody = 65534

// unprivileged hands the directories over to a user without privileges, who can run what was built.
func (p *parent) unprivileged(dirs ...string) (*syscall.Credential, error) {
	for _, d := range []string{p.scratch, p.bin, filepath.Dir(p.bin)} {
		if err := os.Chmod(d, 0755); err != nil {
			return nil, err
		}
	}
	files, err := os.ReadDir(p.bin)
	if err != nil {
		return nil, err
	}
	for _, f := range files {
		if err := os.Chmod(filepath.Join(p.bin, f.Name()), 0755); err != nil {
			return nil, err
		}
	}
	for _, d := range dirs {
		if err := os.Chown(d, nobody, nobody); err != nil {
			return nil, err
		}
	}
	return &syscall.Credential{Uid: nobody, Gid: nobody}, nil
}

// crashed finds the cases that end the worker on their own.
func (p *parent) crashed(name, tail string, code error, only string) []Violation {
	var running []string
	files, _ := filepath.Glob(filepath.Join(p.scratch, name, "slot*"))
	sort.Strings(files)
	for _, f := range files {
		data, _ := os.ReadFile(f)
		if i := bytes.IndexByte(data, 0); i > 0 {
			running = append(running, string(data[:i]))
		}
	}
	var out []Violation
	if only == "" {
		for i, d := range running {
			k := strings.IndexByte(d, '\t')
			if k < 0 {
				continue
			}
			idx, _ := strconv.Atoi(d[k+1:])
			res, t, c := p.worker(fmt.Sprintf("r%d", i), d[:k]+":"+d[k+1:])
			if res == nil {
				out = append(out, Violation{d[:k], idx, fmt.Sprintf("process ended while running this case: %v\n%s", c, trim(t, 6000)), nil})
			} else if len(res.Violations) > 0 {
				out = append(out, res.Violations...)
			}
		}
		if out != nil {
			return out
		}
	}
	if m, err := os.ReadFile(filepath.Join(p.scratch, name, "memory")); err == nil {
		return []Violation{{"memory", 0, fmt.Sprintf("more than %d bytes of memory are in use while these cases run together:\n%s", int64(rssLimit), m), nil}}
	}
	if strings.Contains(tail, "github.com/chemikadze/asn1go") &&
		(strings.Contains(tail, "fatal error:") || strings.Contains(tail, "panic:") || strings.Contains(tail, "stack overflow")) {
		return []Violation{{"crash", 0, fmt.Sprintf("process ended (%v), running: %q\n%s", code, running, trim(tail, 6000)), nil}}
	}
	return nil
}

func raceReports(tail string) []string {
	var out []string
	for _, b := range strings.Split(tail, "==================") {
		if strings.Contains(b, "WARNING: DATA RACE") {
			// races within the harness itself would not be about the property
			if strings.Contains(b, "github.com/chemikadze/asn1go") {
				out = append(out, trim(b, 4000))
			}
		}
	}
	return out
}

func (p *parent) replay(vs []Violation) string {
	os.MkdirAll(p.replayDir, 0755)
	path := filepath.Join(p.replayDir, p.chk.ID+".json")
	v := vs[0]
	data, _ := json.MarshalIndent(map[string]any{
		"property": p.chk.ID, "tier": p.tier, "seed": p.seed,
		"replay_cmd": fmt.Sprintf("VERIF_SEED=%d VERIF_ONLY=%s:%d ./check.sh %s %s", p.seed, v.Family, v.Index, p.chk.ID, p.tier),
		"violations": vs,
	}, "", " ")
	os.WriteFile(path, data, 0644)
	return path
}

// known prints findings that were observed again, they have to be listed.
func (p *parent) known(ids []string) ([]string, bool) {
	if len(ids) == 0 {
		return nil, true
	}
	data, err := os.ReadFile(filepath.Join(p.verif, "known-findings.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return nil, false
	}
	var out []string
	for _, id := range ids {
		found := false
		for _, l := range strings.Split(string(data), "\n") {
			if strings.HasPrefix(l, "finding: ") && strings.Contains(l, "property="+p.chk.ID+" ") && strings.Contains(l, "id="+id+" ") {
				out = append(out, "KNOWN-FINDING: "+strings.TrimPrefix(l, "finding: "))
				found = true
				break
			}
		}
		if !found {
			fmt.Fprintf(os.Stderr, "finding %s is not listed\n", id)
			return nil, false
		}
	}
	return out, true
}

var pctRe = regexp.MustCompile(`asn1go\s+coverage: ([0-9.]+)%`)

func (p *parent) evidence(res *Result, vs []Violation, wall float64) {
	cov := map[string]any{
		"evaluations":         res.Evals,
		"distinct_nontrivial": res.Distinct,
		"rule":                p.chk.Rule,
		"samples":             res.Samples,
		"observed":            res.Counts,
	}
	out, err := exec.Command("go", "tool", "covdata", "percent", "-i", filepath.Join(p.scratch, "cov")).Output()
	if m := pctRe.FindSubmatch(out); err == nil && m != nil {
		f, _ := strconv.ParseFloat(string(m[1]), 64)
		cov["repo_statements_reached_percent"] = f
	}
	if res.Samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{
		"property": p.chk.ID, "tier": p.tier, "seed": p.seed, "level": "exploration",
		"coverage": cov, "assumptions": p.chk.Assumptions, "wall_s": wall, "violations": len(vs),
	}
	if p.chk.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(p.verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(p.verif, "evidence", p.chk.ID+".json"), data, 0644)
}

// printable replaces characters that have no place on a terminal or in a log.
func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '\n' || r == '\t' || r >= ' ' && r != 0x7f && unicode.IsPrint(r) && r != utf8.RuneError {
			return r
		}
		return '\ufffd'
	}, s)
}
