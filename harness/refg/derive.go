package refg

import (
	"fmt"
	"math/rand"
	"sort"

	"verif/gen"
)

// shape is what derivation needs to know of the implemented grammar.
type shape struct {
	g     *grammar
	names []string // of terminals
	depth []int    // of the lowest derivation of each rule
	real  int
}

var derivable = func() *shape {
	g := implemented
	s := &shape{g: g, names: make([]string, len(g.term)), depth: make([]int, len(g.rules)), real: g.nts["RealNumber"]}
	for n, i := range g.term {
		s.names[i] = n
	}
	low := make([]int, len(g.nts))
	for i := range low {
		low[i] = far
	}
	for i := range s.depth {
		s.depth[i] = far
	}
	for ch := true; ch; {
		ch = false
		for i, r := range g.rules {
			d := 0
			for _, x := range r.rhs {
				if x >= 0 && low[x] > d {
					d = low[x]
				}
			}
			if d++; d < s.depth[i] {
				s.depth[i] = d
				ch = true
			}
			if d < low[r.lhs] {
				low[r.lhs] = d
				ch = true
			}
		}
	}
	return s
}()

// Rules names all rules of the implemented grammar.
func Rules() []string {
	var out []string
	g := implemented
	nts := make([]string, len(g.nts))
	for n, i := range g.nts {
		nts[i] = n
	}
	for _, r := range g.rules {
		s := nts[r.lhs] + " ="
		for _, x := range r.rhs {
			if x < 0 {
				s += " " + derivable.names[^x]
			} else {
				s += " " + nts[x]
			}
		}
		out = append(out, s)
	}
	return out
}

// Derivation makes random modules of the implemented grammar.
type Derivation struct {
	R *rand.Rand
	// Prefer, if not negative, is a rule that is taken where it can be.
	Prefer int
	// Used are the rules that were applied.
	Used map[int]bool
	out  []gen.Tok
}

// Module makes the items of a module that is at most about depth rules deep.
func (d *Derivation) Module(depth int) []gen.Tok {
	d.out = nil
	d.Used = map[int]bool{}
	d.derive(0, depth, true)
	return d.out
}

// far is more than any distance in the grammar.
const far = 1 << 20

// distance is how many rules a rule is below a nonterminal.
var distance = func() [][]int {
	g := implemented
	out := make([][]int, len(g.nts))
	for i := range out {
		out[i] = make([]int, len(g.rules))
		for k := range out[i] {
			out[i][k] = far
		}
	}
	for ch := true; ch; {
		ch = false
		low := func(nt, rule, d int) {
			if d < out[nt][rule] {
				out[nt][rule] = d
				ch = true
			}
		}
		for i, r := range g.rules {
			low(r.lhs, i, 0)
			for _, x := range r.rhs {
				if x >= 0 {
					for k, d := range out[x] {
						low(r.lhs, k, d+1)
					}
				}
			}
		}
	}
	return out
}()

// derive writes a derivation of a nonterminal. The one on the way to the preferred rule, if there is one, is guided there.
func (d *Derivation) derive(nt, depth int, guided bool) {
	s := derivable
	if nt == s.real {
		d.out = append(d.out, gen.Tok(d.realNumber()))
		for _, i := range s.g.byLHS[nt] {
			d.Used[i] = true
		}
		return
	}
	rules := s.g.byLHS[nt]
	guided = guided && d.Prefer >= 0 && distance[nt][d.Prefer] < far
	pick := -1
	if guided && s.g.rules[d.Prefer].lhs == nt {
		pick, guided = d.Prefer, false
	} else {
		var fit []int
		for _, i := range rules {
			ok := s.depth[i] <= depth
			if guided {
				ok = false
				for _, x := range s.g.rules[i].rhs {
					ok = ok || x >= 0 && (distance[x][d.Prefer] < distance[nt][d.Prefer] || depth > 4 && distance[x][d.Prefer] < far && d.R.Intn(3) == 0)
				}
			}
			if ok {
				fit = append(fit, i)
			}
		}
		if len(fit) > 0 {
			pick = fit[d.R.Intn(len(fit))]
		} else {
			sorted := append([]int{}, rules...)
			sort.SliceStable(sorted, func(i, j int) bool { return s.depth[sorted[i]] < s.depth[sorted[j]] })
			pick = sorted[0]
		}
	}
	d.Used[pick] = true
	rhs := s.g.rules[pick].rhs
	var ways []int // to the preferred rule
	for i, x := range rhs {
		if !guided || x < 0 || distance[x][d.Prefer] == far {
			continue
		}
		if len(ways) > 0 && distance[x][d.Prefer] < distance[rhs[ways[0]]][d.Prefer] && d.R.Intn(4) != 0 {
			ways = nil
		}
		ways = append(ways, i)
	}
	way := -1
	if len(ways) > 0 {
		way = ways[d.R.Intn(len(ways))]
	}
	for i, x := range rhs {
		if x >= 0 {
			d.derive(x, depth-1, i == way)
			continue
		}
		switch n := s.names[^x]; n {
		case "Type":
			d.out = append(d.out, gen.Tok(gen.UpperName(d.R)))
		case "value":
			d.out = append(d.out, gen.Tok(gen.LowerName(d.R)))
		case "number":
			d.out = append(d.out, gen.Tok(d.number()))
		default:
			d.out = append(d.out, gen.Tok(n))
		}
	}
}

func (d *Derivation) number() string {
	switch d.R.Intn(8) {
	case 0:
		return fmt.Sprint(d.R.Int63())
	case 1:
		return "9223372036854775807"
	case 2:
		return fmt.Sprintf("%0*d", 1+d.R.Intn(12), d.R.Intn(300))
	}
	return fmt.Sprint(d.R.Intn(20))
}

func (d *Derivation) realNumber() string {
	s := d.number()
	k := d.R.Intn(3)
	if k != 0 {
		s += "." + d.number()
	}
	if k != 1 {
		s += []string{"e", "E"}[d.R.Intn(2)] + []string{"", "-"}[d.R.Intn(2)] + fmt.Sprint(d.R.Intn(400))
	}
	return s
}
