package gen

import (
	"math/rand"
	"strings"
)

// AllTokens are all keywords, symbols and some words and numbers.
var AllTokens = func() []Tok {
	var out []Tok
	for _, w := range Reserved {
		out = append(out, Tok(w))
	}
	for _, s := range strings.Fields(`::= ... .. [[ ]] { } < > , . ( ) [ ] - : = " ' ; @ | ! ^ A B-c x y-z e E 0 1 42 9223372036854775807 1.5 2.5E3 --c-- /*c*/`) {
		out = append(out, Tok(s))
	}
	return out
}()

// MutateToks changes lexical items once.
func MutateToks(r *rand.Rand, toks []Tok) []Tok {
	out := append([]Tok{}, toks...)
	if len(out) == 0 {
		return []Tok{AllTokens[r.Intn(len(AllTokens))]}
	}
	i := r.Intn(len(out))
	tok := AllTokens[r.Intn(len(AllTokens))]
	if r.Intn(3) == 0 {
		tok = out[r.Intn(len(out))]
	}
	switch r.Intn(7) {
	case 0: // delete
		return append(out[:i], out[i+1:]...)
	case 1: // double
		out = append(out[:i+1], out[i:]...)
		return out
	case 2: // replace
		out[i] = tok
	case 3: // insert
		out = append(out[:i], append([]Tok{tok}, out[i:]...)...)
	case 4: // swap with neighbour
		if i+1 < len(out) {
			out[i], out[i+1] = out[i+1], out[i]
		}
	case 5: // delete a run
		j := i + 1 + r.Intn(4)
		if j > len(out) {
			j = len(out)
		}
		return append(out[:i], out[j:]...)
	default: // copy a run to somewhere else
		j := i + 1 + r.Intn(6)
		if j > len(out) {
			j = len(out)
		}
		run := append([]Tok{}, out[i:j]...)
		k := r.Intn(len(out) + 1)
		out = append(out[:k], append(run, out[k:]...)...)
	}
	return out
}

var hotBytes = []string{"-", "--", "/*", "*/", "\n", "\r", " ", ".", "..", ":", "[", "]", "{", "}", "(", ")", ",", "e", "E", "9", "0", "A", "z", "é", "\x00", "\xff", "\xe4\xb8", "世", "_", "#", "$", "\"", "'", "=", "::=", "END", "...", "99999999999999999999"}

// MutateText changes bytes once.
func MutateText(r *rand.Rand, s string) string {
	if s == "" {
		return hotBytes[r.Intn(len(hotBytes))]
	}
	i := r.Intn(len(s))
	h := hotBytes[r.Intn(len(hotBytes))]
	switch r.Intn(8) {
	case 0:
		return s[:i] + s[i+1:]
	case 1, 2:
		return s[:i] + h + s[i:]
	case 3:
		return s[:i] + h + s[i+1:]
	case 4:
		return s[:i] // truncated
	case 5:
		return s + h
	case 6:
		j := i + r.Intn(len(s)-i)
		if j > i+200 {
			j = i + 200
		}
		return s[:i] + s[j:]
	default:
		b := []byte(s)
		b[i] ^= 1 << uint(r.Intn(8))
		return string(b)
	}
}

// Soup is a random sequence of items in random layout.
func Soup(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(string(AllTokens[r.Intn(len(AllTokens))]))
		switch r.Intn(6) {
		case 0:
		case 1:
			b.WriteString("\n")
		case 2:
			b.WriteString(hotBytes[r.Intn(len(hotBytes))])
		default:
			b.WriteString(" ")
		}
	}
	return b.String()
}

// Bytes are random bytes.
func Bytes(r *rand.Rand, n int) string {
	alpha := []string{"", "-/* \n", "ab-AB19.,:=[]{}() \n", "/*"}[r.Intn(4)]
	b := make([]byte, n)
	for i := range b {
		if alpha == "" {
			b[i] = byte(r.Intn(256))
		} else {
			b[i] = alpha[r.Intn(len(alpha))]
		}
	}
	return string(b)
}
