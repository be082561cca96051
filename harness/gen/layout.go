package gen

import (
	"math/rand"
	"strings"
)

// Layout joins lexical items to text.
type Layout struct {
	R *rand.Rand
	// Style: 0 single spaces, 1 minimal separation, 2 random white space, 3 random white space and comments, 4 one item per line.
	Style int
	// EOL is used for line ends if not empty.
	EOL string
	// Apart, if not zero, is one more than the index of an item which is kept apart from items around it.
	Apart int
	lines int
	b     strings.Builder
	// Line of every item (1-based), LF, VT, FF, CR and CRLF each end one line.
	Lines []int
	// Starts are the byte offsets of items, Ends are the offsets after them.
	Starts, Ends []int
}

func isWordByte(c byte) bool {
	return c == '-' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80 // only words have letters outside of ASCII
}

// endsWord says if a hyphen after an item would belong to it, which it does not after a number.
func endsWord(x Tok) bool {
	return isWordByte(x[len(x)-1]) && !isDigits(string(x))
}

// NeedSep says if two items run together when written without anything between.
func NeedSep(x, y Tok) bool {
	l, f := x[len(x)-1], y[0]
	lw, fw := isWordByte(l) && x != "-", isWordByte(f) && y != "-"
	if lw && fw {
		return true
	}
	if lw && y == "-" { // hyphen would continue the word
		return true
	}
	if x == "-" && y == "-" {
		return true
	}
	merge := ".:[]=<>-/*"
	if strings.IndexByte(merge, l) >= 0 && strings.IndexByte(merge, f) >= 0 {
		return true
	}
	if isDigits(string(x)) && f == '.' || l == '.' && fw { // 1..2 is fine for the lexer, but keep it out
		return false
	}
	return false
}

func isDigits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}

func (l *Layout) eol() string {
	if l.EOL != "" {
		return l.EOL
	}
	return []string{"\n", "\n", "\n", "\r\n", "\r", "\v", "\f"}[l.R.Intn(7)]
}

func (l *Layout) blank() string {
	var b strings.Builder
	for n := 1 + l.R.Intn(3); n > 0; n-- {
		switch l.R.Intn(5) {
		case 0:
			b.WriteString(l.eol())
		case 1:
			b.WriteString("\t")
		default:
			b.WriteString(" ")
		}
	}
	if l.R.Intn(60) == 0 { // runs that cross buffer boundaries
		b.WriteString(strings.Repeat(" ", l.R.Intn(5000)))
	}
	return b.String()
}

var hostile = []string{"END", "::=", "BEGIN", "{", "}", "[[", "\"", "'", "INTEGER", "a", "B", "5", "é", "世界", "\xff", "\x00", "@", "=", ",", "...", "$", "x-y", "T ::= NULL", "1.5E3", ";", "\\", "`"}

func (l *Layout) commentText(block bool) string {
	var b strings.Builder
	for n := l.R.Intn(6); n > 0; n-- {
		b.WriteString(hostile[l.R.Intn(len(hostile))])
		switch l.R.Intn(4) {
		case 0:
			b.WriteByte(' ')
		case 1:
			if block && l.R.Intn(3) == 0 {
				b.WriteString(l.eol())
			}
		case 2:
			if block {
				b.WriteString([]string{"--", "- ", "* ", "/ ", "** ", "//"}[l.R.Intn(6)])
			} else {
				b.WriteString([]string{"- ", "/*", "*/", "/", "*"}[l.R.Intn(5)])
			}
			b.WriteByte(' ')
		}
	}
	if l.R.Intn(80) == 0 {
		b.WriteString(strings.Repeat("x ", l.R.Intn(4000)))
	}
	return b.String()
}

// Comment makes a comment that ends by itself.
func (l *Layout) Comment() string {
	if l.R.Intn(1500) == 0 { // nested deeply
		n := 5 + l.R.Intn(600)
		in := []string{"", " ", "x", l.eol(), "--"}[l.R.Intn(5)]
		return strings.Repeat("/*"+in, n) + " " + strings.Repeat("*/"+in, n-1) + "*/"
	}
	switch l.R.Intn(7) {
	case 5:
		return l.denseBlock()
	case 6:
		return l.denseLine()
	case 0:
		return "--" + strings.TrimRight(l.commentText(false), "-") + " --"
	case 1:
		return "----"
	case 2:
		s := l.commentText(false)
		if l.R.Intn(3) == 0 {
			s = "-" + s // third hyphen does not close the comment
			if strings.HasPrefix(s, "--") {
				s = "- " + s[1:]
			}
		}
		return "--" + s + l.eol()
	case 3:
		return "/*" + l.commentText(true) + " /* " + l.commentText(true) + " */ " + l.commentText(true) + []string{"*/", " */", "**/", " **/"}[l.R.Intn(4)]
	default:
		return []string{"/*", "/**", "/*/ "}[l.R.Intn(3)] + l.commentText(true) + []string{"*/", " */", "**/", " ***/"}[l.R.Intn(4)]
	}
}

// denseBlock is a block comment full of what opens and closes comments.
func (l *Layout) denseBlock() string {
	b := []byte("/*")
	depth := 1
	var last byte // of characters that are not yet part of an opening or closing pair
	for n := l.R.Intn(24); n > 0 && depth > 0; n-- {
		ch := "//**//**- x"[l.R.Intn(11)]
		b = append(b, ch)
		switch {
		case last == '*' && ch == '/':
			depth--
			last = 0
		case last == '/' && ch == '*':
			depth++
			last = 0
		default:
			last = ch
		}
	}
	for ; depth > 0; depth-- {
		if last == '/' { // would open another one
			b = append(b, ' ')
		}
		b = append(b, "*/"...)
		last = 0
	}
	return string(b)
}

// denseLine is a line comment of hyphens and what opens block comments.
func (l *Layout) denseLine() string {
	b := []byte("--")
	hyphen := false
	for n := l.R.Intn(12); n > 0; n-- {
		ch := "---/*x "[l.R.Intn(7)]
		b = append(b, ch)
		if ch == '-' && hyphen {
			return string(b)
		}
		hyphen = ch == '-'
	}
	if l.R.Intn(3) == 0 && !hyphen {
		return string(b) + "--"
	}
	return string(b) + l.eol()
}

// Sep makes a separation between items; word says if the previous item is a word.
func (l *Layout) Sep(must, word bool) string {
	switch l.Style {
	case 0:
		return " "
	case 1:
		if must {
			return " "
		}
		return ""
	case 2:
		if must || l.R.Intn(2) == 0 {
			return l.blank()
		}
		return ""
	case 4:
		return l.eol()
	}
	if l.R.Intn(3) == 0 {
		if must {
			return l.blank()
		}
		return ""
	}
	var b strings.Builder
	for n := l.R.Intn(3); n >= 0; n-- {
		switch l.R.Intn(3) {
		case 0:
			b.WriteString(l.blank())
		default:
			s := l.Comment()
			prev := b.String()
			if (b.Len() == 0 && word && strings.HasPrefix(s, "-")) || strings.HasSuffix(prev, "-") && strings.HasPrefix(s, "-") ||
				strings.HasSuffix(prev, "/") && (s[0] == '*' || s[0] == '/') {
				b.WriteByte(' ')
			}
			b.WriteString(s)
		}
	}
	return b.String()
}

// Join makes the text.
func (l *Layout) Join(toks []Tok) string {
	l.b.Reset()
	l.lines = 1
	l.Lines, l.Starts, l.Ends = nil, nil, nil
	cr := false
	put := func(s string) {
		for i := 0; i < len(s); i++ {
			c := s[i]
			switch {
			case c == '\n' && cr:
			case c >= 10 && c <= 13:
				l.lines++
			}
			cr = c == '\r'
		}
		l.b.WriteString(s)
	}
	if l.Style >= 2 {
		put(l.Sep(false, false))
	}
	for i, t := range toks {
		if i > 0 {
			prev := toks[i-1]
			must := NeedSep(prev, t)
			sep := l.Sep(must, endsWord(prev))
			// comments can run together with symbols around them
			if strings.HasPrefix(sep, "-") && prev == "-" || (prev == "/" || prev == "*") && sep != "" {
				sep = " " + sep
			}
			if strings.HasSuffix(sep, "-") && t[0] == '-' || strings.HasSuffix(sep, "/") && (t[0] == '*' || t[0] == '/') {
				sep += " "
			}
			if l.Apart > 0 && (i == l.Apart-1 || i == l.Apart) {
				sep = " " + sep + " "
			}
			put(sep)
		}
		l.Lines = append(l.Lines, l.lines)
		l.Starts = append(l.Starts, l.b.Len())
		put(string(t))
		l.Ends = append(l.Ends, l.b.Len())
	}
	if l.Style >= 2 {
		last := toks[len(toks)-1]
		put(l.Sep(false, endsWord(last)))
	}
	return l.b.String()
}
