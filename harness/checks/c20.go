package checks

import (
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"verif/rt"
)

func init() {
	dump := func(c *rt.Case, data []byte) ([]string, []int) {
		perLine := []int{16, 16, 16, 8, 32, 1 + c.Rng.Intn(64)}[c.Rng.Intn(6)]
		switch c.Rng.Intn(40) {
		case 0:
			perLine = 1 + c.Rng.Intn(30000)
		case 1:
			perLine = 1 << 20 // all in one line
		}
		ragged := c.Rng.Intn(3) == 0
		offset := []string{"%04x", "%08X", "%d:", "0x%x", "line%d", "%04x|"}[c.Rng.Intn(6)]
		gap := c.Rng.Intn(4)
		letters := c.Rng.Intn(3)
		var lines []string
		var columns []int
		wide := -2 // one gap wider than any buffer
		if c.Rng.Intn(30) == 0 && len(data) > 0 {
			wide = c.Rng.Intn(len(data))
		}
		space := func() string {
			if wide--; wide == -1 {
				return strings.Repeat(" ", 1000<<c.Rng.Intn(8))
			}
			switch gap {
			case 0:
				return " "
			case 1:
				return strings.Repeat(" ", 1+c.Rng.Intn(3))
			case 2:
				return "  "
			}
			return strings.Repeat(" ", 1+c.Rng.Intn(12))
		}
		for off := 0; off < len(data) || off == 0; {
			n := perLine
			if ragged {
				n = c.Rng.Intn(perLine + 1)
			}
			if off+n > len(data) {
				n = len(data) - off
			}
			var b strings.Builder
			fmt.Fprintf(&b, offset, off)
			for _, x := range data[off : off+n] {
				b.WriteString(space())
				h := hex.EncodeToString([]byte{x})
				switch letters {
				case 1:
					h = strings.ToUpper(h)
				case 2:
					if c.Rng.Intn(2) == 0 {
						h = strings.ToUpper(h)
					}
				}
				b.WriteString(h)
			}
			if c.Rng.Intn(8) == 0 {
				b.WriteString(strings.Repeat(" ", 1+c.Rng.Intn(3)))
			}
			lines = append(lines, b.String())
			columns = append(columns, n)
			if c.Rng.Intn(30) == 0 {
				lines = append(lines, "")
				columns = append(columns, 0)
			}
			off += n
			if len(data) == 0 {
				break
			}
		}
		return lines, columns
	}
	join := func(c *rt.Case, lines []string) string {
		s := strings.Join(lines, "\n")
		if c.Rng.Intn(3) != 0 {
			s += "\n"
		}
		return s
	}
	bytesFor := func(c *rt.Case) []byte {
		n := c.Rng.Intn(200)
		switch c.Rng.Intn(12) {
		case 0:
			n = c.Rng.Intn(3)
		case 1:
			n = 4090 + c.Rng.Intn(12)
		case 2:
			n = c.Rng.Intn(60000)
		case 3:
			if c.Index%16 == 0 {
				n = 65500 + c.Rng.Intn(300000)
			}
		}
		data := make([]byte, n)
		switch c.Rng.Intn(3) {
		case 0:
			for i := range data {
				data[i] = byte(i + c.Index)
			}
		default:
			c.Rng.Read(data)
		}
		return data
	}
	register(&rt.Check{ID: "C20", Unprivileged: true,
		Rule: "random dumps (sizes, columns per line, offset formats, case, spaces) given to the built ws2bin and compared byte for byte; dumps with one column that is no byte; outputs that cannot be written; non-trivial if distinct and not empty",
		Run: func(r *rt.Runner) {
			r.Parallel("dumps", r.N(5000, 60000), func(c *rt.Case) {
				data := bytesFor(c)
				lines, _ := dump(c, data)
				text := join(c, lines)
				c.Input("dump", text)
				got := command(c, c.R.Scratch, "ws2bin", nil, &chunkReader{s: text, n: c.Rng.Intn(3) * 5000}, nil)
				if got.code != 0 {
					c.Violation("ws2bin fails with status %d: %s", got.code, got.stderr)
				}
				if got.stdout != string(data) {
					i := 0
					for i < len(data) && i < len(got.stdout) && data[i] == got.stdout[i] {
						i++
					}
					c.Violation("ws2bin writes %d bytes instead of %d, the first difference is at %d", len(got.stdout), len(data), i)
				}
				c.Count("bytes", len(data))
				c.Count("lines", len(lines))
				if len(data) > 0 {
					c.Nontrivial(text)
				}
				if len(text) < 500 {
					c.Sample("dump", text)
				}
			})
			r.Parallel("every byte", 512, func(c *rt.Case) {
				x := byte(c.Index)
				f := "0000 %02x"
				if c.Index > 255 {
					f = "0000 %02X"
				}
				got := command(c, c.R.Scratch, "ws2bin", nil, strings.NewReader(fmt.Sprintf(f, x)), nil)
				c.Check(got.code == 0 && got.stdout == string([]byte{x}), "byte %02x is written as %x with status %d", x, got.stdout, got.code)
				c.Nontrivial(fmt.Sprintf(f, x))
			})
			bad := []string{"g0", "0g", "100", "1ff", "fff", "-1", "+1", "-0", "+ff", "0x1", "x", "0X0", "1_0", "_1", "zz", "é", "0.", "1e+2", "..", "|", "hello", "12345678901234567890", "ffffffffffffffffffff", "00:", ":", "--", "00,", "'", "\"", "%d", "\x00", "\xff", "0\x00", "O0", "l1", "٣٣", "１２"}
			r.Parallel("bad columns", r.N(3000, 40000), func(c *rt.Case) {
				data := bytesFor(c)
				lines, columns := dump(c, data)
				x := bad[c.Index%len(bad)]
				// a column put somewhere after the first one
				k := c.Rng.Intn(len(lines))
				if lines[k] == "" || columns[k] == 0 && c.Rng.Intn(4) != 0 {
					k = 0
				}
				i := strings.Index(lines[k], " ")
				if i < 0 {
					lines[k] += " " + x
				} else {
					cols := strings.Split(lines[k], " ")
					j := 1 + c.Rng.Intn(len(cols))
					cols = append(cols, "")
					copy(cols[j+1:], cols[j:])
					cols[j] = x
					lines[k] = strings.Join(cols, " ")
				}
				text := join(c, lines)
				c.Input("dump", text)
				got := command(c, c.R.Scratch, "ws2bin", nil, strings.NewReader(text), nil)
				if got.code == 0 {
					c.Violation("ws2bin accepts column %q", x)
				}
				c.Check(strings.TrimSpace(got.stderr) != "", "ws2bin fails without a message for column %q", x)
				c.Count(fmt.Sprintf("rejected %q", x), 1)
				c.Nontrivial(text)
			})
			r.Parallel("outputs", r.N(300, 4000), func(c *rt.Case) {
				data := append(bytesFor(c), 1)
				lines, _ := dump(c, data)
				text := join(c, lines)
				c.Input("dump", text)
				var out *os.File
				var err error
				kind := ""
				switch c.Index % 3 {
				case 0:
					kind = "full device"
					if out = fullDevice(); out != nil {
						break
					}
					fallthrough
				case 1:
					kind = "closed pipe"
					var in *os.File
					in, out, err = os.Pipe()
					if err == nil {
						in.Close()
						closedPipe(c, out)
					}
				case 2:
					kind = "file that is only readable"
					out, err = os.Open("/dev/null")
				}
				if err != nil {
					c.Broken("%v", err)
				}
				defer out.Close()
				got := command(c, c.R.Scratch, "ws2bin", nil, io.Reader(strings.NewReader(text)), out)
				if got.code == 0 {
					c.Violation("ws2bin reports success, but output is a %s", kind)
				}
				c.Count("output is a "+kind, 1)
				c.Nontrivial(kind + text)
			})
			r.Parallel("inputs", r.N(300, 4000), func(c *rt.Case) {
				data := append(bytesFor(c), 1)
				lines, _ := dump(c, data)
				text := join(c, lines)
				if len(text) > 100000 {
					text = text[:strings.LastIndex(text[:100000], "\n")+1]
				}
				c.Input("dump", text)
				var in *os.File
				var err error
				kind := ""
				switch c.Index % 4 {
				case 0:
					kind = "directory"
					in, err = os.Open(c.R.Scratch)
				case 1:
					kind = "device that is only writable"
					in, err = os.OpenFile("/dev/null", os.O_WRONLY, 0)
				default:
					kind = "connection that is reset"
					in = resetInput(c, text)
				}
				if err != nil {
					c.Broken("%v", err)
				}
				defer in.Close()
				got := command(c, c.R.Scratch, "ws2bin", nil, in, nil)
				if got.code == 0 {
					c.Violation("ws2bin reports success, but its input is a %s", kind)
				}
				c.Count("input is a "+kind, 1)
				c.Nontrivial(kind + text)
			})
			r.Parallel("size limits", r.N(200, 3000), func(c *rt.Case) {
				data := bytesFor(c)
				for c.Index%2 == 0 && len(data) < 3000 {
					data = append(data, bytesFor(c)...)
				}
				limit := 1 + c.Rng.Intn(len(data)/1024+1)
				lines, _ := dump(c, data)
				text := join(c, lines)
				c.Input("dump", text)
				f, err := os.CreateTemp(c.R.Scratch, "limited")
				if err != nil {
					c.Broken("%v", err)
				}
				defer os.Remove(f.Name())
				got := limited(c, c.R.Scratch, limit, "ws2bin", nil, strings.NewReader(text), f)
				f.Close()
				after, _ := content(f.Name())
				if len(data) <= limit*1024 {
					if got.code != 0 || after != string(data) {
						c.Violation("ws2bin writes %d of %d bytes within a limit of %d kB, status %d", len(after), len(data), limit, got.code)
					}
					c.Count("outputs within the limit", 1)
				} else {
					if got.code == 0 {
						c.Violation("ws2bin reports success, but wrote only %d of %d bytes", len(after), len(data))
					}
					c.Count("outputs beyond the limit", 1)
				}
				c.Nontrivial(text)
			})
		}})
}

// closedPipe waits until nobody can read the pipe any more: a process that
// is being started by another case holds a copy of the end for reading
// until it runs its program.
func closedPipe(c *rt.Case, out *os.File) {
	for n := 0; n < 10000; n++ {
		if _, err := out.Write([]byte{0}); err != nil {
			return
		}
		time.Sleep(time.Millisecond)
	}
	c.Broken("a pipe without readers can still be written")
}
