package main

import (
	"math/rand"
	"strings"
)

// gen makes texts that are mostly JSON.
type gen struct {
	r   *rand.Rand
	b   strings.Builder
	ws  int // whitespace density
	max int // remaining nodes
}

func (g *gen) pick(s ...string) string { return s[g.r.Intn(len(s))] }

func (g *gen) space() {
	if g.ws == 0 {
		return
	}
	for g.r.Intn(10) < g.ws {
		g.b.WriteByte(" \t\n\r"[g.r.Intn(4)])
	}
}

// text generates a complete value with optional leading space and a tail.
func (g *gen) text() string {
	g.b.Reset()
	g.ws = []int{0, 0, 0, 1, 3, 6}[g.r.Intn(6)]
	switch g.r.Intn(40) {
	case 0:
		g.max = 2000
	case 1, 2, 3:
		g.max = 200
	default:
		g.max = 1 + g.r.Intn(30)
	}
	g.space()
	switch g.r.Intn(60) {
	case 0: // deep nesting
		g.nest(1 + g.r.Intn(400))
	case 1, 2: // wide
		g.wide(1 + g.r.Intn(120))
	default:
		g.value(0)
	}
	switch g.r.Intn(6) {
	case 0:
		g.b.WriteString(g.pick(" ", "\n", "x", "}", "]", ",", " 1", "{\"a\":1}", "\x00", "\"", "\\"))
	case 1:
		g.space()
	}
	return g.b.String()
}

func (g *gen) nest(n int) {
	kinds := make([]byte, n)
	for i := range kinds {
		if g.r.Intn(2) == 0 {
			kinds[i] = ']'
			g.b.WriteString("[")
		} else {
			kinds[i] = '}'
			g.b.WriteString("{")
			g.str()
			g.b.WriteString(":")
		}
		g.space()
	}
	g.scalar()
	for i := n - 1; i >= 0; i-- {
		if g.r.Intn(8) == 0 {
			if kinds[i] == ']' {
				g.b.WriteString(",0")
			} else {
				g.b.WriteString(",\"z\":[]")
			}
		}
		g.space()
		g.b.WriteByte(kinds[i])
	}
}

func (g *gen) wide(n int) {
	obj := g.r.Intn(2) == 0
	if obj {
		g.b.WriteByte('{')
	} else {
		g.b.WriteByte('[')
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.b.WriteByte(',')
		}
		g.space()
		if obj {
			g.str()
			g.b.WriteByte(':')
		}
		if g.r.Intn(5) == 0 {
			g.max = 4
			g.value(3)
		} else {
			g.scalar()
		}
		g.space()
	}
	if obj {
		g.b.WriteByte('}')
	} else {
		g.b.WriteByte(']')
	}
}

func (g *gen) value(depth int) {
	g.max--
	if depth > 12 || g.max <= 0 || g.r.Intn(5) < 2 && depth > 0 || depth == 0 && g.r.Intn(8) == 0 {
		g.scalar()
		return
	}
	n := g.r.Intn(5)
	if g.r.Intn(10) == 0 {
		n = g.r.Intn(20)
	}
	if g.r.Intn(2) == 0 {
		g.b.WriteByte('[')
		g.space()
		for i := 0; i < n; i++ {
			if i > 0 {
				g.b.WriteByte(',')
			}
			g.space()
			g.value(depth + 1)
			g.space()
		}
		g.b.WriteByte(']')
		return
	}
	g.b.WriteByte('{')
	g.space()
	for i := 0; i < n; i++ {
		if i > 0 {
			g.b.WriteByte(',')
			g.space()
		}
		g.str()
		g.space()
		g.b.WriteByte(':')
		g.space()
		g.value(depth + 1)
		g.space()
	}
	g.b.WriteByte('}')
}

func (g *gen) scalar() {
	switch g.r.Intn(9) {
	case 0:
		g.b.WriteString("true")
	case 1:
		g.b.WriteString("false")
	case 2:
		g.b.WriteString("null")
	case 3, 4, 5:
		g.num()
	default:
		g.str()
	}
}

func (g *gen) num() {
	switch g.r.Intn(12) {
	case 0:
		g.b.WriteString(g.pick("0", "-0", "-", "1.", "1e", "1e+5", "-1.5E-7", "00", "1.2.3", "9007199254740993", "18446744073709551615", "1e400", "1\"x", "5:", "3[", "2{", "1true", "-x\x00\xff", "0x1F", "7\\", "7/", "1\x0b", "1\x0c"))
	default:
		if g.r.Intn(4) == 0 {
			g.b.WriteByte('-')
		}
		for i := 1 + g.r.Intn(4)*g.r.Intn(6); i > 0; i-- {
			g.b.WriteByte("0123456789"[g.r.Intn(10)])
		}
		if g.r.Intn(3) == 0 {
			g.b.WriteByte('.')
			for i := 1 + g.r.Intn(8); i > 0; i-- {
				g.b.WriteByte("0123456789"[g.r.Intn(10)])
			}
		}
		if g.r.Intn(5) == 0 {
			g.b.WriteString(g.pick("e", "E", "e-", "e+", "E+"))
			g.b.WriteString(g.pick("0", "1", "22", "07", "309"))
		}
	}
}

var strParts = []string{"a", "b", "key", "", "\\\"", "\\\\", "\\n", "\\u0041", "\\ud83d\\ude00", "\\/", "é", "😀", "\u2028", " ", "{", "}", "[", "]", ",", ":", "\t", "\n", "\x00", "\xff", "\\", "true", "\\u", "<&>", "0", "\x7f", "\\\\\\\\", "\\\\\\\"", "\\\\\\", "longer text without anything special in it"}

func (g *gen) str() {
	g.b.WriteByte('"')
	n := g.r.Intn(4)
	if g.r.Intn(30) == 0 {
		n = g.r.Intn(30)
	}
	for i := 0; i < n; i++ {
		p := strParts[g.r.Intn(len(strParts))]
		if p == "\\" || p == "\\\\\\" {
			p += string("abn\"\\/u"[g.r.Intn(7)])
		}
		g.b.WriteString(p)
	}
	g.b.WriteByte('"')
}

const interesting = "\"\\,:[]{}0-9tfn ea.\n\x00\xff/ru"

// mutate changes a few bytes of a text.
func (g *gen) mutate(s string) string {
	b := []byte(s)
	for k := 1 + g.r.Intn(3); k > 0; k-- {
		c := interesting[g.r.Intn(len(interesting))]
		if g.r.Intn(6) == 0 {
			c = byte(g.r.Intn(256))
		}
		i := 0
		if len(b) > 0 {
			i = g.r.Intn(len(b))
		}
		switch g.r.Intn(5) {
		case 0: // replace
			if len(b) > 0 {
				b[i] = c
			}
		case 1: // insert
			b = append(b[:i], append([]byte{c}, b[i:]...)...)
		case 2: // delete
			if len(b) > 0 {
				b = append(b[:i], b[i+1:]...)
			}
		case 3: // duplicate a piece
			if len(b) > 0 && len(b) < 4000 {
				j := i + g.r.Intn(len(b)-i) + 1
				b = append(b[:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
			}
		case 4: // delete a piece
			if len(b) > 0 {
				j := i + g.r.Intn(len(b)-i) + 1
				if j-i > 8 {
					j = i + 1 + g.r.Intn(8)
				}
				b = append(b[:i], b[j:]...)
			}
		}
	}
	return string(b)
}
