package main

import (
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// tree is the log form of a JSON text.
type tree = map[string]interface{}

// treeParser is a strict RFC 8259 parser. lenient is set when the text is only
// refused for something the njson parser is free to accept.
type treeParser struct {
	s       string
	i       int
	toks    bool // accept NaN, +Inf, -Inf
	w       bool // add compact texts
	lenient bool
}

// parseTree gives the tree of a whole text, nil if it is not JSON.
func parseTree(s string, toks, w bool) (tree, bool) {
	p := treeParser{s: s, toks: toks, w: w}
	t, _ := p.value()
	if t == nil {
		return nil, p.lenient
	}
	p.space()
	if p.i != len(s) {
		return nil, p.lenient
	}
	return t, false
}

func (p *treeParser) space() {
	for p.i < len(p.s) && strings.IndexByte(" \t\r\n", p.s[p.i]) >= 0 {
		p.i++
	}
}

func (p *treeParser) lit(s string) bool {
	if strings.HasPrefix(p.s[p.i:], s) {
		p.i += len(s)
		return true
	}
	return false
}

func (p *treeParser) node(k, w string) tree {
	t := tree{"k": k}
	if p.w {
		t["w"] = ints(w)
	}
	return t
}

func (p *treeParser) value() (tree, string) {
	p.space()
	if p.i >= len(p.s) {
		return nil, ""
	}
	switch c := p.s[p.i]; {
	case p.toks && (p.lit("NaN") || p.lit("+Inf") || p.lit("-Inf")):
		w := "NaN"
		if !strings.HasSuffix(p.s[:p.i], w) {
			w = p.s[p.i-4 : p.i]
		}
		t := p.node("tok", w)
		t["s"] = ints(w)
		return t, w
	case p.lit("null"):
		return p.node("null", "null"), "null"
	case p.lit("true"):
		t := p.node("bool", "true")
		t["b"] = true
		return t, "true"
	case p.lit("false"):
		t := p.node("bool", "false")
		t["b"] = false
		return t, "false"
	case c == '"':
		s, raw, ok := p.str()
		if !ok {
			return nil, ""
		}
		t := p.node("str", raw)
		t["s"] = ints(s)
		t["h"] = strings.ContainsAny(raw, "<>&")
		return t, raw
	case c == '-' || (c >= '0' && c <= '9'):
		return p.num()
	case c == '[':
		p.i++
		a, ws := []interface{}{}, []string{}
		for p.space(); ; {
			if len(a) == 0 && p.lit("]") {
				break
			}
			v, w := p.value()
			if v == nil {
				return nil, ""
			}
			a, ws = append(a, v), append(ws, w)
			p.space()
			if p.lit("]") {
				break
			}
			if !p.lit(",") {
				return nil, ""
			}
		}
		w := "[" + strings.Join(ws, ",") + "]"
		t := p.node("arr", w)
		t["a"] = a
		return t, w
	case c == '{':
		p.i++
		m, ws := []interface{}{}, []string{}
		for p.space(); ; {
			if len(m) == 0 && p.lit("}") {
				break
			}
			p.space()
			if p.i >= len(p.s) || p.s[p.i] != '"' {
				return nil, ""
			}
			key, raw, ok := p.str()
			if !ok {
				return nil, ""
			}
			p.space()
			if !p.lit(":") {
				return nil, ""
			}
			v, w := p.value()
			if v == nil {
				return nil, ""
			}
			m, ws = append(m, tree{"key": ints(key), "v": v}), append(ws, raw+":"+w)
			p.space()
			if p.lit("}") {
				break
			}
			if !p.lit(",") {
				return nil, ""
			}
		}
		w := "{" + strings.Join(ws, ",") + "}"
		t := p.node("obj", w)
		t["m"] = m
		return t, w
	}
	return nil, ""
}

func (p *treeParser) digits() int {
	n := p.i
	for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
		p.i++
	}
	return p.i - n
}

func (p *treeParser) num() (t tree, text string) {
	start := p.i
	// number texts are only looked at when they are converted: the parser
	// takes everything up to a delimiter
	end := start
	for end < len(p.s) && strings.IndexByte(" \t\r\n,]}", p.s[end]) < 0 {
		end++
	}
	defer func() {
		if t == nil || p.i != end {
			p.lenient = true
		}
	}()
	p.lit("-")
	if p.lit("0") {
	} else if p.digits() == 0 {
		return nil, ""
	}
	if p.lit(".") && p.digits() == 0 {
		return nil, ""
	}
	if p.lit("e") || p.lit("E") {
		if !p.lit("+") {
			p.lit("-")
		}
		if p.digits() == 0 {
			return nil, ""
		}
	}
	text = p.s[start:p.i]
	t = p.node("num", text)
	t["n"] = ints(text)
	for _, bits := range []int{64, 32} {
		f, _ := strconv.ParseFloat(text, bits)
		t["f"+strconv.Itoa(bits)] = ints(floatText(f, bits))
	}
	return t, text
}

func floatText(f float64, bits int) string {
	switch {
	case math.IsNaN(f):
		return "NaN"
	case math.IsInf(f, 1):
		return "+Inf"
	case math.IsInf(f, -1):
		return "-Inf"
	}
	return strconv.FormatFloat(f, 'g', -1, bits)
}

// str reads a string and gives its decoded and its raw text, quotes included.
func (p *treeParser) str() (string, string, bool) {
	start := p.i
	p.i++
	b := []byte{}
	for p.i < len(p.s) {
		c := p.s[p.i]
		switch {
		case c == '"':
			p.i++
			return string(b), p.s[start:p.i], true
		case c < 32:
			p.lenient = true
			return "", "", false
		case c != '\\':
			if c >= utf8.RuneSelf {
				if r, n := utf8.DecodeRuneInString(p.s[p.i:]); r == utf8.RuneError && n <= 1 {
					p.lenient = true
				}
			}
			b = append(b, c)
			p.i++
		default:
			if p.i+1 >= len(p.s) {
				return "", "", false
			}
			e := p.s[p.i+1]
			switch e {
			case '"', '\\', '/':
				b = append(b, e)
			case 'b':
				b = append(b, 8)
			case 'f':
				b = append(b, 12)
			case 'n':
				b = append(b, 10)
			case 'r':
				b = append(b, 13)
			case 't':
				b = append(b, 9)
			case 'u':
				r := hex4(p.s, p.i+2)
				if r < 0 {
					p.lenient = true
					return "", "", false
				}
				p.i += 4
				if r >= 0xD800 && r < 0xDC00 && strings.HasPrefix(p.s[p.i+2:], "\\u") {
					if lo := hex4(p.s, p.i+4); lo >= 0xDC00 && lo < 0xE000 {
						r = 0x10000 + (r-0xD800)<<10 + (lo - 0xDC00)
						p.i += 6
					}
				}
				if r >= 0xD800 && r < 0xE000 {
					r = 0xFFFD
				}
				b = utf8.AppendRune(b, rune(r))
			default:
				p.lenient = true
				return "", "", false
			}
			p.i += 2
		}
	}
	return "", "", false
}

// sorted orders the members of all objects by key, so that two encodings of a map compare equal.
func sorted(t tree) tree {
	switch t["k"] {
	case "arr":
		for _, x := range t["a"].([]interface{}) {
			sorted(x.(tree))
		}
	case "obj":
		m := t["m"].([]interface{})
		for _, x := range m {
			sorted(x.(tree)["v"].(tree))
		}
		sort.SliceStable(m, func(i, j int) bool {
			return fromInts(m[i].(tree)["key"].([]int)) < fromInts(m[j].(tree)["key"].([]int))
		})
		delete(t, "w")
	}
	return t
}
