package main

import (
	"encoding/json"
	"os"
)

// jsonTable is the control of spec/JsonText.tla as exported by TLC.
type jsonTable struct {
	modes []string
	index map[string]int
	cell  [][256]cell // per mode
	eof   [][3]string // per mode and top
	after [3]int      // per top
	want  []wanted    // per mode
	done  int
	init  int
}

// wanted is what an error in a mode says was expected.
type wanted struct {
	Set  []int
	Word []int
}

type cell struct {
	next int // mode, -1 err, -2 after
	act  byte
	tok  byte
	typ  string
}

const (
	actSkip = iota
	actMark
	actMarkq
	actOpen
	actClose
	actKey
	actStr
	actNum
	actLit
	actErrTok
	actErrLit
)

var topNames = [3]string{"-", "A", "O"}

func loadJSONTable(path string) (*jsonTable, error) {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var raw struct {
		Delta map[string][][3]string
		Eof   map[string]map[string]string
		After map[string]string
		Want  map[string]wanted
	}
	if err := json.Unmarshal(data, &raw); err != nil {
		return nil, err
	}
	t := &jsonTable{index: map[string]int{}}
	for m := range raw.Delta {
		t.index[m] = len(t.modes)
		t.modes = append(t.modes, m)
	}
	t.done = len(t.modes)
	t.index["done"] = t.done
	t.modes = append(t.modes, "done")
	t.init = t.index["val"]
	t.cell = make([][256]cell, len(t.modes))
	t.eof = make([][3]string, len(t.modes))
	t.want = make([]wanted, len(t.modes))
	for m, row := range raw.Delta {
		for b, x := range row {
			c := cell{typ: x[2]}
			switch x[0] {
			case "err":
				c.next = -1
			case "after":
				c.next = -2
			default:
				c.next = t.index[x[0]]
			}
			switch x[1] {
			case "skip":
				c.act = actSkip
			case "mark":
				c.act = actMark
			case "markq":
				c.act = actMarkq
			case "openA":
				c.act, c.tok = actOpen, '['
			case "openO":
				c.act, c.tok = actOpen, '{'
			case "close":
				c.act = actClose
			case "key":
				c.act, c.tok = actKey, 'K'
			case "strEnd":
				c.act, c.tok = actStr, 'S'
			case "numEnd":
				c.act, c.tok = actNum, 'N'
			case "tok":
				c.act = actErrTok
			case "lit":
				c.act = actErrLit
			default:
				c.act, c.tok = actLit, x[1][0]
			}
			t.cell[t.index[m]][b] = c
		}
		t.want[t.index[m]] = raw.Want[m]
		for i, top := range topNames {
			t.eof[t.index[m]][i] = raw.Eof[m][top]
		}
	}
	for i, top := range topNames {
		t.after[i] = t.index[raw.After[top]]
	}
	return t, nil
}

type token struct {
	kind     byte
	from, to int
}

// jstate is the state of the automaton of spec/JsonText.tla.
type jstate struct {
	mode   int // -1 err
	stack  []byte
	pos    int
	mark   int
	toks   []token
	errPos int
	errIn  int // mode the error occurred in
	errTyp string
}

func (t *jsonTable) reset(s *jstate) {
	*s = jstate{mode: t.init, stack: s.stack[:0], toks: s.toks[:0]}
}

func top(st []byte) int {
	if len(st) == 0 {
		return 0
	}
	if st[len(st)-1] == '[' {
		return 1
	}
	return 2
}

// step consumes one byte, mirroring Step of spec/JsonText.tla.
func (t *jsonTable) step(s *jstate, b byte) {
again:
	if s.mode == t.done || s.mode < 0 {
		return
	}
	d := &t.cell[s.mode][b]
	switch d.act {
	case actErrTok:
		s.mode, s.errIn, s.errPos, s.errTyp = -1, s.mode, s.pos, d.typ
		return
	case actErrLit:
		s.mode, s.errIn, s.errPos, s.errTyp = -1, s.mode, s.mark, d.typ
		return
	case actSkip:
	case actMark:
		s.mark = s.pos
	case actMarkq:
		s.mark = s.pos + 1
	case actOpen:
		s.stack = append(s.stack, d.tok)
		s.toks = append(s.toks, token{d.tok, s.pos, s.pos + 1})
	case actClose:
		k := byte(']')
		if s.stack[len(s.stack)-1] == '{' {
			k = '}'
		}
		s.stack = s.stack[:len(s.stack)-1]
		s.toks = append(s.toks, token{k, s.pos, s.pos + 1})
	case actKey, actStr:
		s.toks = append(s.toks, token{d.tok, s.mark, s.pos})
	case actNum:
		s.toks = append(s.toks, token{'N', s.mark, s.pos})
		s.mode = t.after[top(s.stack)]
		goto again
	case actLit:
		s.toks = append(s.toks, token{d.tok, s.mark, s.pos + 1})
	}
	s.pos++
	if d.next == -2 {
		s.mode = t.after[top(s.stack)]
	} else {
		s.mode = d.next
	}
}

// outcome is the result of parsing a text.
type outcome struct {
	kind string // ok eof err, or "panic" on the real side
	typ  string
	pos  int // bytes consumed, or offset of the error
}

// end mirrors Outcome of spec/JsonText.tla, completing a number at the end of the input.
func (t *jsonTable) end(s *jstate) outcome {
	switch {
	case s.mode < 0:
		return outcome{"err", s.errTyp, s.errPos}
	case s.mode == t.done:
		return outcome{"ok", "", s.pos}
	}
	typ := t.eof[s.mode][top(s.stack)]
	if typ == "" {
		s.toks = append(s.toks, token{'N', s.mark, s.pos})
		return outcome{"ok", "", s.pos}
	}
	return outcome{"eof", typ, 0}
}

func (t *jsonTable) run(s *jstate, text string) outcome {
	t.reset(s)
	for i := 0; i < len(text); i++ {
		t.step(s, text[i])
		if s.mode < 0 || s.mode == t.done {
			break
		}
	}
	return t.end(s)
}

// compact mirrors Compact of spec/JsonText.tla; offs[i] is the output offset of token i.
func compact(dst []byte, text string, toks []token, offs []int) ([]byte, []int) {
	prev := byte(0)
	for _, k := range toks {
		switch prev {
		case 0, '[', '{', 'K':
		default:
			if k.kind != ']' && k.kind != '}' {
				dst = append(dst, ',')
			}
		}
		offs = append(offs, len(dst))
		switch k.kind {
		case 'S':
			dst = append(dst, '"')
			dst = append(dst, text[k.from:k.to]...)
			dst = append(dst, '"')
		case 'K':
			dst = append(dst, '"')
			dst = append(dst, text[k.from:k.to]...)
			dst = append(dst, '"', ':')
		default:
			dst = append(dst, text[k.from:k.to]...)
		}
		prev = k.kind
	}
	offs = append(offs, len(dst))
	return dst, offs
}
