package main

// Go transliteration of spec/Escape.tla, for volume; runs are cross-checked by TLC on the same calls.

func u8len(b string, i int) int {
	at := func(k int) int {
		if i+k < len(b) {
			return int(b[i+k])
		}
		return -1
	}
	cont := func(c int) bool { return c >= 128 && c <= 191 }
	in := func(c, lo, hi int) bool { return c >= lo && c <= hi }
	c, d := at(0), at(1)
	switch {
	case c < 128:
		return 1
	case in(c, 194, 223) && cont(d):
		return 2
	case in(c, 224, 239) && cont(at(2)) && (c == 224 && in(d, 160, 191) || c == 237 && in(d, 128, 159) || c != 224 && c != 237 && cont(d)):
		return 3
	case in(c, 240, 244) && cont(at(2)) && cont(at(3)) && (c == 240 && in(d, 144, 191) || c == 244 && in(d, 128, 143) || c != 240 && c != 244 && cont(d)):
		return 4
	}
	return 0
}

func sanitize(b string) string {
	out := make([]byte, 0, len(b))
	for i := 0; i < len(b); {
		n := u8len(b, i)
		if n == 0 {
			out = append(out, 239, 191, 189)
			i++
			continue
		}
		out = append(out, b[i:i+n]...)
		i += n
	}
	return string(out)
}

func u8enc(out []byte, r int) []byte {
	switch {
	case r < 128:
		return append(out, byte(r))
	case r < 2048:
		return append(out, byte(192+r/64), byte(128+r%64))
	case r < 65536:
		return append(out, byte(224+r/4096), byte(128+r/64%64), byte(128+r%64))
	}
	return append(out, byte(240+r/262144), byte(128+r/4096%64), byte(128+r/64%64), byte(128+r%64))
}

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c) - 48
	case c >= 'A' && c <= 'F':
		return int(c) - 55
	case c >= 'a' && c <= 'f':
		return int(c) - 87
	}
	return -1
}

func hex4(s string, i int) int {
	if i+4 > len(s) {
		return -1
	}
	r := 0
	for k := i; k < i+4; k++ {
		v := hexVal(s[k])
		if v < 0 {
			return -1
		}
		r = r*16 + v
	}
	return r
}

var escOf = map[byte]byte{34: 34, 47: 47, 92: 92, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9}

// unescSpec gives what an escaped text denotes, and whether that is defined.
func unescSpec(s string) (string, bool) {
	out := make([]byte, 0, len(s))
	for i := 0; i < len(s); {
		if s[i] != '\\' {
			out = append(out, s[i])
			i++
			continue
		}
		if i+1 == len(s) {
			out = append(out, '\\')
			break
		}
		e := s[i+1]
		if c, ok := escOf[e]; ok {
			out = append(out, c)
			i += 2
			continue
		}
		if e != 'u' || i+6 > len(s) {
			out = append(out, '\\', e)
			i += 2
			continue
		}
		r := hex4(s, i+2)
		if r < 0 {
			return "", false
		}
		if r >= 0xd800 && r < 0xdc00 && i+8 <= len(s) && s[i+6] == '\\' && s[i+7] == 'u' {
			if l := hex4(s, i+8); l >= 0xdc00 && l < 0xe000 {
				out = u8enc(out, 65536+1024*(r-0xd800)+l-0xdc00)
				i += 12
				continue
			}
		}
		if r >= 0xd800 && r < 0xe000 {
			out = append(out, 239, 191, 189)
		} else {
			out = u8enc(out, r)
		}
		i += 6
	}
	return string(out), true
}

// bodySpec reports whether s may stand between JSON quotes.
func bodySpec(s string, html bool) bool {
	for i := 0; i < len(s); {
		c := s[i]
		if c == '\\' {
			if i+1 == len(s) {
				return false
			}
			if _, ok := escOf[s[i+1]]; ok {
				i += 2
				continue
			}
			if s[i+1] != 'u' || hex4(s, i+2) < 0 {
				return false
			}
			i += 6
			continue
		}
		n := u8len(s, i)
		if n == 0 || c < 32 || c == '"' || html && (c == '<' || c == '>' || c == '&') {
			return false
		}
		if n == 3 && c == 226 && s[i+1] == 128 && (s[i+2] == 168 || s[i+2] == 169) {
			return false
		}
		i += n
	}
	return true
}
