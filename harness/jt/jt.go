// Package jt is the oracle's own strict JSON reader (RFC 8259), kept apart from encoding/json
// so that harnesses can run it symbolically on output bytes.
package jt

import "unicode/utf8"

// Kinds of Node.
const (
	Null = iota
	Bool
	Number
	String
	Object
	Array
)

// Node is one JSON value. Objects keep their members in order, duplicates included.
type Node struct {
	Kind int
	Text string // decoded string, number literal, "true" or "false"
	Keys []string
	Kids []*Node
}

// Get gives the only member with that key, nil when there is none or more than one.
func (n *Node) Get(key string) *Node {
	var r *Node
	for i, k := range n.Keys {
		if k == key {
			if r != nil {
				return nil
			}
			r = n.Kids[i]
		}
	}
	return r
}

// ErrText says why a text is not JSON.
type parser struct {
	s     []byte
	i     int
	err   string
	loose bool // bytes that are no UTF-8 are replaced, as encoding/json does
}

// ParseLoose is Parse the way encoding/json reads: bytes that are no UTF-8 become U+FFFD.
func ParseLoose(s []byte) (*Node, string) { return parse(&parser{s: s, loose: true}) }

// Parse reads exactly one JSON value with optional white space around it.
func Parse(s []byte) (*Node, string) {
	return parse(&parser{s: s})
}

func parse(p *parser) (*Node, string) {
	p.ws()
	n := p.value(0)
	if p.err != "" {
		return nil, p.err
	}
	p.ws()
	if p.i != len(p.s) {
		return nil, "text after the JSON value"
	}
	return n, ""
}

func (p *parser) fail(s string) *Node {
	if p.err == "" {
		p.err = s
	}
	return nil
}

func (p *parser) ws() {
	for p.i < len(p.s) {
		b := p.s[p.i]
		if b == ' ' || b == '\n' || b == '\t' || b == '\r' {
			p.i++
		} else {
			return
		}
	}
}

func (p *parser) value(depth int) *Node {
	if depth > 30 {
		return p.fail("too deep")
	}
	if p.i >= len(p.s) {
		return p.fail("value missing")
	}
	b := p.s[p.i]
	switch {
	case b == '{':
		p.i++
		n := &Node{Kind: Object}
		p.ws()
		if p.i < len(p.s) && p.s[p.i] == '}' {
			p.i++
			return n
		}
		for {
			p.ws()
			if p.i >= len(p.s) || p.s[p.i] != '"' {
				return p.fail("object key missing")
			}
			k, ok := p.str()
			if !ok {
				return nil
			}
			p.ws()
			if p.i >= len(p.s) || p.s[p.i] != ':' {
				return p.fail("colon missing")
			}
			p.i++
			p.ws()
			v := p.value(depth + 1)
			if p.err != "" {
				return nil
			}
			n.Keys = append(n.Keys, k)
			n.Kids = append(n.Kids, v)
			p.ws()
			if p.i >= len(p.s) {
				return p.fail("object not closed")
			}
			c := p.s[p.i]
			p.i++
			if c == '}' {
				return n
			}
			if c != ',' {
				return p.fail("comma missing in object")
			}
		}
	case b == '[':
		p.i++
		n := &Node{Kind: Array}
		p.ws()
		if p.i < len(p.s) && p.s[p.i] == ']' {
			p.i++
			return n
		}
		for {
			p.ws()
			v := p.value(depth + 1)
			if p.err != "" {
				return nil
			}
			n.Kids = append(n.Kids, v)
			p.ws()
			if p.i >= len(p.s) {
				return p.fail("array not closed")
			}
			c := p.s[p.i]
			p.i++
			if c == ']' {
				return n
			}
			if c != ',' {
				return p.fail("comma missing in array")
			}
		}
	case b == '"':
		s, ok := p.str()
		if !ok {
			return nil
		}
		return &Node{Kind: String, Text: s}
	case b == 't':
		return p.lit("true", Bool)
	case b == 'f':
		return p.lit("false", Bool)
	case b == 'n':
		return p.lit("null", Null)
	case b == '-' || b >= '0' && b <= '9':
		return p.num()
	}
	return p.fail("not a JSON value")
}

func (p *parser) lit(w string, kind int) *Node {
	for k := 0; k < len(w); k++ {
		if p.i >= len(p.s) || p.s[p.i] != w[k] {
			return p.fail("not a JSON value")
		}
		p.i++
	}
	return &Node{Kind: kind, Text: w}
}

func (p *parser) digit() bool {
	return p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9'
}

func (p *parser) num() *Node {
	start := p.i
	if p.s[p.i] == '-' {
		p.i++
	}
	if !p.digit() {
		return p.fail("number without digits")
	}
	if p.s[p.i] == '0' {
		p.i++
	} else {
		for p.digit() {
			p.i++
		}
	}
	if p.i < len(p.s) && p.s[p.i] == '.' {
		p.i++
		if !p.digit() {
			return p.fail("number without fraction digits")
		}
		for p.digit() {
			p.i++
		}
	}
	if p.i < len(p.s) && (p.s[p.i] == 'e' || p.s[p.i] == 'E') {
		p.i++
		if p.i < len(p.s) && (p.s[p.i] == '+' || p.s[p.i] == '-') {
			p.i++
		}
		if !p.digit() {
			return p.fail("number without exponent digits")
		}
		for p.digit() {
			p.i++
		}
	}
	return &Node{Kind: Number, Text: string(p.s[start:p.i])}
}

func (p *parser) hex4() (rune, bool) {
	if p.i+4 > len(p.s) {
		return 0, false
	}
	var r rune
	for k := 0; k < 4; k++ {
		b := p.s[p.i+k]
		switch {
		case b >= '0' && b <= '9':
			r = r<<4 | rune(b-'0')
		case b >= 'a' && b <= 'f':
			r = r<<4 | rune(b-'a'+10)
		case b >= 'A' && b <= 'F':
			r = r<<4 | rune(b-'A'+10)
		default:
			return 0, false
		}
	}
	p.i += 4
	return r, true
}

func (p *parser) str() (string, bool) {
	p.i++ // opening quote
	out := make([]byte, 0, 16)
	for {
		if p.i >= len(p.s) {
			p.fail("string not closed")
			return "", false
		}
		b := p.s[p.i]
		switch {
		case b == '"':
			p.i++
			return string(out), true
		case b == '\\':
			p.i++
			if p.i >= len(p.s) {
				p.fail("escape cut off")
				return "", false
			}
			e := p.s[p.i]
			p.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r, ok := p.hex4()
				if !ok {
					p.fail("bad \\u escape")
					return "", false
				}
				if r >= 0xd800 && r < 0xdc00 && p.i+1 < len(p.s) && p.s[p.i] == '\\' && p.s[p.i+1] == 'u' {
					save := p.i
					p.i += 2
					r2, ok := p.hex4()
					if ok && r2 >= 0xdc00 && r2 < 0xe000 {
						r = (r-0xd800)<<10 | (r2 - 0xdc00) + 0x10000
					} else {
						p.i = save
					}
				}
				out = utf8.AppendRune(out, r)
			default:
				p.fail("unknown escape in string")
				return "", false
			}
		case b < 0x20:
			p.fail("control character in string")
			return "", false
		case b < 0x80:
			out = append(out, b)
			p.i++
		default:
			n := RuneLen(p.s[p.i:])
			if n == 0 {
				if p.loose {
					out = append(out, "\ufffd"...)
					p.i++
					continue
				}
				p.fail("invalid UTF-8 in string")
				return "", false
			}
			out = append(out, p.s[p.i:p.i+n]...)
			p.i += n
		}
	}
}

// RuneLen is the length of the well-formed UTF-8 sequence s starts with, 0 when there is
// none (table 3-7 of the Unicode standard, written out independently of unicode/utf8).
func RuneLen(s []byte) int {
	b := s[0]
	switch {
	case b < 0x80:
		return 1
	case b < 0xc2:
		return 0
	case b < 0xe0:
		if len(s) > 1 && cont(s[1]) {
			return 2
		}
		return 0
	case b < 0xf0:
		if len(s) > 2 && cont(s[1]) && cont(s[2]) {
			if b == 0xe0 && s[1] < 0xa0 || b == 0xed && s[1] > 0x9f {
				return 0
			}
			return 3
		}
		return 0
	case b < 0xf5:
		if len(s) > 3 && cont(s[1]) && cont(s[2]) && cont(s[3]) {
			if b == 0xf0 && s[1] < 0x90 || b == 0xf4 && s[1] > 0x8f {
				return 0
			}
			return 4
		}
		return 0
	}
	return 0
}

func cont(b byte) bool { return b&0xc0 == 0x80 }

// Valid is s with each byte that is no part of well-formed UTF-8 replaced by U+FFFD.
func Valid(s string) string {
	out := make([]byte, 0, len(s)+4)
	in := []byte(s)
	for i := 0; i < len(in); {
		n := RuneLen(in[i:])
		if n == 0 {
			out = append(out, "\ufffd"...)
			i++
			continue
		}
		out = append(out, in[i:i+n]...)
		i += n
	}
	return string(out)
}
