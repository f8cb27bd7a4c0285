package main

import (
	"encoding/base64"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// EP is an Engine.IO packet, in the harness's own representation.
type EP struct {
	Type byte // 0 open .. 6 noop
	Bin  bool
	Data []byte
}

func (p EP) String() string {
	k := "s"
	if p.Bin {
		k = "b"
	}
	d := p.Data
	if len(d) > 60 {
		return fmt.Sprintf("%s%d[%d]%q..", k, p.Type, len(d), d[:60])
	}
	return fmt.Sprintf("%s%d%q", k, p.Type, d)
}

func (p EP) equal(q EP) bool {
	return p.Type == q.Type && p.Bin == q.Bin && string(p.Data) == string(q.Data)
}

func epsEqual(a, b []EP) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].equal(b[i]) {
			return false
		}
	}
	return true
}

// Reference codec of the Engine.IO revision 3 payload framings, written from the protocol description.

func encText(ps []EP) []byte {
	var out []byte
	for _, p := range ps {
		if p.Bin {
			b := base64.StdEncoding.EncodeToString(p.Data)
			out = append(out, fmt.Sprintf("%d:b%d%s", len(b)+2, p.Type, b)...)
		} else {
			out = append(out, fmt.Sprintf("%d:%d", len(p.Data)+1, p.Type)...)
			out = append(out, p.Data...)
		}
	}
	return out
}

func encXHR2(ps []EP) []byte {
	var out []byte
	for _, p := range ps {
		if p.Bin {
			out = append(out, 1)
		} else {
			out = append(out, 0)
		}
		for _, d := range strconv.Itoa(len(p.Data) + 1) {
			out = append(out, byte(d-'0'))
		}
		out = append(out, 0xFF)
		if p.Bin {
			out = append(out, p.Type)
		} else {
			out = append(out, p.Type+'0')
		}
		out = append(out, p.Data...)
	}
	return out
}

func decText(b []byte) (ps []EP, err error) { return decTextAs(b, true) }

// decTextAs: strict readings want lengths as they are written, others also with leading zeros.
func decTextAs(b []byte, strict bool) (ps []EP, err error) {
	for len(b) > 0 {
		k := 20
		if !strict {
			k = len(b)
		}
		i := strings.IndexByte(string(b[:min(len(b), k)]), ':')
		if i <= 0 {
			return ps, errors.New("no length")
		}
		n, err := strconv.Atoi(string(b[:i]))
		if err != nil || n < 1 || len(b)-i-1 < n || strict && (i > 1 && b[0] == '0') || b[0] < '0' {
			return ps, fmt.Errorf("bad length %q of %d", b[:i], len(b)-i-1)
		}
		body := b[i+1 : i+1+n]
		b = b[i+1+n:]
		var p EP
		if body[0] == 'b' {
			if n < 2 {
				return ps, errors.New("short binary")
			}
			p.Bin = true
			p.Data, err = base64.StdEncoding.DecodeString(string(body[2:]))
			if err != nil {
				return ps, err
			}
			body = body[1:]
		} else {
			p.Data = append([]byte(nil), body[1:]...)
		}
		if body[0] < '0' || body[0] > '6' {
			return ps, fmt.Errorf("bad type %q", body[0])
		}
		p.Type = body[0] - '0'
		ps = append(ps, p)
	}
	return ps, nil
}

func decXHR2(b []byte) (ps []EP, err error) { return decXHR2As(b, true) }

func decXHR2As(b []byte, strict bool) (ps []EP, err error) {
	for len(b) > 0 {
		if b[0] > 1 {
			return ps, fmt.Errorf("bad kind %d", b[0])
		}
		p := EP{Bin: b[0] == 1}
		i, n := 1, 0
		for ; i < len(b) && b[i] != 0xFF; i++ {
			if b[i] > 9 || i > 12 && strict || n > 1<<40 {
				return ps, errors.New("bad length digit")
			}
			n = n*10 + int(b[i])
		}
		if i >= len(b) || n < 1 || len(b)-i-1 < n || strict && b[1] == 0 {
			return ps, fmt.Errorf("bad length %d", n)
		}
		t := b[i+1]
		if !p.Bin {
			t -= '0'
		}
		if t > 6 {
			return ps, fmt.Errorf("bad type %d", t)
		}
		p.Type = t
		p.Data = append([]byte(nil), b[i+2:i+1+n]...)
		b = b[i+1+n:]
		ps = append(ps, p)
	}
	return ps, nil
}

// decJSONP reads a JSONP response for callback index idx as a script engine would: one call with one string literal.
func decJSONP(b []byte, idx string) (ps []EP, err error) {
	s := strings.TrimSpace(string(b))
	pre := "___eio[" + idx + "]("
	if !strings.HasPrefix(s, pre) {
		return nil, fmt.Errorf("no %q in %q", pre, clip(s, 40))
	}
	lit, rest, err := jsString(s[len(pre):])
	if err != nil {
		return nil, err
	}
	rest = strings.TrimSpace(rest)
	if rest != ")" && rest != ");" {
		return nil, fmt.Errorf("trailing %q", clip(rest, 40))
	}
	return decText([]byte(lit))
}

// jsString parses a leading ECMAScript string literal.
func jsString(s string) (string, string, error) {
	s = strings.TrimLeft(s, " \t\r\n")
	if s == "" || (s[0] != '"' && s[0] != '\'') {
		return "", "", errors.New("no string literal")
	}
	q := s[0]
	var u []uint16
	i := 1
	for i < len(s) {
		switch ch := s[i]; {
		case ch == q:
			return string(utf16.Decode(u)), s[i+1:], nil
		case ch == '\n' || ch == '\r':
			return "", "", errors.New("line terminator in string literal")
		case ch == '\\':
			i++
			if i >= len(s) {
				return "", "", errors.New("unterminated")
			}
			switch e := s[i]; e {
			case 'n':
				u = append(u, '\n')
			case 'r':
				u = append(u, '\r')
			case 't':
				u = append(u, '\t')
			case 'b':
				u = append(u, 8)
			case 'f':
				u = append(u, 12)
			case 'v':
				u = append(u, 11)
			case '0':
				u = append(u, 0)
			case 'u', 'x':
				w := 4
				if e == 'x' {
					w = 2
				}
				if i+w >= len(s) {
					return "", "", errors.New("short escape")
				}
				v, err := strconv.ParseUint(s[i+1:i+1+w], 16, 16)
				if err != nil {
					return "", "", err
				}
				u = append(u, uint16(v))
				i += w
			case '\n':
			default:
				r, n := utf8.DecodeRuneInString(s[i:])
				u = utf16.AppendRune(u, r)
				i += n - 1
			}
			i++
		default:
			r, n := utf8.DecodeRuneInString(s[i:])
			u = utf16.AppendRune(u, r)
			i += n
		}
	}
	return "", "", errors.New("unterminated string literal")
}
