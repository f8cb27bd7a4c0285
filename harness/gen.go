package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"
)

var spiceRunes = []rune{0, 1, '\t', '\n', '\r', '"', '\'', '\\', '<', '>', '&', ':', ',', '-', '/', '[', ']', '{', '}', '0', '4', '9', 'b', 'é', 'ß',
	'哎', '喲', 0x2028, 0x2029, 0xFEFF, 0xFFFD, 0x7f, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF}

// genText makes a valid UTF-8 string of about n bytes.
func genText(r *rand.Rand, n int) string {
	var sb strings.Builder
	kind := r.Intn(4)
	for sb.Len() < n {
		switch kind {
		case 0:
			sb.WriteByte(byte(' ' + r.Intn(95)))
		case 1:
			sb.WriteRune(spiceRunes[r.Intn(len(spiceRunes))])
		case 2:
			sb.WriteString([]string{"0", "1", ":", "2:4b", "b4", "\xc3\xa9", "10:b4SEVMTE8h"}[r.Intn(7)])
		default:
			c := rune(r.Intn(0x3000))
			if c >= 0xD800 && c < 0xE000 {
				c = 'x'
			}
			sb.WriteRune(c)
		}
	}
	s := sb.String()
	for len(s) > n { // cut at a rune boundary
		_, k := utf8.DecodeLastRuneInString(s)
		s = s[:len(s)-k]
	}
	return s
}

func genBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
		for i := range b {
			b[i] = byte(r.Intn(2) * 255)
		}
	case 1:
		for i := range b {
			b[i] = []byte{0, 1, 9, 10, 0xFF, ':', '4', 'b', '=', 0x34}[r.Intn(10)]
		}
	default:
		r.Read(b)
	}
	return b
}

// genSize picks sizes around the boundaries that matter.
func genSize(r *rand.Rand, max int) int {
	var n int
	switch r.Intn(12) {
	case 0:
		n = 0
	case 1, 2, 3, 4:
		n = r.Intn(12)
	case 5, 6:
		n = r.Intn(200)
	case 7:
		n = []int{8, 9, 10, 98, 99, 100, 125, 126, 127, 255, 256, 998, 999, 1000, 1022, 1023, 1024, 1025}[r.Intn(18)] + r.Intn(5) - 2
	case 8:
		n = []int{4094, 4096, 8192, 9998, 9999, 10000, 16384, 32768, 65535, 65536, 99999, 100000}[r.Intn(12)] + r.Intn(7) - 3
	case 9, 10:
		n = r.Intn(6000)
	default:
		n = r.Intn(max + 1)
	}
	if n > max {
		n = r.Intn(max + 1)
	}
	if n < 0 {
		n = 0
	}
	return n
}

func genEP(r *rand.Rand, max int, msgOnly bool) EP {
	p := EP{Type: 4, Bin: r.Intn(2) == 0}
	if !msgOnly && r.Intn(3) == 0 {
		p.Type = byte(r.Intn(7))
	}
	n := genSize(r, max)
	if p.Bin {
		p.Data = genBytes(r, n)
	} else {
		p.Data = []byte(genText(r, n))
	}
	return p
}

func genEPs(r *rand.Rand, max int, msgOnly bool) []EP {
	n := 1 + r.Intn(6)
	if r.Intn(8) == 0 {
		n = 1 + r.Intn(40)
		max = min(max, 3000)
		if r.Intn(12) == 0 {
			n, max = 900+r.Intn(4000), 4
		}
	}
	ps := make([]EP, n)
	for i := range ps {
		ps[i] = genEP(r, max, msgOnly)
	}
	return ps
}

func shapeOf(ps []EP) string {
	s := ""
	for _, p := range ps {
		s += fmt.Sprintf("%v%d:%d ", p.Bin, p.Type, len(p.Data))
	}
	return s
}

func sortStrings(s []string) { sort.Strings(s) }
