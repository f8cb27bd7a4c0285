package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
)

// Reference msgpack codec for the value domain nil, bool, int64/uint64, float32/float64, string, []byte,
// []interface{}, map[string]interface{} and mpExt, written from the msgpack specification.

type mpExt struct {
	T byte
	B []byte
}

// mpEnc encodes v. With r, it chooses randomly among the legal widths.
func mpEnc(b []byte, v interface{}, r *rand.Rand) []byte {
	wide := func(n int) int { // extra width steps
		if r == nil || n <= 0 {
			return 0
		}
		if r.Intn(3) > 0 {
			return 0
		}
		return r.Intn(n + 1)
	}
	switch x := v.(type) {
	case nil:
		return append(b, 0xc0)
	case bool:
		if x {
			return append(b, 0xc3)
		}
		return append(b, 0xc2)
	case int:
		return mpEnc(b, int64(x), r)
	case int64:
		lvl := 0 // fixint, 8, 16, 32, 64
		switch {
		case x >= -32 && x <= 127:
			lvl = 0
		case x >= -128 && x <= 127:
			lvl = 1
		case x >= math.MinInt16 && x <= math.MaxInt16:
			lvl = 2
		case x >= math.MinInt32 && x <= math.MaxInt32:
			lvl = 3
		default:
			lvl = 4
		}
		lvl += wide(4 - lvl)
		switch lvl {
		case 0:
			return append(b, byte(x))
		case 1:
			return append(b, 0xd0, byte(x))
		case 2:
			return binary.BigEndian.AppendUint16(append(b, 0xd1), uint16(x))
		case 3:
			return binary.BigEndian.AppendUint32(append(b, 0xd2), uint32(x))
		}
		return binary.BigEndian.AppendUint64(append(b, 0xd3), uint64(x))
	case uint64:
		lvl := 0
		switch {
		case x <= 127:
		case x <= 255:
			lvl = 1
		case x <= math.MaxUint16:
			lvl = 2
		case x <= math.MaxUint32:
			lvl = 3
		default:
			lvl = 4
		}
		lvl += wide(4 - lvl)
		switch lvl {
		case 0:
			return append(b, byte(x))
		case 1:
			return append(b, 0xcc, byte(x))
		case 2:
			return binary.BigEndian.AppendUint16(append(b, 0xcd), uint16(x))
		case 3:
			return binary.BigEndian.AppendUint32(append(b, 0xce), uint32(x))
		}
		return binary.BigEndian.AppendUint64(append(b, 0xcf), x)
	case float32:
		return binary.BigEndian.AppendUint32(append(b, 0xca), math.Float32bits(x))
	case float64:
		return binary.BigEndian.AppendUint64(append(b, 0xcb), math.Float64bits(x))
	case string:
		n := len(x)
		lvl := 0
		switch {
		case n < 32:
		case n < 256:
			lvl = 1
		case n < 65536:
			lvl = 2
		default:
			lvl = 3
		}
		lvl += wide(3 - lvl)
		switch lvl {
		case 0:
			b = append(b, 0xa0|byte(n))
		case 1:
			b = append(b, 0xd9, byte(n))
		case 2:
			b = binary.BigEndian.AppendUint16(append(b, 0xda), uint16(n))
		default:
			b = binary.BigEndian.AppendUint32(append(b, 0xdb), uint32(n))
		}
		return append(b, x...)
	case []byte:
		n := len(x)
		lvl := 0
		switch {
		case n < 256:
		case n < 65536:
			lvl = 1
		default:
			lvl = 2
		}
		lvl += wide(2 - lvl)
		switch lvl {
		case 0:
			b = append(b, 0xc4, byte(n))
		case 1:
			b = binary.BigEndian.AppendUint16(append(b, 0xc5), uint16(n))
		default:
			b = binary.BigEndian.AppendUint32(append(b, 0xc6), uint32(n))
		}
		return append(b, x...)
	case mpExt:
		n := len(x.B)
		switch {
		case n < 256:
			b = append(b, 0xc7, byte(n), x.T)
		case n < 65536:
			b = append(binary.BigEndian.AppendUint16(append(b, 0xc8), uint16(n)), x.T)
		default:
			b = append(binary.BigEndian.AppendUint32(append(b, 0xc9), uint32(n)), x.T)
		}
		return append(b, x.B...)
	case []interface{}:
		n := len(x)
		lvl := 0
		switch {
		case n < 16:
		case n < 65536:
			lvl = 1
		default:
			lvl = 2
		}
		lvl += wide(2 - lvl)
		switch lvl {
		case 0:
			b = append(b, 0x90|byte(n))
		case 1:
			b = binary.BigEndian.AppendUint16(append(b, 0xdc), uint16(n))
		default:
			b = binary.BigEndian.AppendUint32(append(b, 0xdd), uint32(n))
		}
		for _, e := range x {
			b = mpEnc(b, e, r)
		}
		return b
	case map[string]interface{}:
		n := len(x)
		lvl := 0
		switch {
		case n < 16:
		case n < 65536:
			lvl = 1
		default:
			lvl = 2
		}
		lvl += wide(2 - lvl)
		switch lvl {
		case 0:
			b = append(b, 0x80|byte(n))
		case 1:
			b = binary.BigEndian.AppendUint16(append(b, 0xde), uint16(n))
		default:
			b = binary.BigEndian.AppendUint32(append(b, 0xdf), uint32(n))
		}
		keys := make([]string, 0, n)
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		if r != nil {
			r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		}
		for _, k := range keys {
			b = mpEnc(b, k, r)
			b = mpEnc(b, x[k], r)
		}
		return b
	}
	panic(fmt.Sprintf("harness: mpEnc %T", v))
}

var errMPShort = errors.New("msgpack: short")

// mpDec decodes one value: integers become int64 or (beyond it) uint64.
func mpDec(b []byte, depth int) (v interface{}, rest []byte, err error) {
	if len(b) == 0 || depth > 1000 {
		return nil, nil, errMPShort
	}
	c := b[0]
	b = b[1:]
	need := func(n int) ([]byte, error) {
		if n < 0 || len(b) < n {
			return nil, errMPShort
		}
		x := b[:n]
		b = b[n:]
		return x, nil
	}
	u := func(n int) (uint64, error) {
		x, err := need(n)
		if err != nil {
			return 0, err
		}
		var r uint64
		for _, y := range x {
			r = r<<8 | uint64(y)
		}
		return r, nil
	}
	str := func(n uint64, err error) (interface{}, []byte, error) {
		if err != nil || n > uint64(len(b)) {
			return nil, nil, errMPShort
		}
		x, err := need(int(n))
		return string(x), b, err
	}
	bin := func(n uint64, err error) (interface{}, []byte, error) {
		if err != nil || n > uint64(len(b)) {
			return nil, nil, errMPShort
		}
		x, err := need(int(n))
		return append([]byte{}, x...), b, err
	}
	arr := func(n uint64, err error) (interface{}, []byte, error) {
		if err != nil || n > uint64(len(b)) {
			return nil, nil, errMPShort
		}
		l := make([]interface{}, n)
		for i := range l {
			if l[i], b, err = mpDec(b, depth+1); err != nil {
				return nil, nil, err
			}
		}
		return l, b, nil
	}
	mp := func(n uint64, err error) (interface{}, []byte, error) {
		if err != nil || n > uint64(len(b)) {
			return nil, nil, errMPShort
		}
		m := map[string]interface{}{}
		for i := uint64(0); i < n; i++ {
			var k, x interface{}
			if k, b, err = mpDec(b, depth+1); err != nil {
				return nil, nil, err
			}
			ks, ok := k.(string)
			if !ok {
				return nil, nil, fmt.Errorf("msgpack: key %T", k)
			}
			if x, b, err = mpDec(b, depth+1); err != nil {
				return nil, nil, err
			}
			if _, dup := m[ks]; dup {
				return nil, nil, fmt.Errorf("msgpack: duplicate key %q", ks)
			}
			m[ks] = x
		}
		return m, b, nil
	}
	ext := func(n uint64, err error) (interface{}, []byte, error) {
		if err != nil || n+1 > uint64(len(b)) {
			return nil, nil, errMPShort
		}
		t := b[0]
		b = b[1:]
		x, err := need(int(n))
		return mpExt{t, append([]byte{}, x...)}, b, err
	}
	switch {
	case c < 0x80:
		return int64(c), b, nil
	case c >= 0xe0:
		return int64(int8(c)), b, nil
	case c < 0x90:
		return mp(uint64(c&15), nil)
	case c < 0xa0:
		return arr(uint64(c&15), nil)
	case c < 0xc0:
		return str(uint64(c&31), nil)
	}
	switch c {
	case 0xc0:
		return nil, b, nil
	case 0xc2:
		return false, b, nil
	case 0xc3:
		return true, b, nil
	case 0xc4:
		return bin(u(1))
	case 0xc5:
		return bin(u(2))
	case 0xc6:
		return bin(u(4))
	case 0xc7:
		return ext(u(1))
	case 0xc8:
		return ext(u(2))
	case 0xc9:
		return ext(u(4))
	case 0xca:
		x, err := u(4)
		return float64(math.Float32frombits(uint32(x))), b, err
	case 0xcb:
		x, err := u(8)
		return math.Float64frombits(x), b, err
	case 0xcc, 0xcd, 0xce, 0xcf:
		x, err := u(1 << (c - 0xcc))
		if x <= math.MaxInt64 {
			return int64(x), b, err
		}
		return x, b, err
	case 0xd0:
		x, err := u(1)
		return int64(int8(x)), b, err
	case 0xd1:
		x, err := u(2)
		return int64(int16(x)), b, err
	case 0xd2:
		x, err := u(4)
		return int64(int32(x)), b, err
	case 0xd3:
		x, err := u(8)
		return int64(x), b, err
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return ext(uint64(1)<<(c-0xd4), nil)
	case 0xd9:
		return str(u(1))
	case 0xda:
		return str(u(2))
	case 0xdb:
		return str(u(4))
	case 0xdc:
		return arr(u(2))
	case 0xdd:
		return arr(u(4))
	case 0xde:
		return mp(u(2))
	case 0xdf:
		return mp(u(4))
	}
	return nil, nil, fmt.Errorf("msgpack: byte %x", c)
}

// mpCanon renders a decoded msgpack value; integers of any width and sign representation compare by value.
func mpCanon(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return fmt.Sprint(x)
	case int:
		return fmt.Sprint(x)
	case int8:
		return fmt.Sprint(x)
	case int16:
		return fmt.Sprint(x)
	case int32:
		return fmt.Sprint(x)
	case int64:
		return fmt.Sprint(x)
	case uint:
		return fmt.Sprint(x)
	case uint8:
		return fmt.Sprint(x)
	case uint16:
		return fmt.Sprint(x)
	case uint32:
		return fmt.Sprint(x)
	case uint64:
		return fmt.Sprint(x)
	case float32:
		return fmt.Sprintf("f%x", math.Float64bits(float64(x)))
	case float64:
		return fmt.Sprintf("f%x", math.Float64bits(x))
	case string:
		return fmt.Sprintf("%q", x)
	case []byte:
		return fmt.Sprintf("b%x", x)
	case mpExt:
		return fmt.Sprintf("ext%d:%x", x.T, x.B)
	case []interface{}:
		s := "["
		for i, e := range x {
			if i > 0 {
				s += ","
			}
			s += mpCanon(e)
		}
		return s + "]"
	case map[string]interface{}:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		s := "{"
		for i, k := range keys {
			if i > 0 {
				s += ","
			}
			s += fmt.Sprintf("%q:", k) + mpCanon(x[k])
		}
		return s + "}"
	}
	return fmt.Sprintf("?%T", v)
}
