package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/zyxar/socketio"
)

// blob is a binary argument type of the user's own.
type blob struct{ b []byte }

func (b blob) MarshalBinary() ([]byte, error)  { return append([]byte(nil), b.b...), nil }
func (b *blob) UnmarshalBinary(p []byte) error { b.b = append([]byte(nil), p...); return nil }
func (b *blob) bytes() []byte                  { return b.b }

// badBlob cannot be marshalled.
type badBlob struct{}

func (badBlob) MarshalBinary() ([]byte, error) { return []byte("bad"), errors.New("badBlob") }

type badJSON struct{}

func (badJSON) MarshalJSON() ([]byte, error) { return nil, errors.New("badJSON") }

type myString string
type myInt int32
type myStruct struct {
	A int      `json:"a"`
	B string   `json:"b,omitempty"`
	C []string `json:"c"`
}

// arg is an argument: the value a sender passes, what it is on the wire (JSON value, msgpack value or attachment) and
// the parameter type that receives it. With want, the parameter is that and not wire: arrays may be sent with fewer
// elements than they have.
type arg struct {
	v    interface{}
	wire interface{}
	t    reflect.Type
	want interface{}
}

func (a arg) String() string { return clip(fmt.Sprintf("%T(%v)->%v", a.v, a.v, a.t), 90) }

func typ(v interface{}) reflect.Type { return reflect.TypeOf(v) }

var (
	anyType  = reflect.TypeOf((*interface{})(nil)).Elem()
	sockType = reflect.TypeOf((*socketio.Socket)(nil)).Elem()
)

func pickType(r *rand.Rand, ts ...reflect.Type) reflect.Type { return ts[r.Intn(len(ts))] }

var trickyStrings = []string{"", "0", "[]", `",{"_placeholder":true,"num":0}`, `,{"_placeholder":true,"num":0}`, `["x"]`, `\`, `\"`, "51-[", "/a,", "-1", "\x00",
	"<script>&'", "\u2028\u2029", `{"_placeholder":true,"num":0}`, "2/a,1[\"e\"]", `\u0041`}

func genStr(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return trickyStrings[r.Intn(len(trickyStrings))]
	case 1:
		return genText(r, genSize(r, 3000))
	}
	return genText(r, r.Intn(20))
}

// genJSON makes a JSON value without anything that looks like a placeholder.
func genJSON(r *rand.Rand, depth int) interface{} {
	switch k := r.Intn(9); {
	case k == 0:
		return nil
	case k == 1:
		return r.Intn(2) == 0
	case k == 2:
		return float64(r.Int63n(1<<53)) * float64(1-2*r.Intn(2))
	case k == 3:
		return math.Ldexp(r.Float64()-0.5, r.Intn(120)-60)
	case k <= 5 || depth <= 0:
		return genStr(r)
	case k == 6:
		l := make([]interface{}, r.Intn(4))
		for i := range l {
			l[i] = genJSON(r, depth-1)
		}
		return l
	default:
		m := map[string]interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			m[genStr(r)] = genJSON(r, depth-1)
		}
		return m
	}
}

func genInt(r *rand.Rand) int64 {
	switch r.Intn(4) {
	case 0:
		return int64(r.Intn(300)) - 150
	case 1:
		k := uint(r.Intn(62))
		return (int64(1)<<k + int64(r.Intn(3)) - 1) * int64(1-2*r.Intn(2))
	case 2:
		return []int64{0, -1, 31, 32, -32, -33, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, math.MaxInt32, math.MaxInt32 + 1,
			math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MinInt64}[r.Intn(26)]
	}
	return int64(r.Uint64() >> 1)
}

var intTypes = []reflect.Type{typ(int(0)), typ(int8(0)), typ(int16(0)), typ(int32(0)), typ(int64(0)), typ(uint(0)), typ(uint8(0)), typ(uint16(0)), typ(uint32(0)), typ(uint64(0))}

func fits(v int64, t reflect.Type) bool {
	x := reflect.New(t).Elem()
	switch x.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return !x.OverflowInt(v)
	default:
		return v >= 0 && !x.OverflowUint(uint64(v))
	}
}

// genFit makes an argument and a parameter type that must take it (default parser).
func genFit(r *rand.Rand) arg {
	switch r.Intn(13) {
	case 0, 1:
		s := genStr(r)
		return arg{s, s, pickType(r, typ(""), typ(new(string)), anyType, typ(myString(""))), nil}
	case 2:
		v := genInt(r)
		var ok []reflect.Type
		for _, t := range append(intTypes, typ(myInt(0)), typ(new(int64))) {
			u := t
			if t.Kind() == reflect.Ptr {
				u = t.Elem()
			}
			if fits(v, u) {
				ok = append(ok, t)
			}
		}
		if v < 1<<53 && v > -1<<53 {
			ok = append(ok, anyType, typ(float64(0)))
		}
		return arg{asSomeInt(r, v), v, ok[r.Intn(len(ok))], nil}
	case 3:
		u := uint64(r.Uint64())
		return arg{u, u, pickType(r, typ(uint64(0)), typ(uint(0))), nil}
	case 4:
		f := math.Ldexp(r.Float64()-0.5, r.Intn(200)-100)
		return arg{f, f, pickType(r, typ(f), anyType, typ(new(float64))), nil}
	case 5:
		b := r.Intn(2) == 0
		return arg{b, b, pickType(r, typ(b), anyType, typ(new(bool))), nil}
	case 6:
		v := []interface{}{nil, nil, (*int)(nil), (*myStruct)(nil), (*socketio.Bytes)(nil), (*blob)(nil), (*time.Time)(nil)}[r.Intn(7)]
		if r.Intn(3) == 0 { // no binary is sent as null, too
			return arg{v, nil, pickType(r, typ(socketio.Bytes{}), typ(&socketio.Bytes{}), typ(blob{}), typ(&blob{})), []byte{}}
		}
		return arg{v, nil, pickType(r, anyType, typ(map[string]int{}), typ([]string{})), nil}
	case 7:
		v := genJSON(r, 3)
		return arg{v, v, anyType, nil}
	case 8:
		l := make([]string, r.Intn(5))
		for i := range l {
			l[i] = genStr(r)
		}
		return arg{l, l, pickType(r, typ(l), anyType, typ(&l)), nil}
	case 9:
		m := map[string]int{}
		for i := r.Intn(5); i > 0; i-- {
			m[genStr(r)] = r.Intn(1 << 30)
		}
		return arg{m, m, pickType(r, typ(m), anyType, typ(map[string]interface{}{}), typ(map[myString]int64{})), nil}
	case 10:
		s := myStruct{A: r.Intn(1000), B: genStr(r), C: []string{genStr(r)}}
		if r.Intn(2) == 0 {
			return arg{&s, s, pickType(r, typ(s), typ(&s), anyType), nil}
		}
		return arg{s, s, pickType(r, typ(s), typ(&s), typ(map[string]interface{}{})), nil}
	case 11:
		b := genBytes(r, r.Intn(20))
		w := string(jsonOf(b))
		return arg{b, strings.Trim(w, `"`), pickType(r, typ(b), typ(""), anyType), nil}
	default:
		return genBin(r)
	}
}

func genBin(r *rand.Rand) arg {
	b := genBytes(r, genSize(r, 5000))
	t := pickType(r, typ(socketio.Bytes{}), typ(&socketio.Bytes{}), typ(blob{}), typ(&blob{}))
	switch r.Intn(4) {
	case 0:
		return arg{socketio.Bytes{Data: b}, b, t, nil}
	case 1:
		return arg{blob{b}, b, t, nil}
	case 2:
		return arg{&blob{b}, b, t, nil}
	}
	return arg{&socketio.Bytes{Data: b}, b, t, nil}
}

func asSomeInt(r *rand.Rand, v int64) interface{} {
	for k := 0; k < 3; k++ {
		if t := intTypes[r.Intn(len(intTypes))]; fits(v, t) {
			x := reflect.New(t).Elem()
			if x.CanInt() {
				x.SetInt(v)
			} else {
				x.SetUint(uint64(v))
			}
			return x.Interface()
		}
	}
	return v
}

// genFitMP is genFit for the msgpack parser.
func genFitMP(r *rand.Rand) arg {
	switch r.Intn(15) {
	case 14:
		t := genMPType(r, 3)
		wire, want := genMPOf(r, t)
		return arg{wire, wire, t, want}
	case 0, 1:
		s := genStr(r)
		return arg{s, s, pickType(r, typ(""), typ(new(string)), anyType), nil}
	case 2, 3:
		v := genInt(r)
		var ok []reflect.Type
		for _, t := range append(intTypes, typ(new(int64))) {
			u := t
			if t.Kind() == reflect.Ptr {
				u = t.Elem()
			}
			if fits(v, u) {
				ok = append(ok, t)
			}
		}
		ok = append(ok, anyType)
		return arg{asSomeInt(r, v), v, ok[r.Intn(len(ok))], nil}
	case 4:
		u := uint64(r.Uint64())
		return arg{u, u, pickType(r, typ(uint64(0)), typ(uint(0)), anyType), nil}
	case 5:
		if r.Intn(2) == 0 {
			f := float32(math.Ldexp(r.Float64()-0.5, r.Intn(100)-50))
			return arg{f, f, pickType(r, typ(f), typ(float64(0)), anyType), nil}
		}
		f := math.Ldexp(r.Float64()-0.5, r.Intn(200)-100)
		if r.Intn(5) == 0 {
			f = []float64{math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), math.MaxFloat64, 5e-324}[r.Intn(6)]
		}
		return arg{f, f, pickType(r, typ(f), anyType), nil}
	case 6:
		b := r.Intn(2) == 0
		return arg{b, b, pickType(r, typ(b), anyType, typ(new(bool))), nil}
	case 7:
		return arg{[]interface{}{nil, nil, (*int)(nil), (*string)(nil), (*socketio.Bytes)(nil), (*time.Time)(nil)}[r.Intn(6)], nil, anyType, nil}
	case 8:
		v := genMPVal(r, 3)
		return arg{v, v, anyType, nil}
	case 9:
		l := make([]string, r.Intn(20))
		w := make([]interface{}, len(l))
		for i := range l {
			l[i] = genStr(r)
			w[i] = l[i]
		}
		return arg{l, w, pickType(r, typ(l), anyType, typ(&l)), nil}
	case 10:
		m := map[string]string{}
		w := map[string]interface{}{}
		for i := r.Intn(20); i > 0; i-- {
			k := genStr(r)
			m[k] = genStr(r)
			w[k] = m[k]
		}
		return arg{m, w, pickType(r, typ(m), typ(w), anyType, typ(map[myString]string{})), nil}
	case 11:
		l := make([][]int, r.Intn(4))
		w := make([]interface{}, len(l))
		for i := range l {
			l[i] = make([]int, r.Intn(5))
			x := make([]interface{}, len(l[i]))
			for j := range l[i] {
				l[i][j] = int(genInt(r))
				x[j] = int64(l[i][j])
			}
			w[i] = x
		}
		return arg{l, w, pickType(r, typ(l), typ([][]int64{}), anyType, typ([]interface{}{})), nil}
	case 12:
		a := [3]bool{r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0}
		return arg{a, []interface{}{a[0], a[1], a[2]}, pickType(r, typ(a), typ([]bool{}), anyType), nil}
	default:
		b := genBytes(r, genSize(r, 5000))
		return arg{b, b, pickType(r, typ(b), anyType), nil}
	}
}

// genMPType makes a parameter type composed of lists, arrays, maps and pointers.
func genMPType(r *rand.Rand, depth int) reflect.Type {
	if depth == 0 {
		return pickType(r, typ(0), typ(int64(0)), typ(int16(0)), typ(uint32(0)), typ(""), typ(true), typ(0.5), typ([]byte{}))
	}
	switch r.Intn(9) {
	case 0, 1:
		return reflect.SliceOf(genMPType(r, depth-1))
	case 2, 3:
		return reflect.ArrayOf(1+r.Intn(4), genMPType(r, depth-1))
	case 4, 5:
		return reflect.MapOf(typ(""), genMPType(r, depth-1))
	case 6:
		return reflect.PtrTo(genMPType(r, depth-1))
	case 7:
		return genMPType(r, 0)
	}
	return genMPType(r, depth-1)
}

// genMPOf makes a value that a parameter of type t takes, and what the parameter is then.
func genMPOf(r *rand.Rand, t reflect.Type) (wire, want interface{}) {
	switch t.Kind() {
	case reflect.String:
		s := genStr(r)
		return s, s
	case reflect.Bool:
		b := r.Intn(2) == 0
		return b, b
	case reflect.Float64:
		f := math.Ldexp(r.Float64()-0.5, r.Intn(120)-60)
		return f, f
	case reflect.Ptr:
		return genMPOf(r, t.Elem())
	case reflect.Map:
		x, y := map[string]interface{}{}, map[string]interface{}{}
		for i := []int{0, 1, 2, 3, 4, 17}[r.Intn(6)]; i > 0; i-- {
			k := genStr(r)
			x[k], y[k] = genMPOf(r, t.Elem())
		}
		return x, y
	case reflect.Slice, reflect.Array:
		if t == typ([]byte{}) {
			b := genBytes(r, r.Intn(40))
			return b, b
		}
		n := []int{0, 1, 2, 3, 4, 17}[r.Intn(6)]
		if t.Kind() == reflect.Array {
			n = r.Intn(t.Len() + 1)
		}
		x, y := make([]interface{}, n), make([]interface{}, n)
		for i := range x {
			x[i], y[i] = genMPOf(r, t.Elem())
		}
		for t.Kind() == reflect.Array && len(y) < t.Len() {
			y = append(y, zeroMP(t.Elem()))
		}
		return x, y
	}
	for {
		if v := genInt(r); fits(v, t) {
			return v, v
		}
	}
}

// zeroMP is what the zero value of t is rendered as.
func zeroMP(t reflect.Type) interface{} {
	switch t.Kind() {
	case reflect.String:
		return ""
	case reflect.Bool:
		return false
	case reflect.Float64:
		return 0.0
	case reflect.Ptr:
		return nil
	case reflect.Map:
		return map[string]interface{}{}
	case reflect.Slice:
		if t == typ([]byte{}) {
			return []byte{}
		}
		return []interface{}{}
	case reflect.Array:
		y := make([]interface{}, t.Len())
		for i := range y {
			y[i] = zeroMP(t.Elem())
		}
		return y
	}
	return int64(0)
}

// genMPVal makes a value of the msgpack domain.
func genMPVal(r *rand.Rand, depth int) interface{} {
	switch k := r.Intn(10); {
	case k == 0:
		return nil
	case k == 1:
		return r.Intn(2) == 0
	case k == 2:
		return genInt(r)
	case k == 3:
		return math.Ldexp(r.Float64()-0.5, r.Intn(120)-60)
	case k == 4:
		return genBytes(r, r.Intn(40))
	case k <= 6 || depth <= 0:
		return genStr(r)
	case k == 7:
		l := make([]interface{}, []int{0, 1, 3, 15, 16, 17}[r.Intn(6)])
		for i := range l {
			l[i] = genMPVal(r, depth-2)
		}
		return l
	default:
		m := map[string]interface{}{}
		for i := []int{0, 1, 2, 3, 15, 16, 17}[r.Intn(7)]; i > 0; i-- {
			m[genStr(r)] = genMPVal(r, depth-2)
		}
		return m
	}
}

func (o DuoOpt) genArg(r *rand.Rand) arg {
	if o.MP {
		return genFitMP(r)
	}
	return genFit(r)
}

func (o DuoOpt) genArgs(r *rand.Rand, max int) []arg {
	as := make([]arg, r.Intn(max+1))
	if r.Intn(12) == 0 {
		as = make([]arg, 10+r.Intn(8))
		if r.Intn(4) == 0 {
			as = make([]arg, 20+r.Intn(30))
		}
	}
	for i := range as {
		as[i] = o.genArg(r)
		if !o.MP && len(as) >= 10 && r.Intn(2) == 0 {
			as[i] = genBin(r)
		}
	}
	return as
}

// renderWire renders what an argument is on the wire.
func renderWire(w interface{}, mp bool) string {
	if mp {
		return mpCanon(w)
	}
	return canon(w)
}

// renderGot renders a received parameter value in the form of renderWire.
func renderGot(v reflect.Value, mp bool) string {
	if mp {
		return mpNorm(v)
	}
	i := v.Interface()
	switch x := i.(type) {
	case socketio.Bytes:
		return canon(nonNil(x.Data))
	case *socketio.Bytes:
		return canon(nonNil(x.Data))
	case blob:
		return canon(nonNil(x.b))
	case *blob:
		return canon(nonNil(x.b))
	case []byte: // a plain byte slice is a base64 string
		b, _ := json.Marshal(nonNil(x))
		return string(b)
	}
	return canon(i)
}

func nonNil(b []byte) []byte {
	if b == nil {
		return []byte{}
	}
	return b
}

// mpNorm renders any Go value as mpCanon renders the value it is on the wire.
func mpNorm(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	switch x := v.Interface().(type) {
	case []byte:
		return mpCanon(nonNil(x))
	case time.Time:
		return fmt.Sprintf("time%d", x.UnixNano())
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return mpNorm(v.Elem())
	case reflect.Bool:
		return mpCanon(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return mpCanon(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return mpCanon(v.Uint())
	case reflect.Float32, reflect.Float64:
		return mpCanon(v.Float())
	case reflect.Complex64, reflect.Complex128:
		return fmt.Sprint(v.Complex())
	case reflect.String:
		return mpCanon(v.String())
	case reflect.Slice, reflect.Array:
		s := make([]string, v.Len())
		for i := range s {
			s[i] = mpNorm(v.Index(i))
		}
		return "[" + strings.Join(s, ",") + "]"
	case reflect.Map:
		var s []string
		for _, k := range v.MapKeys() {
			s = append(s, fmt.Sprintf("%q:", k.String())+"\x00"+mpNorm(v.MapIndex(k)))
		}
		sort.Slice(s, func(i, j int) bool { return mapKeyLess(s[i], s[j]) })
		for i := range s {
			s[i] = strings.Replace(s[i], "\x00", "", 1)
		}
		return "{" + strings.Join(s, ",") + "}"
	}
	return fmt.Sprintf("?%v", v.Type())
}

// mapKeyLess orders rendered entries as mpCanon does, by the unquoted key.
func mapKeyLess(a, b string) bool {
	var x, y string
	fmt.Sscanf(a[:strings.IndexByte(a, 0)-1], "%q", &x)
	fmt.Sscanf(b[:strings.IndexByte(b, 0)-1], "%q", &y)
	return x < y
}

func vals(as []arg) []interface{} {
	out := make([]interface{}, len(as))
	for i := range as {
		out[i] = as[i].v
	}
	return out
}

func wires(as []arg) []interface{} {
	out := make([]interface{}, len(as))
	for i := range as {
		out[i] = as[i].wire
	}
	return out
}

func rendered(as []arg, mp bool) string {
	s := make([]string, len(as))
	for i := range as {
		w := as[i].wire
		if as[i].want != nil {
			w = as[i].want
		}
		s[i] = renderWire(w, mp)
	}
	return strings.Join(s, " ; ")
}

func renderWires(l []interface{}, mp bool) string {
	s := make([]string, len(l))
	for i := range l {
		s[i] = renderWire(l[i], mp)
	}
	return strings.Join(s, " ; ")
}

// probe is a callback built by reflection whose calls are recorded.
type probe struct {
	mu    sync.Mutex
	calls []string
	socks []socketio.Socket
	fn    interface{}
	on    func(so socketio.Socket)
	kept  [][]reflect.Value // what the callback was given, as it was given
}

// newProbe makes a callback with the parameter types of as, Socket parameters mixed in, that returns ret.
func newProbe(c *Ctx, r *rand.Rand, as []arg, mp bool, ret []interface{}) *probe {
	p := &probe{}
	c.Final(func() {
		p.mu.Lock()
		defer p.mu.Unlock()
		for i, k := range p.kept {
			if s := renderArgs(k, mp); s != p.calls[i] {
				c.Failf("kept", "callback %T was given\n%s\nwhich has since become\n%s", p.fn, clip(p.calls[i], 1200), clip(s, 1200))
				return
			}
		}
		c.Count("calls whose arguments stayed as they were", len(p.kept))
	})
	var in []reflect.Type
	for i := 0; i <= len(as); i++ {
		if r.Intn(5) == 0 {
			in = append(in, sockType)
		}
		if i < len(as) {
			in = append(in, as[i].t)
		}
	}
	var out []reflect.Type
	rv := make([]reflect.Value, len(ret))
	for i := range ret {
		t := anyType
		if ret[i] != nil && r.Intn(2) == 0 {
			t = reflect.TypeOf(ret[i])
		}
		out = append(out, t)
		rv[i] = reflect.New(t).Elem()
		if ret[i] != nil {
			rv[i].Set(reflect.ValueOf(ret[i]))
		}
	}
	// a final slice may be a variadic parameter, which takes one argument: the array
	n := len(in)
	variadic := n > 0 && in[n-1].Kind() == reflect.Slice && r.Intn(3) == 0
	if variadic {
		c.Count("variadic callbacks", 1)
	}
	p.fn = reflect.MakeFunc(reflect.FuncOf(in, out, variadic), func(args []reflect.Value) []reflect.Value {
		var so socketio.Socket
		for _, a := range args {
			if a.Type() == sockType {
				so, _ = a.Interface().(socketio.Socket)
			}
		}
		s := renderArgs(args, mp)
		p.mu.Lock()
		p.calls = append(p.calls, s)
		p.kept = append(p.kept, args)
		p.socks = append(p.socks, so)
		f := p.on
		p.mu.Unlock()
		if f != nil {
			f(so)
		}
		return rv
	}).Interface()
	return p
}

// renderArgs renders the arguments of a callback.
func renderArgs(args []reflect.Value, mp bool) string {
	var s []string
	for _, a := range args {
		if a.Type() == sockType {
			if so, _ := a.Interface().(socketio.Socket); so == nil {
				s = append(s, "nil socket")
			}
			continue
		}
		s = append(s, renderGot(a, mp))
	}
	return strings.Join(s, " ; ")
}

func (p *probe) n() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.calls)
}

func (p *probe) last() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.calls) == 0 {
		return ""
	}
	return p.calls[len(p.calls)-1]
}
