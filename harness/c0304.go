package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/zyxar/socketio"
)

func init() {
	register(&Suite{ID: "C03", Quick: 16500, Deep: 410000, MinNT: 60000, Virtual: true, Extra: true,
		realTime: func(n int) bool { return n%23 != 22 },
		Rule:     "packets encoded or decoded and compared with the reference codec, distinct by encoding",
		Run:      func(c *Ctx) { runCodec(c, false) }})
	register(&Suite{ID: "C04", Quick: 16500, Deep: 410000, MinNT: 60000, Virtual: true, Extra: true,
		realTime: func(n int) bool { return n%23 != 22 },
		Rule:     "packets encoded or decoded and compared with the reference codec, distinct by encoding",
		Run:      func(c *Ctx) { runCodec(c, true) }})
}

func runCodec(c *Ctx, mp bool) {
	if c.S.Virtual {
		longHistory(c)
		return
	}
	switch c.Case % 8 {
	case 0, 1, 2:
		codecEncode(c, mp)
	case 3, 4:
		codecDecode(c, mp)
	case 5:
		codecReject(c, mp)
	default:
		codecConn(c, mp)
	}
}

var nspChars = []rune("abcxyzABC0123456789_-.~!$&'()*+;=:@éß哎😀 ")

// genNsp makes a namespace path. Characters that a URL or the framing gives another meaning (',' '?' '#' '%' and
// control characters) and a leading "//" are outside the domain.
func genNsp(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0, 1:
		return "/"
	case 2:
		return []string{"/a", "/ab", "/a/b", "/0", "/1a", "/-", "/a-1", "/chat", "/a/", "/a//b", "/a/./b", "/a/../b", "/."}[r.Intn(13)]
	}
	s := []rune{'/'}
	n := 1 + r.Intn(8)
	if r.Intn(25) == 0 {
		n = 100 + r.Intn(2000)
	}
	for i := n; i > 0; i-- {
		if len(s) > 1 && r.Intn(6) == 0 {
			s = append(s, '/')
		} else {
			s = append(s, nspChars[r.Intn(len(nspChars))])
		}
	}
	return string(s)
}

func genEvent(r *rand.Rand) string {
	for {
		var s string
		switch r.Intn(5) {
		case 0:
			s = trickyStrings[r.Intn(len(trickyStrings))]
		case 1:
			s = genText(r, 1+r.Intn(12))
		case 2:
			s = genText(r, genSize(r, 400))
		default:
			s = []string{"message", "a", "x y", `q"q`, "\\", "\n", "哎", "1", "event,", "a]", "connect"}[r.Intn(11)]
		}
		if s != "" {
			return s
		}
	}
}

func genID(r *rand.Rand) *uint64 {
	if r.Intn(3) == 0 {
		return nil
	}
	return uid([]uint64{0, 1, 9, 10, uint64(r.Intn(1000)), uint64(r.Uint32()), 1<<53 - 1, math.MaxInt64, math.MaxUint64}[r.Intn(9)])
}

// model is a packet with typed arguments.
type model struct {
	t    byte // 0 connect 1 disconnect 2 event 3 ack 4 error
	nsp  string
	id   *uint64
	name string
	args []arg
	data interface{}
}

func genModel(r *rand.Rand, o DuoOpt) model {
	m := model{t: []byte{2, 2, 2, 3, 3, 3, 0, 1, 4}[r.Intn(9)], nsp: genNsp(r)}
	switch m.t {
	case 2:
		m.name = genEvent(r)
		m.args = o.genArgs(r, 5)
		if r.Intn(60) == 0 {
			m.args = manyArgs(r, o)
		}
		m.id = genID(r)
	case 3:
		m.args = o.genArgs(r, 4)
		if r.Intn(60) == 0 {
			m.args = manyArgs(r, o)
		}
		m.id = genID(r)
		if m.id == nil {
			m.id = uid(0)
		}
	case 4:
		m.data = genJSON(r, 3)
		if m.data == nil {
			m.data = "e"
		}
		if r.Intn(4) == 0 {
			m.data = float64(r.Intn(1000))
		}
	}
	return m
}

// manyArgs makes a long list of arguments, most of them attachments where the format has any.
func manyArgs(r *rand.Rand, o DuoOpt) []arg {
	n := []int{8, 9, 10, 11, 14, 15, 16, 17, 20, 30, 99, 100, 101, 123, 200, 255, 256, 300, 1000}[r.Intn(19)]
	args := make([]arg, n)
	all := r.Intn(2) == 0
	for i := range args {
		switch {
		case o.MP || (!all && r.Intn(4) == 0):
			args[i] = o.genArg(r)
		default:
			b := genBytes(r, r.Intn(6))
			args[i] = arg{&socketio.Bytes{Data: b}, b, pickType(r, typ(socketio.Bytes{}), typ(&socketio.Bytes{}), typ(blob{})), nil}
		}
	}
	return args
}

func (m model) sp() SP {
	s := SP{Type: m.t, Nsp: m.nsp, ID: m.id, Data: m.data}
	switch m.t {
	case 2:
		s.Args = append([]interface{}{m.name}, wires(m.args)...)
	case 3:
		s.Args = wires(m.args)
	}
	return s
}

func (m model) packet() *socketio.Packet {
	p := &socketio.Packet{Type: socketio.PacketType(m.t), Namespace: m.nsp, ID: m.id}
	switch m.t {
	case 2:
		p.Data = append([]interface{}{m.name}, vals(m.args)...)
	case 3:
		p.Data = vals(m.args)
	case 4:
		p.Data = m.data
	}
	return p
}

// renderSP renders a packet in the harness's representation for comparison.
func renderSP(s SP, mp bool) string {
	id := "-"
	if s.ID != nil {
		id = strconv.FormatUint(*s.ID, 10)
	}
	nsp := s.Nsp
	if nsp == "" {
		nsp = "/"
	}
	out := fmt.Sprintf("type %d nsp %q id %s ", s.Type, nsp, id)
	if s.Type == 2 || s.Type == 3 {
		return out + "[" + renderWires(s.Args, mp) + "]"
	}
	return out + canon(s.Data)
}

func framesOfEncoded(text []byte, bin [][]byte) (out []EP) {
	if len(text) > 0 || len(bin) == 0 {
		out = append(out, EP{Type: 4, Data: text})
	}
	for _, b := range bin {
		out = append(out, EP{Type: 4, Bin: true, Data: b})
	}
	return
}

func split(fs []EP, mp bool) ([]SP, error) {
	if mp {
		return mpSplit(fs)
	}
	return sioSplit(fs)
}

// codecEncode: the library encodes; the reference decoder and the library's decoder both recover the packet.
func codecEncode(c *Ctx, mp bool) {
	o := DuoOpt{MP: mp}
	enc, dec := parserOf(mp).Encoder(), parserOf(mp).Decoder()
	for k := 0; k < 8; k++ {
		m := genModel(c.R, o)
		want := m.sp()
		p := m.packet()
		if c.R.Intn(10) == 0 && len(p.Namespace) > 1 && p.Namespace[1] != '/' && !mp {
			p.Namespace = p.Namespace[1:] // the encoder supplies the slash
		}
		text, bin, err := enc.Encode(p)
		if err != nil {
			c.Fatalf("encode", "Encode of %s fails: %v", renderSP(want, mp), err)
		}
		fs := framesOfEncoded(text, bin)
		got, err := split(fs, mp)
		if err != nil || len(got) != 1 {
			c.Fatalf("encode", "%s\nis encoded as %v\nwhich is no packet: %v", renderSP(want, mp), fs, err)
		}
		if a, b := renderSP(want, mp), renderSP(got[0], mp); a != b {
			c.Fatalf("encode", "encoded as %v:\nwant %s\ngot  %s", fs, clip(a, 1500), clip(b, 1500))
		}
		if mp {
			ctl := m.t == 0 || m.t == 1 || m.t == 4
			if len(fs) != 1 || fs[0].Bin == ctl {
				c.Fatalf("encode", "type %d is encoded as %d frames %v", m.t, len(fs), fs)
			}
		}
		c.checkDecode(dec, fs, m, mp, "library")
		c.Sig("enc %s %x", clip(string(text), 2000), bin)
		c.Count("packets encoded", 1)
		if k == 0 && c.Case < 40 {
			c.Sample(map[string]interface{}{"packet": clip(renderSP(want, mp), 200), "text": clip(string(text), 120), "binary frames": len(bin)})
		}
	}
}

// checkDecode feeds frames to the library's decoder and compares what it makes of them with m.
func (c *Ctx) checkDecode(dec socketio.Decoder, fs []EP, m model, mp bool, by string) {
	what := fmt.Sprintf("%v (encoded by the %s)", fs, by)
	for i, f := range fs {
		t := socketio.MessageTypeString
		if f.Bin {
			t = socketio.MessageTypeBinary
		}
		if err := dec.Add(t, f.Data); err != nil {
			c.Fatalf("decode", "frame %d of %s is refused: %v", i, what, err)
		}
		if i < len(fs)-1 {
			select {
			case p := <-dec.Decoded():
				c.Fatalf("decode", "%s yields %v after frame %d", what, p, i)
			default:
			}
		}
	}
	var p *socketio.Packet
	select {
	case p = <-dec.Decoded():
	default:
		c.Fatalf("decode", "%s yields no packet", what)
	}
	t := byte(p.Type)
	if t >= 5 {
		t -= 3
	}
	if t != m.t || p.Namespace != m.nsp || (p.ID == nil) != (m.id == nil) || (m.id != nil && *p.ID != *m.id) {
		id := "-"
		if p.ID != nil {
			id = fmt.Sprint(*p.ID)
		}
		c.Fatalf("decode", "%s\nwant %s\ngot  type %d namespace %q id %s", what, clip(renderSP(m.sp(), mp), 600), t, p.Namespace, id)
	}
	if t != 2 && t != 3 {
		if a, b := canon(m.data), canon(p.Data); a != b {
			c.Fatalf("decode", "%s: want data %s, got %s", what, a, b)
		}
		return
	}
	ev, data, att, err := dec.ParseData(p)
	if err != nil {
		c.Fatalf("decode", "ParseData of %s: %v", what, err)
	}
	if ev != m.name {
		c.Fatalf("decode", "%s: event name %q, want %q", what, ev, m.name)
	}
	var types []reflect.Type
	var want []string
	for _, a := range m.args {
		if c.R.Intn(6) == 0 {
			types = append(types, sockType)
		}
		types = append(types, a.t)
	}
	vs, err := dec.UnmarshalArgs(types, data, att)
	if err != nil {
		c.Fatalf("args", "%s for parameters %v: %v", what, types, err)
	}
	if len(vs) != len(types) {
		c.Fatalf("args", "%d values for %d parameters", len(vs), len(types))
	}
	var got []string
	for i, v := range vs {
		if types[i] != sockType {
			if !v.IsValid() || v.Type() != types[i] {
				c.Fatalf("args", "%s for parameters %v: value %d is %v", what, types, i, v)
			}
			got = append(got, renderGot(v, mp))
		}
	}
	for _, a := range m.args {
		want = append(want, rendered([]arg{a}, mp))
	}
	if a, b := strings.Join(want, " ; "), strings.Join(got, " ; "); a != b {
		c.Fatalf("args", "%s for parameters %v:\nwant %s\ngot  %s", what, types, clip(a, 1500), clip(b, 1500))
	}
	c.Count("packets decoded", 1)
}

// codecDecode: frames of an independent encoder, in any of the spellings the formats allow.
func codecDecode(c *Ctx, mp bool) {
	o := DuoOpt{MP: mp}
	dec := parserOf(mp).Decoder()
	for k := 0; k < 10; k++ {
		m := genModel(c.R, o)
		if m.t == 2 && len(m.args) > 0 && c.R.Intn(3) == 0 && !mp {
			m.args[0] = genBin(c.R)
		}
		fs := spell(m.sp(), mp, c.R)
		c.checkDecode(dec, fs, m, mp, "reference")
		c.Sig("dec %v", fs)
		if k == 0 && c.Case < 40 {
			c.Sample(map[string]interface{}{"frames": clip(fmt.Sprint(fs), 200)})
		}
	}
	if mp {
		codecTimes(c)
	}
}

// codecTimes: value kinds for which msgpack has no format of its own make the round trip through the library.
func codecTimes(c *Ctx) {
	enc, dec := socketio.MsgpackParser.Encoder(), socketio.MsgpackParser.Decoder()
	t := time.Unix(c.R.Int63n(4e9)-1e9, c.R.Int63n(1e9))
	z := complex(c.R.NormFloat64(), c.R.NormFloat64())
	z32 := complex64(z)
	_, bin, err := enc.Encode(&socketio.Packet{Type: 2, Namespace: "/", Data: []interface{}{"t", t, z, z32}})
	if err != nil || len(bin) != 1 {
		c.Fatalf("encode", "Encode of a time and complex numbers: %v, %d frames", err, len(bin))
	}
	c.Must(dec.Add(socketio.MessageTypeBinary, bin[0]), "Add")
	_, data, att, err := dec.ParseData(<-dec.Decoded())
	if err != nil {
		c.Fatalf("decode", "ParseData: %v", err)
	}
	for _, types := range [][]reflect.Type{{typ(t), typ(z), typ(z32)}, {anyType, anyType, anyType}} {
		vs, err := dec.UnmarshalArgs(types, data, att)
		if err != nil {
			c.Fatalf("args", "a time and complex numbers for %v: %v", types, err)
		}
		if g, ok := vs[0].Interface().(time.Time); !ok || !g.Equal(t) {
			c.Fatalf("args", "time %v arrives as %v", t, vs[0].Interface())
		}
		if vs[1].Interface() != z || (types[2] != anyType && vs[2].Interface() != z32) {
			c.Fatalf("args", "%v %v arrive as %v %v", z, z32, vs[1].Interface(), vs[2].Interface())
		}
	}
}

func spell(s SP, mp bool, r *rand.Rand) []EP {
	if mp {
		return mpSpell(s, r)
	}
	return sioSpell(s, r)
}

// sioSpell encodes with random choices where the format leaves them: JSON escapes, white space, member order.
func sioSpell(s SP, r *rand.Rand) []EP {
	if s.Type == 0 && r.Intn(3) == 0 { // a client's connect packet may carry a query, which is not part of the name
		if s.Nsp == "" || s.Nsp == "/" {
			return []EP{{Type: 4, Data: []byte("0/" + nspQuery(r))}}
		}
		s.Nsp += nspQuery(r)
	}
	t, att := encSIO(s)
	if (s.Type == 2 || s.Type == 3) && len(s.Args) > 0 && r.Intn(2) == 0 {
		head := t[:strings.IndexByte(t, '[')] // namespaces of the domain have no bracket
		sp := func() string {
			if r.Intn(3) == 0 {
				return []string{" ", "\t", "\n", "  "}[r.Intn(4)]
			}
			return ""
		}
		body := "[" + sp()
		k := 0
		for i, a := range s.Args {
			if i > 0 {
				body += "," + sp()
			}
			switch x := a.(type) {
			case []byte:
				if r.Intn(2) == 0 {
					body += fmt.Sprintf(`{%s"num":%s%d,%s"_placeholder":true%s}`, sp(), sp(), k, sp(), sp())
				} else {
					body += fmt.Sprintf(`{%s"_placeholder":%strue,"num":%d%s}`, sp(), sp(), k, sp())
				}
				k++
			case string:
				body += jsonSpell(x, r)
			default:
				body += string(jsonOf(a))
			}
			body += sp()
		}
		t = head + body + "]"
	}
	out := []EP{{Type: 4, Data: []byte(t)}}
	for _, a := range att {
		out = append(out, EP{Type: 4, Bin: true, Data: a})
	}
	return out
}

func nspQuery(r *rand.Rand) string {
	return []string{"?", "?token=1", "?a=b&c=%20d", "?x=/y?z=[1]", "?1", "?token=a-b.c_d=="}[r.Intn(6)]
}

// jsonSpell writes a JSON string with a random choice of escapes.
func jsonSpell(s string, r *rand.Rand) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, ch := range s {
		switch {
		case ch == '"' || ch == '\\':
			if r.Intn(4) == 0 {
				fmt.Fprintf(&sb, "\\u%04x", ch)
			} else {
				sb.WriteByte('\\')
				sb.WriteRune(ch)
			}
		case ch == '/' && r.Intn(2) == 0:
			sb.WriteString(`\/`)
		case ch == '\n' && r.Intn(2) == 0:
			sb.WriteString(`\n`)
		case ch < 0x20:
			fmt.Fprintf(&sb, "\\u%04X", ch)
		case ch > 0xFFFF && r.Intn(2) == 0:
			ch -= 0x10000
			fmt.Fprintf(&sb, "\\u%04x\\u%04x", 0xD800+ch>>10, 0xDC00+ch&0x3FF)
		case ch <= 0xFFFF && r.Intn(5) == 0:
			fmt.Fprintf(&sb, "\\u%04x", ch)
		default:
			sb.WriteRune(ch)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// mpSpell encodes with random widths, member order and unknown members.
func mpSpell(s SP, r *rand.Rand) []EP {
	if s.Type == 0 || s.Type == 1 || s.Type == 4 {
		return mpFrames(s)
	}
	type kv struct {
		k string
		v interface{}
	}
	m := []kv{{"type", int64(s.Type)}, {"nsp", s.Nsp}, {"data", s.Args}}
	if s.ID != nil {
		m = append(m, kv{"id", *s.ID})
	} else if r.Intn(2) == 0 {
		m = append(m, kv{"id", nil})
	}
	if r.Intn(3) == 0 {
		m = append(m, kv{"options", genMPVal(r, 2)})
	}
	r.Shuffle(len(m), func(i, j int) { m[i], m[j] = m[j], m[i] })
	b := []byte{0x80 | byte(len(m))}
	for _, e := range m {
		b = mpEnc(b, e.k, nil)
		w := r
		if e.k == "type" { // the one member whose width the generated reader of the library fixes
			w = nil
		}
		b = mpEnc(b, e.v, w)
	}
	return []EP{{Type: 4, Bin: true, Data: b}}
}

// codecReject: what cannot be represented or converted is an error and not a wrong value.
func codecReject(c *Ctx, mp bool) {
	o := DuoOpt{MP: mp}
	enc, dec := parserOf(mp).Encoder(), parserOf(mp).Decoder()
	for k := 0; k < 6; k++ {
		bad := []interface{}{make(chan int), func() {}, complex(1, 2), badBlob{}, &badBlob{}, badJSON{}, math.NaN(), math.Inf(1),
			map[string]interface{}{"x": make(chan int)}, []interface{}{[]interface{}{func() {}}}, map[int]chan int{1: nil}}
		if mp {
			bad = []interface{}{make(chan int), func() {}, struct{ A int }{1}, &struct{ A int }{1}, map[string]interface{}{"x": make(chan int)},
				[]interface{}{[]interface{}{func() {}}}, map[int]int{1: 2}, map[string]chan int{"a": nil}, [2]chan int{}}
		}
		as := vals(o.genArgs(c.R, 3))
		x := bad[c.R.Intn(len(bad))]
		i := c.R.Intn(len(as) + 1)
		as = append(as[:i:i], append([]interface{}{x}, as[i:]...)...)
		t := socketio.PacketTypeEvent
		if c.R.Intn(3) == 0 {
			t = socketio.PacketTypeAck
		} else {
			as = append([]interface{}{"ev"}, as...)
		}
		text, bin, err := enc.Encode(&socketio.Packet{Type: t, Namespace: "/", Data: as, ID: uid(3)})
		if err == nil {
			c.Fatalf("encode-bad", "an argument of type %T is encoded without error as %q and %d binary frames", x, clip(string(text), 200), len(bin))
		}
		c.Count("unrepresentable values", 1)
		c.Sig("bad %T %d %d", x, i, len(as))
	}
	if !mp {
		if text, _, err := enc.Encode(&socketio.Packet{Type: 2, Namespace: "/a,b", Data: []interface{}{"e"}}); err == nil {
			ps, _ := sioSplit([]EP{{Type: 4, Data: text}})
			if len(ps) != 1 || ps[0].Nsp != "/a,b" {
				c.Fatalf("encode-bad", "namespace %q is encoded without error as %q", "/a,b", text)
			}
		}
	}
	// a value meeting a parameter it was not made for
	for k := 0; k < 20; k++ {
		a, b := o.genArg(c.R), o.genArg(c.R)
		_, isBin := a.wire.([]byte)
		if !mp && isBin && isBinaryType(b.t) {
			continue
		}
		mix := !mp && (isBin || isBinaryType(b.t))
		if mix && renderWire(a.wire, mp) == "null" {
			continue
		}
		if _, ok := a.wire.([]interface{}); ok && b.t.Kind() == reflect.Array && !mp {
			continue // encoding/json resizes
		}
		if !mp && !mix && !sameKind(a, b.t) {
			continue
		}
		m := model{t: 2, nsp: "/", name: "e", args: []arg{a}}
		fs := spell(m.sp(), mp, c.R)
		for _, f := range fs {
			t := socketio.MessageTypeString
			if f.Bin {
				t = socketio.MessageTypeBinary
			}
			c.Must(dec.Add(t, f.Data), "Add")
		}
		_, data, att, err := dec.ParseData(<-dec.Decoded())
		c.Must(err, "ParseData")
		vs, err := dec.UnmarshalArgs([]reflect.Type{b.t}, data, att)
		c.Count("conversions tried", 1)
		if err != nil {
			c.Count("conversions refused", 1)
			continue
		}
		if mix {
			c.Fatalf("convert", "value %s becomes %s in a parameter of type %v, without an error", renderWire(a.wire, mp), renderGot(vs[0], mp), b.t)
		}
		if x, y := renderWire(a.wire, mp), renderGot(vs[0], mp); x != y {
			if b.want != nil {
				continue // has arrays inside
			}
			if mp && b.t.Kind() == reflect.Array && strings.HasPrefix(y, strings.TrimSuffix(x, "]")) {
				continue // a shorter list leaves the rest of an array as it is
			}
			c.Fatalf("convert", "value %s becomes %s in a parameter of type %v, without an error", x, y, b.t)
		}
		c.Sig("conv %s %v", renderWire(a.wire, mp), b.t)
	}
}

func isBinaryType(t reflect.Type) bool {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t == typ(socketio.Bytes{}) || t == typ(blob{})
}

// sameKind restricts cross conversions of the default parser to numbers, where encoding/json must convert exactly or
// fail.
func sameKind(a arg, t reflect.Type) bool {
	switch a.wire.(type) {
	case int64, uint64:
	default:
		return false
	}
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.Kind() >= reflect.Int && t.Kind() <= reflect.Uint64
}

// codecConn: handlers, emits and acks over a connection.
func codecConn(c *Ctx, mp bool) {
	o := c.genDuo(mp)
	nsps := map[string]bool{"/": true}
	for i := c.R.Intn(3); i > 0; i-- {
		nsps[genNsp(c.R)] = true
	}
	o.Nsps = nil
	for n := range nsps {
		o.Nsps = append(o.Nsps, n)
	}
	sortStrings(o.Nsps)
	type hnd struct {
		m   model
		p   *probe
		ret []arg
	}
	var hs []*hnd
	taken := map[string]bool{}
	d := c.NewDuo(o, func(d *Duo) {
		for i := 3 + c.R.Intn(5); i > 0; i-- {
			m := model{t: 2, nsp: o.Nsps[c.R.Intn(len(o.Nsps))], name: genEvent(c.R), args: o.genArgs(c.R, 4), id: genID(c.R)}
			if taken[m.nsp+"\x00"+m.name] {
				continue
			}
			taken[m.nsp+"\x00"+m.name] = true
			h := &hnd{m: m, ret: o.genArgs(c.R, 3)}
			h.p = newProbe(c, c.R, m.args, mp, vals(h.ret))
			hs = append(hs, h)
			d.Ns(m.nsp).OnEvent(m.name, h.p.fn)
		}
	})
	ids := map[uint64]bool{}
	var wantAcks []string
	for i, h := range hs {
		if h.m.id != nil {
			for ids[*h.m.id] {
				*h.m.id = uint64(c.R.Intn(1 << 30))
			}
			ids[*h.m.id] = true
			wantAcks = append(wantAcks, renderSP(SP{Type: 3, Nsp: h.m.nsp, ID: h.m.id, Args: wires(h.ret)}, mp))
		}
		fs := spell(h.m.sp(), mp, c.R)
		c.Must(d.SendFrames(fs...), "send")
		c.Sig("conn %v", fs)
		if i == 0 {
			c.Sample(map[string]interface{}{"connection": o.String(), "frames": clip(fmt.Sprint(fs), 160)})
		}
	}
	for _, h := range hs {
		h := h
		c.MustAwait("event-lost", fmt.Sprintf("event %q of %s with %v reaches its callback %T (errors %s)", h.m.name, h.m.nsp, h.m.args, h.p.fn, d.Errs()),
			func() bool { return h.p.n() > 0 })
		if a, b := rendered(h.m.args, mp), h.p.last(); a != b {
			c.Fatalf("event-args", "event %q, callback %T:\nwant %s\ngot  %s", h.m.name, h.p.fn, clip(a, 1500), clip(b, 1500))
		}
		c.Count("events", 1)
	}
	c.MustAwait("acks", "all events asking for it are answered", func() bool {
		c.Stop()
		return len(d.sioOut()) >= len(wantAcks)
	})
	var got []string
	for _, p := range d.sioOut() {
		got = append(got, renderSP(p, mp))
	}
	if a, b := strings.Join(wantAcks, "\n"), strings.Join(got, "\n"); a != b {
		c.Fatalf("ack-args", "answers want\n%s\ngot\n%s", clip(a, 2500), clip(b, 2500))
	}
	c.Count("acks sent", len(got))

	// the library emits
	base := len(got)
	n0 := len(d.frames())
	var want []string
	var aps []*probe
	var answers [][]arg
	frames := 0
	for i := 2 + c.R.Intn(5); i > 0; i-- {
		m := model{t: 2, nsp: o.Nsps[c.R.Intn(len(o.Nsps))], name: genEvent(c.R), args: o.genArgs(c.R, 4)}
		va := vals(m.args)
		var ap *probe
		var ans []arg
		if c.R.Intn(2) == 0 {
			ans = o.genArgs(c.R, 3)
			ap = newProbe(c, c.R, ans, mp, nil)
			k := c.R.Intn(len(va) + 1)
			va = append(va[:k:k], append([]interface{}{ap.fn}, va[k:]...)...)
		}
		if c.R.Intn(6) == 0 {
			bad := append(append([]interface{}{}, va...), struct{ C chan int }{})
			if err := d.Emit(m.nsp, m.name, bad...); err == nil {
				c.Fatalf("emit-bad", "emitting a channel returns no error")
			}
		}
		if err := d.Emit(m.nsp, m.name, va...); err != nil {
			c.Fatalf("emit", "Emit(%q, %q, %v): %v", m.nsp, m.name, m.args, err)
		}
		want = append(want, renderSP(m.sp(), mp))
		aps = append(aps, ap)
		answers = append(answers, ans)
		frames++
		for _, w := range wires(m.args) {
			if _, ok := w.([]byte); ok && !mp {
				frames++
			}
		}
	}
	c.MustAwait("emits", "emitted events arrive", func() bool {
		c.Stop()
		return len(d.sioOut()) >= base+len(want)
	})
	c.Soon(3*time.Millisecond, func() bool { return false })
	out := d.sioOut()[base:]
	var ans []SP
	for i, p := range out {
		if i >= len(want) {
			c.Fatalf("emit-args", "an extra packet %s", renderSP(p, mp))
		}
		if (p.ID != nil) != (aps[i] != nil) {
			c.Fatalf("emit-args", "packet %s, want %s with an id: %v", renderSP(p, mp), want[i], aps[i] != nil)
		}
		if p.ID != nil {
			ans = append(ans, SP{Type: 3, Nsp: p.Nsp, ID: p.ID, Args: wires(answers[i])})
		}
		p.ID = nil
		if b := renderSP(p, mp); want[i] != b {
			c.Fatalf("emit-args", "emitted\nwant %s\ngot  %s", clip(want[i], 1500), clip(b, 1500))
		}
		c.Count("emits", 1)
	}
	if n := len(d.frames()) - n0; n != frames {
		c.Fatalf("emit-frames", "%d emitted packets make %d frames, want %d: %v", len(want), n, frames, d.frames()[n0:])
	}
	for _, a := range ans {
		c.Must(d.SendFrames(spell(a, mp, c.R)...), "send")
	}
	for i, ap := range aps {
		if ap == nil {
			continue
		}
		ap := ap
		c.MustAwait("ack-lost", fmt.Sprintf("answer %v reaches its callback %T (errors %s)", answers[i], ap.fn, d.Errs()), func() bool { return ap.n() > 0 })
		if a, b := rendered(answers[i], mp), ap.last(); a != b {
			c.Fatalf("ack-args", "answer, callback %T:\nwant %s\ngot  %s", ap.fn, clip(a, 1500), clip(b, 1500))
		}
		c.Count("acks received", 1)
	}
	if d.NErr("") > 0 {
		c.Fatalf("errors", "errors were reported: %s", d.Errs())
	}
	for _, n := range o.Nsps {
		if d.NErr(n) > 0 {
			c.Fatalf("errors", "errors were reported: %s", d.Errs())
		}
	}
}
