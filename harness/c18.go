package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/zyxar/socketio"
)

func init() {
	register(&Suite{ID: "C18", Quick: 7000, Deep: 230000, MinNT: 4600, Virtual: true, Extra: true,
		realTime: func(n int) bool { return n%7 != 5 }, Run: runC18,
		Rule: "sequences of faulty and valid packets on joined namespaces, distinct by role, parser, transport, packets sent and emitted, batching and order of scheduling points passed"})
}

// log18 is what the callbacks of one connection did, in order.
type log18 struct {
	mu  sync.Mutex
	all map[string][]string
}

func (l *log18) add(sid, format string, a ...interface{}) {
	l.mu.Lock()
	l.all[sid] = append(l.all[sid], fmt.Sprintf(format, a...))
	l.mu.Unlock()
}

func (l *log18) get(sid string) []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.all[sid]...)
}

// item18 is a packet sent by the peer, with the entries it adds to the log and the answers it gets.
type item18 struct {
	what    string
	fs      []EP
	effects []string
	answer  string // rendered ack
	then    bool   // a valid packet must come next
}

type gen18 struct {
	c     *Ctx
	r     *rand.Rand
	d     *Duo
	id    uint64
	asked []*SP // questions of the library not yet answered
	away  bool  // "/a" is left
}

func text18(s string) []EP { return []EP{{Type: 4, Data: []byte(s)}} }
func bin18(b []byte) EP    { return EP{Type: 4, Bin: true, Data: b} }

func (g *gen18) pick(l ...string) string { return l[g.r.Intn(len(l))] }

func (g *gen18) nsp() string {
	if g.away || g.r.Intn(2) == 0 {
		return "/"
	}
	return "/a"
}

func (g *gen18) newID() *uint64 {
	if g.r.Intn(2) == 0 {
		return nil
	}
	g.id++
	return uid(g.id)
}

// valid makes a packet that fits.
func (g *gen18) valid() item18 {
	r, nsp := g.r, g.nsp()
	if len(g.asked) > 0 && r.Intn(3) == 0 {
		a := g.asked[0]
		g.asked = g.asked[1:]
		n, s := r.Intn(1000), genStr(r)
		return item18{what: "ack", fs: g.spell(SP{Type: 3, Nsp: a.Nsp, ID: a.ID, Args: []interface{}{int64(n), s}}),
			effects: []string{fmt.Sprintf("ack %s %d %d %q", a.Nsp, *a.ID, n, s)}}
	}
	ev := func(name, call string, ret []interface{}, args ...interface{}) item18 {
		p := SP{Type: 2, Nsp: nsp, ID: g.newID(), Args: append([]interface{}{name}, args...)}
		it := item18{what: "event " + name, fs: g.spell(p), effects: []string{"call " + nsp + " " + name + " " + call}}
		if p.ID != nil {
			it.answer = fmt.Sprintf("%s %d %s", nsp, *p.ID, renderWires(ret, g.d.MP))
		}
		return it
	}
	switch r.Intn(9) {
	case 0:
		s := genStr(r)
		return ev("ok", fmt.Sprintf("%q", s), []interface{}{s}, s)
	case 1:
		n := r.Intn(1 << 30)
		return ev("num", fmt.Sprint(n), nil, int64(n))
	case 2:
		s := genStr(r)
		return ev("two", fmt.Sprintf("%q map[k:7]", s), nil, s, map[string]interface{}{"k": int64(7)})
	case 3:
		s, b := genStr(r), genBytes(r, r.Intn(40))
		return ev("bin", fmt.Sprintf("%q %x", s, b), []interface{}{b}, s, b)
	case 4:
		return ev("list", "[a b]", nil, []interface{}{"a", "b"})
	case 5:
		n := r.Intn(256)
		return ev("sock", fmt.Sprint(nsp, " ", n), nil, int64(n))
	case 6:
		v := genJSON(r, 2)
		if r.Intn(8) == 0 {
			v = nil
		}
		if r.Intn(3) == 0 { // whether it is joined or not: that is how joining is refused
			nsp = "/a"
		}
		return item18{what: "error packet", fs: g.spell(SP{Type: 4, Nsp: nsp, Data: v}), effects: []string{"errpkt " + nsp + " " + canon(v)}}
	case 7:
		if r.Intn(2) == 0 { // once more
			return item18{what: "connect", fs: g.spell(SP{Type: 0, Nsp: nsp})}
		}
		return ev("none", "", nil)
	default:
		for _, a := range g.asked {
			if a.Nsp == "/a" { // keep what is awaited there
				return ev("none", "", nil)
			}
		}
		g.away = !g.away
		if g.away {
			return item18{what: "disconnect", fs: g.spell(SP{Type: 1, Nsp: "/a"}), effects: []string{"disc /a"}}
		}
		return item18{what: "connect /a", fs: g.spell(SP{Type: 0, Nsp: "/a"}), effects: []string{"conn /a"}}
	}
}

func (g *gen18) spell(p SP) []EP { return spell(p, g.d.MP, g.r) }

func top18(what string, fs ...EP) item18 {
	it := item18{what: what, fs: fs}
	for range fs {
		it.effects = append(it.effects, "top")
	}
	return it
}

// misfits is what the parameters of events do not take.
func (g *gen18) misfit() (name string, args []interface{}) {
	obj := map[string]interface{}{"a": "x"}
	l := []interface{}{"x"}
	num := int64(g.r.Intn(100))
	any := func(l ...interface{}) interface{} { return l[g.r.Intn(len(l))] }
	switch g.r.Intn(7) {
	case 0:
		if !g.d.MP && g.r.Intn(5) == 0 {
			return "ok", []interface{}{[]byte("bin")}
		}
		return "ok", []interface{}{any(num, true, obj, l, 1.5)}
	case 1:
		return "num", []interface{}{any("x", true, obj, l, 1.5, "7", []byte{1, 2})}
	case 2:
		return "two", []interface{}{any("x", num), any(obj, "x", l, true)}
	case 3:
		return "bin", []interface{}{"x", any(num, true, obj, 1.5)}
	case 4:
		return "list", []interface{}{any("x", num, true, obj, []interface{}{num, "x"}, []interface{}{"x", l})}
	case 5:
		return "sock", []interface{}{any(int64(256), int64(-1), "x", 2.5, true, l)}
	default:
		return "bin", []interface{}{any(num, true, obj, l), []byte{1}}
	}
}

// faulty makes a packet that is to be reported and to have no other effect.
func (g *gen18) faulty() item18 {
	r, nsp := g.r, g.nsp()
	ns := []string{"err " + nsp}
	if r.Intn(3) == 0 {
		name, args := g.misfit()
		return item18{what: "misfit " + name + fmt.Sprintf(" %T", args[len(args)-1]), effects: ns,
			fs: g.spell(SP{Type: 2, Nsp: nsp, ID: g.newID(), Args: append([]interface{}{name}, args...)})}
	}
	if r.Intn(8) == 0 { // the callback returns what cannot be sent
		k := r.Intn(100)
		it := item18{what: fmt.Sprint("odd ", k), effects: []string{fmt.Sprintf("call %s odd %d", nsp, k)}}
		p := SP{Type: 2, Nsp: nsp, ID: g.newID(), Args: []interface{}{"odd", int64(k)}}
		if p.ID != nil {
			it.effects = append(it.effects, "err "+nsp)
		}
		it.fs = g.spell(p)
		return it
	}
	if len(g.asked) > 0 && r.Intn(4) == 0 {
		a := g.asked[0]
		g.asked = g.asked[1:]
		bad := [][]interface{}{{"x", "y"}, {int64(1), int64(2)}, {map[string]interface{}{}, "y"}, {1.5, "x"}, {true, "x"}, {[]byte("b"), "y"}, {int64(1), []byte("b")}}[r.Intn(7-b2i(g.d.MP))]
		return item18{what: "misfit ack", fs: g.spell(SP{Type: 3, Nsp: a.Nsp, ID: a.ID, Args: bad}), effects: []string{"err " + a.Nsp}}
	}
	if len(g.asked) > 0 && r.Intn(6) == 0 { // the callback stays, for a proper answer
		a := g.asked[r.Intn(len(g.asked))]
		it := item18{what: "ack without arguments", effects: []string{"err " + a.Nsp}}
		if g.d.MP {
			it.fs = []EP{bin18(mpEnc(nil, map[string]interface{}{"type": int64(3), "nsp": a.Nsp, "id": *a.ID}, r))}
		} else {
			head := ""
			if a.Nsp != "/" {
				head = a.Nsp + ","
			}
			it.fs = text18(fmt.Sprint("3", head, *a.ID))
		}
		return it
	}
	if g.d.MP {
		return g.faultyMP(nsp, ns)
	}
	return g.faultyText(nsp, ns)
}

func (g *gen18) faultyText(nsp string, ns []string) item18 {
	r := g.r
	head := ""
	if nsp != "/" {
		head = nsp + ","
	}
	if r.Intn(2) == 0 {
		g.id++
		head += fmt.Sprint(g.id)
	}
	const ph = `{"_placeholder":true,"num":0}`
	switch r.Intn(6) {
	case 0: // no packet
		if r.Intn(6) == 0 { // an id beyond 64 bits
			h := ""
			if nsp != "/" {
				h = nsp + ","
			}
			s := g.pick("2", "2", "3") + h + beyond64(r, uint64(r.Intn(5))) + g.pick(`["ok","x"]`, "[]")
			return top18("text "+s, text18(s)...)
		}
		s := g.pick("", "7", "8[]", "x", "/", "[", " 2", "\x00", "9/a,", "-1", "\"", "é", "2"+head+"{}", "2"+head+"x", "2"+head+"\"ok\"", "2"+head+" [\"ok\",\"x\"]", "3"+head+"{}",
			"4"+"{", "4/a,[1", "0/a,{", "1/a,{", "1/a,x", "0x", "4nul", "2/%zz,[\"ok\",\"x\"]", "2/a%,[]", "4\"x")
		return top18("text "+s, text18(s)...)
	case 1: // stray binary frame
		return top18("stray binary", bin18(genBytes(r, r.Intn(30))))
	case 2: // impossible binary header, without attachments
		s := g.pick("51-"+head+`["bin","x"]`, "52-"+head+`["bin","x",`+ph+`]`, "50-"+head+`["bin","x",`+ph+`]`, "5a-"+head+"[]", "51-", "51-"+head, "51-"+head+"x", "5[", "61-"+head+`["x"]`, "60-"+head+`[`+ph+`]`,
			"53-"+head+`["bin",`+ph+`,`+ph+`]`, "5x", "5-1-[]",
			"5"+beyond64(r, 1)+"-"+head+`["bin","x",`+ph+`]`, "6"+beyond64(r, 1)+"-"+head+`[`+ph+`]`)
		if s == "5-1-[]" { // an id? no
			s = "5:-[]"
		}
		return top18("header "+s, text18(s)...)
	case 3: // attachments that do not come
		k := 1 + r.Intn(3)
		s := fmt.Sprintf("5%d-%s%s", k, head, `["bin","x"`)
		for i := 0; i < k; i++ {
			s += fmt.Sprintf(`,{"_placeholder":true,"num":%d}`, i)
		}
		fs := text18(s + "]")
		for i := r.Intn(k); i > 0; i-- {
			fs = append(fs, bin18([]byte("att")))
		}
		return item18{what: fmt.Sprint("incomplete ", k, len(fs)), fs: fs, effects: []string{"top"}, then: true}
	case 4: // an attachment that is not there
		return item18{what: "wrong num", fs: append(text18("51-"+head+`["bin","x",{"_placeholder":true,"num":`+g.pick("1", "7", "99999999999999999999")+`}]`), bin18([]byte("b"))), effects: ns}
	default: // no event, or arguments that are no JSON
		s := g.pick(`[]`, `[""]`, `[1]`, `[null,"x"]`, `["ok`, `["ok"`, `["ok","x"`, `["ok","x",]`, `["ok","x"]]`, `["ok","x"`+"\n", `["num" 1]`, `["none",]`, `["none" x]`, `["num",01]`, `["ok","\x"]`, `["o\k","x"]`,
			`["ok",'x']`, `[ok,"x"]`, `[["ok"],"x"]`, `[{"ok":1}]`, `["ok",x]`, `["two","x",{k:1}]`, `["two","x",{"k":}]`, `["num",+1]`, `["num",NaN]`, `["ok","x"}`, `[,"ok"]`, `["none"`, `["none"]x`, "[\"ok\",\"a\nb\"]")
		if r.Intn(6) == 0 {
			s = ""
		}
		return item18{what: "data " + s, fs: text18("2" + head + s), effects: ns}
	}
}

func (g *gen18) faultyMP(nsp string, ns []string) item18 {
	r := g.r
	m := func(kv ...interface{}) []byte {
		x := map[string]interface{}{}
		for i := 0; i < len(kv); i += 2 {
			x[kv[i].(string)] = kv[i+1]
		}
		return mpEnc(nil, x, r)
	}
	switch r.Intn(4) {
	case 0: // no packet
		s := g.pick("", "2", "x", "{", "[]x", "{]", `"x"`, "7", "[1]", `{"type":"x"}`, `{"type":-1}`, `{"type":300}`, `{"type":2,"nsp":7}`, `{"type":2,"id":"x"}`, `{"type":4,"nsp":"/","data":}`, "nul", `{"type":1,"nsp":"/a"`)
		return top18("text "+s, text18(s)...)
	case 1:
		ok := m("type", int64(2), "nsp", nsp, "data", []interface{}{"ok", "x"})
		var b []byte
		what := r.Intn(7)
		switch what {
		case 0:
			b = ok[:r.Intn(len(ok))]
		case 1:
			b = []byte{0xc1}
		case 2:
			b = mpEnc(nil, []interface{}{int64(2), nsp}, r)
		case 3:
			b = m("type", "x", "nsp", nsp)
		case 4:
			b = m("type", int64(2), "nsp", int64(7), "data", []interface{}{"ok", "x"})
		case 5:
			b = m("type", int64(2), "nsp", nsp, "id", "x", "data", []interface{}{"ok", "x"})
		default:
			b = append(m("type", int64(2), "nsp", nsp), 0)
			b = []byte{0x81, 0xa4, 't', 'y', 'p', 'e', 0xcd, 1, 0x2c}
		}
		return top18(fmt.Sprint("binary ", what, len(b)), bin18(b))
	case 2: // another type
		return item18{what: "type", fs: []EP{bin18(m("type", int64(7+r.Intn(249)), "nsp", nsp, "data", []interface{}{"ok", "x"}))}, effects: ns}
	default: // no event
		var data interface{}
		switch r.Intn(7) {
		case 0:
			data = []interface{}{}
		case 1:
			data = []interface{}{""}
		case 2:
			data = []interface{}{int64(1), "x"}
		case 3:
			data = "ok"
		case 4:
			data = map[string]interface{}{"ok": "x"}
		case 5:
			data = []interface{}{nil, "x"}
		case 6:
			return item18{what: "no data", fs: []EP{bin18(m("type", int64(2), "nsp", nsp))}, effects: ns}
		}
		return item18{what: fmt.Sprintf("data %T", data), fs: []EP{bin18(m("type", int64(2), "nsp", nsp, "data", data))}, effects: ns}
	}
}

func runC18(c *Ctx) {
	if c.S.Virtual {
		longHistory(c)
		return
	}
	c.Perturb("server.process", "client.process", "socket.emit", "server.reader.handle", "emitter.submit", "ack.found")
	o := c.genDuo(c.R.Intn(3) == 0)
	lg := &log18{all: map[string][]string{}}
	before := 0
	d0 := c.NewDuo(o, func(d *Duo) {
		if o.Client && c.R.Intn(2) == 0 { // undecodable frames right after the handshake
			g := &gen18{c: c, r: c.R, d: d}
			for i := 1 + c.R.Intn(4); i > 0; {
				it := g.faulty()
				if len(it.effects) != len(it.fs) || it.then || it.effects[0] != "top" {
					continue
				}
				d.before = append(d.before, it.fs...)
				before += len(it.fs)
				i--
			}
		}
		d.OnTop = func() {
			d.mu.Lock()
			one := d.OnConn == nil
			d.mu.Unlock()
			if one { // a server's callback does not tell whose fault it is
				lg.add("top", "top")
			}
		}
		d.OnErr = func(nsp string, so socketio.Socket) {
			d.mu.Lock()
			l := d.errs[so.Sid()+nsp]
			e := l[len(l)-1]
			d.mu.Unlock()
			if _, ok := e.(error); ok {
				lg.add(so.Sid(), "err %s", nsp)
			} else if e != "fence" {
				lg.add(so.Sid(), "errpkt %s %s", nsp, canon(e))
			}
			if so.Namespace() != nsp {
				c.Failf("socket", "an error of namespace %s is reported with the socket of %s", nsp, so.Namespace())
			}
		}
		register18(d.Ns, o.MP, lg)
	})
	if n := len(lg.get("top")); n != before {
		c.Fatalf("reports", "%d errors are reported to the client, where %d undecodable frames were sent before its connect packet (%v)", n, before, d0.before)
	}
	c.Count("undecodable frames before the connect packet", before)
	ds := []*Duo{d0}
	if d0.srv != nil && c.R.Intn(3) == 0 {
		ds = append(ds, d0.Another())
	}
	// the connections are there: from here on connects and disconnects are logged, and callbacks of the server alone
	// cannot be told apart
	d0.mu.Lock()
	d0.OnConn = func(nsp string, so socketio.Socket) { lg.add(so.Sid(), "conn %s", nsp) }
	d0.OnDisc = func(nsp string, so socketio.Socket) { lg.add(so.Sid(), "disc %s", nsp) }
	d0.OnTop = func() {
		if len(ds) == 1 {
			lg.add(d0.sid, "top")
		} else {
			lg.add("top", "top")
		}
	}
	d0.mu.Unlock()
	var wg Group
	desc := make([]string, len(ds))
	tops := make([]int, len(ds))
	for i, d := range ds {
		i, d, r := i, d, rand.New(rand.NewSource(c.R.Int63()))
		c.Go(&wg, func() { desc[i], tops[i] = c18Drive(c, d, lg, r, len(ds) == 1) })
	}
	c.MustAwait("stall", "the packets are processed", func() bool { return done(&wg) })
	c.Stop()
	if len(ds) > 1 {
		want := 0
		for _, n := range tops {
			want += n
		}
		if n := len(lg.get("top")); n != want {
			c.Fatalf("reports", "%d errors are reported to the server, where %d undecodable frames were sent on %d connections", n, want, len(ds))
		}
	}
	c.Sig("%s %s %x", o, desc, interleaving())
}

// unencodable is a value that the format has no encoding for.
func unencodable(k int, mp bool) interface{} {
	ch := make(chan int)
	l := []interface{}{ch, map[string]interface{}{"a": ch}, []interface{}{"x", ch}, func() {}, []interface{}{map[string]interface{}{"a": []interface{}{1, ch}}}, math.NaN(), math.Inf(1), map[string]interface{}{"a": math.NaN()}}
	if mp {
		l = l[:5]
	}
	return l[k%len(l)]
}

// register18 registers the event callbacks gen18 has packets for.
func register18(nsp func(string) socketio.Namespace, mp bool, lg *log18) {
	for _, n := range []string{"/", "/a"} {
		n := n
		on := func(so socketio.Socket, ev, format string, a ...interface{}) {
			lg.add(so.Sid(), "call "+n+" "+ev+" "+format, a...)
		}
		ns := nsp(n)
		ns.OnEvent("ok", func(so socketio.Socket, s string) string { on(so, "ok", "%q", s); return s }).
			OnEvent("num", func(so socketio.Socket, k int) { on(so, "num", "%d", k) }).
			OnEvent("two", func(so socketio.Socket, s string, m map[string]int) { on(so, "two", "%q %v", s, m) }).
			OnEvent("list", func(so socketio.Socket, l []string) { on(so, "list", "%v", l) }).
			OnEvent("sock", func(k uint8, so socketio.Socket) { on(so, "sock", "%s %d", so.Namespace(), k) }).
			OnEvent("odd", func(so socketio.Socket, k int) (string, interface{}, interface{}) {
				on(so, "odd", "%d", k)
				return "odd", unencodable(k, mp), "odd"
			}).
			OnEvent("none", func(so socketio.Socket) { on(so, "none", "") })
		if mp {
			ns.OnEvent("bin", func(so socketio.Socket, s string, b []byte) []byte {
				b = append([]byte(nil), b...)
				on(so, "bin", "%q %x", s, b)
				return nonNil(b)
			})
		} else {
			ns.OnEvent("bin", func(so socketio.Socket, s string, b socketio.Bytes) *socketio.Bytes {
				on(so, "bin", "%q %x", s, b.Data)
				return &b
			})
		}
	}
}

func c18Drive(c *Ctx, d *Duo, lg *log18, r *rand.Rand, single bool) (desc string, tops int) {
	g := &gen18{c: c, r: r, d: d}
	var want, answers, sent []string
	var fs []EP
	emitted := map[string][]string{}
	conns := map[string]int{}
	for _, p := range g.packets() {
		if p.Type == 0 {
			conns[p.Nsp]++
		}
	}
	flush := func() {
		if len(fs) == 0 {
			return
		}
		if d.ws == nil && d.srv != nil && r.Intn(6) == 0 {
			if !d.upgrade10() {
				c.Fatalf("upgrade", "an upgrade fails")
			}
			c.Count("upgrades", 1)
		}
		for len(fs) > 0 {
			k := 1 + r.Intn(len(fs))
			if err := d.SendFrames(fs[:k]...); err != nil {
				c.Fatalf("ended", "the connection was ended: %v\nafter: %s", err, strings.Join(sent, ", "))
			}
			fs = fs[k:]
		}
	}
	n := 2 + r.Intn(25)
	for then := false; n > 0 || then; n-- {
		var it item18
		switch k := r.Intn(12); {
		case then:
			it = g.valid()
		case k == 0: // the library asks
			flush()
			nsp := g.nsp()
			if nsp == "/a" && !d.fence18(lg) {
				return
			}
			seen := len(g.questions())
			if err := d.Emit(nsp, "q", func(so socketio.Socket, id int, s string) {
				lg.add(d.sid, "ack %s %s %d %q", so.Namespace(), "?", id, s)
			}); err != nil {
				c.Fatalf("emit", "Emit to %s returns %v", nsp, err)
			}
			c.MustAwait("emit-stall", "an emit arrives", func() bool { return len(g.questions()) > seen })
			q := g.questions()
			g.asked = append(g.asked, &q[len(q)-1])
			continue
		case k == 1: // the library emits an error
			flush()
			nsp := g.nsp()
			if nsp == "/a" && !d.fence18(lg) {
				return
			}
			v := genJSON(r, 2)
			if r.Intn(3) == 0 {
				v := unencodable(r.Intn(100), d.MP)
				if d.MP { // error packets are JSON
					v = unencodable(r.Intn(100), false)
				}
				k := r.Intn(100)
				if _, ok := unencodable(k, d.MP).(func()); ok { // taken for a callback
					k = 0
				}
				if err := d.Sock(nsp).EmitError(v); err == nil {
					c.Fatalf("emit", "EmitError of %T to %s returns no error", v, nsp)
				}
				if err := d.Sock(nsp).Emit("x", "y", unencodable(k, d.MP)); err == nil {
					c.Fatalf("emit", "Emit of what cannot be encoded to %s returns no error", nsp)
				}
				c.Count("emits that cannot be encoded", 2)
				continue
			}
			if err := d.Sock(nsp).EmitError(v); err != nil {
				c.Fatalf("emit", "EmitError to %s returns %v", nsp, err)
			}
			emitted[nsp] = append(emitted[nsp], canon(v))
			continue
		case k < 7:
			it = g.faulty()
			c.Count("faulty packets", 1)
		default:
			it = g.valid()
			c.Count("valid packets", 1)
		}
		then = it.then
		sent = append(sent, it.what)
		fs = append(fs, it.fs...)
		for _, e := range it.effects {
			if e == "top" {
				tops++
				if !single {
					continue
				}
			}
			want = append(want, e)
		}
		if it.answer != "" {
			answers = append(answers, it.answer)
		}
		if strings.HasPrefix(it.what, "connect") && d.srv != nil {
			conns[map[bool]string{true: "/a", false: "?"}[it.what == "connect /a"]]++
		}
		if !then && r.Intn(3) == 0 {
			flush()
		}
	}
	flush()
	if !d.fence18(lg) {
		return
	}
	if k := r.Intn(4); k == 0 {
		c.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
	}
	got := lg.get(d.sid)
	for i := range want { // the callback does not know its id
		if f := strings.SplitN(want[i], " ", 4); f[0] == "ack" {
			want[i] = fmt.Sprintf("ack %s ? %s", f[1], f[3])
		}
	}
	if !equalStrings(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		at := func(l []string) string {
			if i < len(l) {
				return l[i]
			}
			return "nothing"
		}
		c.Fatalf("effects", "%s: after %d effects in order there is %q where %q is due\npackets sent: %q\neffects: %q\ndue: %q", d.DuoOpt, i, at(got), at(want), sent, got, want)
	}
	var acks []string
	errs := map[string][]string{}
	settled := func() bool {
		acks, errs = nil, map[string][]string{}
		for _, p := range g.packets() {
			switch p.Type {
			case 3:
				if p.ID != nil {
					acks = append(acks, fmt.Sprintf("%s %d %s", p.Nsp, *p.ID, renderWires(p.Args, d.MP)))
				}
			case 4:
				if p.Nsp != "/nowhere" {
					errs[p.Nsp] = append(errs[p.Nsp], canon(p.Data))
				}
			}
		}
		return len(acks) >= len(answers) && len(errs["/"]) >= len(emitted["/"]) && len(errs["/a"]) >= len(emitted["/a"])
	}
	if !c.await(settled, stallTime, stallSteps) {
		c.Failf("answers", "%s: of the answers %q and errors %v the peer has only received %q and %v\npackets sent: %q", d.DuoOpt, answers, emitted, acks, errs, sent)
		return
	}
	if !equalStrings(acks, answers) {
		c.Fatalf("answers", "%s: the peer received the acknowledgements %q, due were %q\npackets sent: %q", d.DuoOpt, acks, answers, sent)
	}
	for _, n := range []string{"/", "/a"} {
		if !equalStrings(errs[n], emitted[n]) {
			c.Fatalf("error-emits", "%s: the peer received the errors %q of %s, emitted were %q", d.DuoOpt, errs[n], n, emitted[n])
		}
	}
	c.Count("effects checked", len(want))
	c.Count("answers checked", len(answers))
	c.Count("error emits checked", len(emitted["/"])+len(emitted["/a"]))
	return strings.Join(sent, ","), tops
}

func equalStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (g *gen18) packets() []SP {
	ps, err := g.d.Packets()
	if err != nil {
		g.c.Fatalf("frames", "the peer received frames that are no packet sequence: %v", err)
	}
	return ps
}

// questions are the emits with callbacks that have arrived.
func (g *gen18) questions() (out []SP) {
	for _, p := range g.packets() {
		if p.Type == 2 && p.ID != nil {
			out = append(out, p)
		}
	}
	return
}

// fence18 waits until what the peer has sent has been processed.
func (d *Duo) fence18(lg *log18) bool {
	d.c.fence11(d)
	return !d.c.Failed()
}
