package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"strings"
)

// SP is a Socket.IO packet in the harness's own representation. Args is what follows in data: for events the first
// element is the name. A []byte in Args is a binary attachment.
type SP struct {
	Type byte // 0 connect 1 disconnect 2 event 3 ack 4 error 5 binary event 6 binary ack
	Nsp  string
	ID   *uint64
	Args []interface{} // events and acks
	Data interface{}   // error payload
}

func (p SP) String() string {
	id := ""
	if p.ID != nil {
		id = fmt.Sprint(*p.ID)
	}
	return fmt.Sprintf("{t%d %s #%s %v %v}", p.Type, p.Nsp, id, p.Args, p.Data)
}

type phJSON struct {
	P bool `json:"_placeholder"`
	N int  `json:"num"`
}

func jsonOf(v interface{}) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		panic("harness: " + err.Error())
	}
	return bytes.TrimRight(b.Bytes(), "\n")
}

// encSIO encodes p as socket.io-protocol revision 4 frames: one text frame and the attachments.
func encSIO(p SP) (string, [][]byte) {
	var att [][]byte
	var data []byte
	t := p.Type
	switch {
	case t == 2 || t == 3 || t == 5 || t == 6:
		if p.Args != nil {
			l := make([]interface{}, len(p.Args))
			for i, a := range p.Args {
				if b, ok := a.([]byte); ok {
					l[i] = phJSON{true, len(att)}
					att = append(att, b)
				} else {
					l[i] = a
				}
			}
			data = jsonOf(l)
		}
		if len(att) > 0 && t < 5 {
			t += 3
		}
	case p.Data != nil:
		data = jsonOf(p.Data)
		if p.ID == nil && data[0] >= '0' && data[0] <= '9' {
			data = append([]byte(" "), data...) // or it would be an id
		}
	}
	var sb strings.Builder
	sb.WriteByte('0' + t)
	if t >= 5 {
		fmt.Fprintf(&sb, "%d-", len(att))
	}
	if p.Nsp != "" && p.Nsp != "/" {
		sb.WriteString(p.Nsp)
		sb.WriteByte(',')
	}
	if p.ID != nil {
		sb.WriteString(strconv.FormatUint(*p.ID, 10))
	}
	sb.Write(data)
	return sb.String(), att
}

// sioHead is a decoded text frame.
type sioHead struct {
	Type byte
	Att  int
	Nsp  string
	ID   *uint64
	Data []byte
}

func decSIOHead(s string) (h sioHead, err error) {
	if s == "" || s[0] < '0' || s[0] > '6' {
		return h, errors.New("bad type")
	}
	h.Type = s[0] - '0'
	s = s[1:]
	h.Nsp = "/"
	if h.Type >= 5 {
		i := strings.IndexByte(s, '-')
		if i < 1 {
			return h, errors.New("no attachment count")
		}
		h.Att, err = strconv.Atoi(s[:i])
		if err != nil || h.Att < 0 {
			return h, errors.New("bad attachment count")
		}
		s = s[i+1:]
	}
	if strings.HasPrefix(s, "/") {
		i := strings.IndexByte(s, ',')
		if i < 0 {
			i = len(s)
			h.Nsp, s = s, ""
		} else {
			h.Nsp, s = s[:i], s[i+1:]
		}
		if j := strings.IndexByte(h.Nsp, '?'); j >= 0 {
			h.Nsp = h.Nsp[:j]
		}
	}
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	if i > 0 {
		id, err := strconv.ParseUint(s[:i], 10, 64)
		if err != nil {
			return h, err
		}
		h.ID = &id
		s = s[i:]
	}
	h.Data = []byte(s)
	if s != "" && !json.Valid(h.Data) {
		return h, fmt.Errorf("invalid JSON %q", clip(s, 80))
	}
	return h, nil
}

// sioSplit assembles packets from a frame sequence and checks that every packet's frames are contiguous.
func sioSplit(frames []EP) (out []SP, err error) {
	for i := 0; i < len(frames); i++ {
		f := frames[i]
		if f.Bin {
			return out, fmt.Errorf("frame %d: a binary frame without its text frame", i)
		}
		h, err := decSIOHead(string(f.Data))
		if err != nil {
			return out, fmt.Errorf("frame %d %q: %v", i, clip(string(f.Data), 100), err)
		}
		p := SP{Type: h.Type, Nsp: h.Nsp, ID: h.ID}
		var att [][]byte
		for k := 0; k < h.Att; k++ {
			i++
			if i >= len(frames) {
				return out, errIncomplete
			}
			if !frames[i].Bin {
				return out, fmt.Errorf("frame %d: text frame %q where attachment %d of %q belongs", i, clip(string(frames[i].Data), 80), k, clip(string(f.Data), 80))
			}
			att = append(att, frames[i].Data)
		}
		switch h.Type {
		case 2, 3, 5, 6:
			if len(h.Data) > 0 {
				var l []interface{}
				if err := decodeNumber(h.Data, &l); err != nil {
					return out, fmt.Errorf("frame %d %q: data is no array: %v", i, clip(string(f.Data), 100), err)
				}
				used := 0
				for j := range l {
					if m, ok := l[j].(map[string]interface{}); ok && m["_placeholder"] == true {
						n, err := m["num"].(json.Number).Int64()
						if err != nil || int(n) >= len(att) || n < 0 {
							return out, fmt.Errorf("frame %d: bad placeholder %v", i, m)
						}
						l[j] = att[n]
						used++
					}
				}
				if used != len(att) {
					return out, fmt.Errorf("frame %d %q: %d attachments for %d placeholders", i, clip(string(f.Data), 100), len(att), used)
				}
				p.Args = l
				if l == nil {
					p.Args = []interface{}{}
				}
			}
			if h.Type >= 5 {
				p.Type -= 3
			}
		default:
			if len(h.Data) > 0 {
				if err := decodeNumber(h.Data, &p.Data); err != nil {
					return out, err
				}
			}
		}
		out = append(out, p)
	}
	return out, nil
}

var errIncomplete = errors.New("incomplete packet")

func decodeNumber(b []byte, v interface{}) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	return d.Decode(v)
}

// canon renders a value so that values that are equal as JSON (and attachments) compare equal.
func canon(v interface{}) string {
	switch x := v.(type) {
	case []byte:
		return fmt.Sprintf("bin:%x", x)
	case []interface{}:
		s := make([]string, len(x))
		for i := range x {
			s[i] = canon(x[i])
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("!%v", err)
	}
	var y interface{}
	if err := decodeNumber(b, &y); err != nil {
		return string(b)
	}
	b, _ = json.Marshal(y)
	return string(b)
}
