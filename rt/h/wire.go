package h

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/ugorji/go/codec"
)

// Independent encoders of the drivers: configured here, not taken from the code under test.

type msExt struct{}

func (msExt) ConvertExt(v interface{}) interface{} {
	switch t := v.(type) {
	case *time.Time:
		return floorMs(*t)
	case time.Time:
		return floorMs(t)
	}
	panic("msExt")
}
func floorMs(t time.Time) int64 {
	s, n := t.Unix(), int64(t.Nanosecond())
	return s*1000 + n/1000000
}
func (msExt) UpdateExt(dst, src interface{}) {
	var ms int64
	switch x := src.(type) {
	case int64:
		ms = x
	case uint64:
		ms = int64(x)
	default:
		panic(fmt.Sprintf("time is sent as %T", src))
	}
	s := ms / 1000
	if ms%1000 < 0 {
		s--
	}
	*dst.(*time.Time) = time.Unix(s, (ms-s*1000)*1000000)
}

var (
	JH = func() *codec.JsonHandle {
		h := new(codec.JsonHandle)
		h.MapKeyAsString = true
		h.TimeNotBuiltin = true
		if err := h.SetInterfaceExt(reflect.TypeOf(time.Time{}), 1, msExt{}); err != nil {
			panic(err)
		}
		return h
	}()
	MH = func() *codec.MsgpackHandle {
		h := new(codec.MsgpackHandle)
		h.MapType = reflect.TypeOf(map[string]interface{}(nil))
		h.RawToString = true
		return h
	}()
)

func Handle(enc string) codec.Handle {
	if enc == "msgpack" {
		return MH
	}
	return JH
}

// EncodeOne encodes a single value.
func EncodeOne(enc string, v reflect.Value) []byte {
	var b []byte
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	if v.Type() == timeType { // see JH: the codec bypasses extensions for a bare time
		if enc == "json" {
			return []byte(fmt.Sprint(floorMs(v.Interface().(time.Time))))
		}
	}
	if err := codec.NewEncoderBytes(&b, Handle(enc)).Encode(p.Interface()); err != nil {
		panic(fmt.Sprintf("driver cannot encode %v as %s: %v", v.Type(), enc, err))
	}
	return b
}

// EncodeArray joins encoded elements to an array.
func EncodeArray(enc string, parts [][]byte) []byte {
	if enc == "msgpack" {
		var b bytes.Buffer
		if len(parts) < 16 {
			b.WriteByte(0x90 | byte(len(parts)))
		} else {
			b.WriteByte(0xdc)
			_ = binary.Write(&b, binary.BigEndian, uint16(len(parts)))
		}
		for _, p := range parts {
			b.Write(p)
		}
		return b.Bytes()
	}
	return append(append([]byte("["), bytes.Join(parts, []byte(","))...), ']')
}

type WireErr struct {
	Msg   string      `json:"m"`
	Pkg   string      `json:"p"`
	Type  string      `json:"t"`
	Data  interface{} `json:"d"`
	Cause *WireErr    `json:"c"`
}

// DecodeReply decodes a reply body into tokens, one per declared result.
func DecodeReply(enc string, body []byte, rets []reflect.Type) (toks []string, n int, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	var raw []codec.Raw
	hr := Handle(enc)
	if enc == "msgpack" {
		h := *MH
		h.Raw = true
		hr = &h
	}
	_ = hr
	// split the array
	parts, err := split(enc, body)
	if err != nil {
		return nil, 0, err
	}
	_ = raw
	for i, t := range rets {
		if i >= len(parts) {
			break
		}
		if t.Implements(ErrorType) {
			if enc == "json" {
				if string(parts[i]) == "null" {
					toks = append(toks, "nil")
					continue
				}
				if t == ErrorType {
					toks = append(toks, "E?")
					continue
				}
			} else {
				var we *WireErr
				if err := codec.NewDecoderBytes(parts[i], MH).Decode(&we); err != nil {
					return nil, 0, err
				}
				if we == nil {
					toks = append(toks, "nil")
					continue
				}
				if t == ErrorType {
					s := "E"
					for e := we; e != nil; e = e.Cause {
						s += fmt.Sprintf("%+q", errText(e))
					}
					toks = append(toks, s)
					continue
				}
				var b []byte
				if err := codec.NewEncoderBytes(&b, MH).Encode(we.Data); err != nil {
					return nil, 0, err
				}
				parts[i] = b
			}
		}
		p := reflect.New(t)
		if t == timeType && enc == "json" {
			var ms int64
			if err := codec.NewDecoderBytes(parts[i], JH).Decode(&ms); err != nil {
				return nil, 0, fmt.Errorf("time result: %w", err)
			}
			msExt{}.UpdateExt(p.Interface(), ms)
		} else if err := codec.NewDecoderBytes(parts[i], Handle(enc)).Decode(p.Interface()); err != nil {
			return nil, 0, err
		}
		toks = append(toks, TokV(p.Elem()))
	}
	return toks, len(parts), nil
}

func errText(e *WireErr) string {
	if e.Cause == nil {
		return e.Msg
	}
	return e.Msg + ": " + errText(e.Cause)
}

func split(enc string, body []byte) ([][]byte, error) {
	if enc == "json" {
		s := strings.TrimSpace(string(body))
		if len(s) < 2 || s[0] != '[' || s[len(s)-1] != ']' {
			return nil, errors.New("not an array")
		}
		var parts [][]byte
		depth, str, esc, start := 0, false, false, 1
		for i := 0; i < len(s); i++ {
			ch := s[i]
			switch {
			case str:
				if esc {
					esc = false
				} else if ch == '\\' {
					esc = true
				} else if ch == '"' {
					str = false
				}
			case ch == '"':
				str = true
			case ch == '[' || ch == '{':
				depth++
			case ch == ']' || ch == '}':
				depth--
				if depth == 0 {
					if i != len(s)-1 {
						return nil, errors.New("trailing data")
					}
					if strings.TrimSpace(s[start:i]) != "" {
						parts = append(parts, []byte(strings.TrimSpace(s[start:i])))
					}
				}
			case ch == ',' && depth == 1:
				parts = append(parts, []byte(strings.TrimSpace(s[start:i])))
				start = i + 1
			}
		}
		if depth != 0 || str {
			return nil, errors.New("unbalanced")
		}
		return parts, nil
	}
	if len(body) == 0 {
		return nil, errors.New("empty")
	}
	n, off := 0, 1
	switch b := body[0]; {
	case b&0xf0 == 0x90:
		n = int(b & 0x0f)
	case b == 0xdc && len(body) >= 3:
		n, off = int(binary.BigEndian.Uint16(body[1:])), 3
	default:
		return nil, errors.New("not an array")
	}
	var parts [][]byte
	for i := 0; i < n; i++ {
		l, err := mpLen(body[off:])
		if err != nil {
			return nil, err
		}
		parts = append(parts, body[off:off+l])
		off += l
	}
	if off != len(body) {
		return nil, errors.New("trailing data")
	}
	return parts, nil
}

// mpLen is the length of the first msgpack object in b.
func mpLen(b []byte) (int, error) {
	bad := errors.New("short msgpack")
	if len(b) == 0 {
		return 0, bad
	}
	need := func(n int) (int, error) {
		if len(b) < n {
			return 0, bad
		}
		return n, nil
	}
	multi := func(off, n int) (int, error) {
		for i := 0; i < n; i++ {
			if off > len(b) {
				return 0, bad
			}
			l, err := mpLen(b[off:])
			if err != nil {
				return 0, err
			}
			off += l
		}
		return off, nil
	}
	u := func(w int) int {
		if len(b) < 1+w {
			return 1 << 30
		}
		x := 0
		for i := 0; i < w; i++ {
			x = x<<8 | int(b[1+i])
		}
		return x
	}
	switch c := b[0]; {
	case c < 0x80 || c >= 0xe0 || c == 0xc0 || c == 0xc2 || c == 0xc3:
		return 1, nil
	case c&0xf0 == 0x80:
		return multi(1, 2*int(c&0x0f))
	case c&0xf0 == 0x90:
		return multi(1, int(c&0x0f))
	case c&0xe0 == 0xa0:
		return need(1 + int(c&0x1f))
	case c == 0xc4 || c == 0xd9:
		return need(2 + u(1))
	case c == 0xc5 || c == 0xda:
		return need(3 + u(2))
	case c == 0xc6 || c == 0xdb:
		return need(5 + u(4))
	case c == 0xc7:
		return need(3 + u(1))
	case c == 0xc8:
		return need(4 + u(2))
	case c == 0xc9:
		return need(6 + u(4))
	case c == 0xca || c == 0xce || c == 0xd2:
		return need(5)
	case c == 0xcb || c == 0xcf || c == 0xd3:
		return need(9)
	case c == 0xcc || c == 0xd0:
		return need(2)
	case c == 0xcd || c == 0xd1:
		return need(3)
	case c >= 0xd4 && c <= 0xd8:
		return need(2 + 1<<(c-0xd4))
	case c == 0xdc:
		return multi(3, u(2))
	case c == 0xdd:
		return multi(5, u(4))
	case c == 0xde:
		return multi(3, 2*u(2))
	case c == 0xdf:
		return multi(5, 2*u(4))
	}
	return 0, bad
}
