// Package h is the part of the drivers that service packages and drivers share: the recording hook,
// the registry types, canonical value tokens and the seeded value generator.
package h

import (
	"crypto/tls"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"net/http"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// Hook receives every call of a service implementation and supplies its results.
type Hook func(svc, method string, w http.ResponseWriter, r *http.Request, args []interface{}) []interface{}

func Call(h Hook, svc, method string, w http.ResponseWriter, r *http.Request, args []interface{}) []interface{} {
	return h(svc, method, w, r, args)
}

func Ret[T any](rs []interface{}, i int) T {
	var z T
	if i >= len(rs) || rs[i] == nil {
		return z
	}
	return rs[i].(T)
}

type Method struct {
	Name    string
	Session bool
	Args    []reflect.Type
	Rets    []reflect.Type
}

type Service struct {
	Name, Pkg, Endpoint string
	NewProxy            func(hook Hook) http.Handler
	NewProxyAt          func(hook Hook, ep string) http.Handler
	NewClient           func(url string, c *http.Client) interface{}
	NewClientAt         func(url, ep string, c *http.Client) interface{}
	NewGoRPCProxy       func(addr string, hook Hook, t *tls.Config) interface{}
	NewGoRPCClient      func(addr string, t *tls.Config) interface{}
	Methods             []*Method
}

func (s *Service) Method(name string) *Method {
	for _, m := range s.Methods {
		if m.Name == name {
			return m
		}
	}
	return nil
}

var (
	ErrorType = reflect.TypeOf((*error)(nil)).Elem()
	timeType  = reflect.TypeOf(time.Time{})
)

// ---------------------------------------------------------------- tokens

// Tok is a canonical rendering of a Go value: equal tokens mean equal values, nil and empty differ.
// Long renderings are replaced by length and digest.
func Tok(v interface{}) string { return TokV(reflect.ValueOf(v)) }

func TokV(v reflect.Value) string {
	var b strings.Builder
	canon(&b, v, 0)
	s := b.String()
	if len(s) > 160 {
		sum := sha256.Sum256([]byte(s))
		return fmt.Sprintf("#%d:%s", len(s), hex.EncodeToString(sum[:10]))
	}
	return s
}

func Toks(vs []interface{}) []string {
	r := make([]string, len(vs))
	for i, v := range vs {
		r[i] = Tok(v)
	}
	return r
}

func canonErr(b *strings.Builder, e error) {
	b.WriteString("E")
	for e != nil {
		b.WriteString(strconv.QuoteToASCII(e.Error()))
		e = errors.Unwrap(e)
	}
}

func canon(b *strings.Builder, v reflect.Value, d int) {
	if d > 200 {
		b.WriteString("DEEP")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.Type() == ErrorType || (d == 0 && v.Type().Implements(ErrorType) && v.Kind() == reflect.Ptr && v.Type().Elem().PkgPath() != "" && !strings.HasPrefix(v.Type().Elem().PkgPath(), "example.com/fx/")) {
		if (v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr) && v.IsNil() {
			b.WriteString("nil")
			return
		}
		canonErr(b, v.Interface().(error))
		return
	}
	if v.Type() == timeType {
		t := v.Interface().(time.Time)
		fmt.Fprintf(b, "T%d.%09d", t.Unix(), t.Nanosecond())
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if f == math.Trunc(f) && math.Abs(f) < 1e15 {
			b.WriteString(strconv.FormatInt(int64(f), 10) + "f")
		} else {
			b.WriteString(strconv.FormatFloat(f, 'g', -1, 64) + "f")
		}
	case reflect.String:
		b.WriteString(strconv.QuoteToASCII(v.String()))
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "x%x", v.Bytes())
			return
		}
		fallthrough
	case reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(",")
			}
			canon(b, v.Index(i), d+1)
		}
		b.WriteString("]")
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		var ks []string
		for _, k := range v.MapKeys() {
			var kb strings.Builder
			canon(&kb, k, d+1)
			kb.WriteString(":")
			canon(&kb, v.MapIndex(k), d+1)
			ks = append(ks, kb.String())
		}
		sort.Strings(ks)
		b.WriteString("{" + strings.Join(ks, ",") + "}")
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		canon(b, v.Elem(), d+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if k := v.Elem().Kind(); d > 0 && (k == reflect.Map || k == reflect.Slice) {
			// what a value without a type arrives as is part of it
			b.WriteString(strings.ReplaceAll(v.Elem().Type().String(), " ", ""))
		}
		canon(b, v.Elem(), d+1)
	case reflect.Struct:
		b.WriteString("<")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" && !v.Type().Field(i).Anonymous {
				continue
			}
			if i > 0 {
				b.WriteString(",")
			}
			canon(b, v.Field(i), d+1)
		}
		b.WriteString(">")
	default:
		b.WriteString(v.Kind().String())
	}
}

// ---------------------------------------------------------------- random values

// Rand is a splitmix64 generator (stable across Go versions).
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed*0x9E3779B97F4A7C15 + 0x1234567} }
func (r *Rand) U() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) N(n int) int { return int(r.U() % uint64(n)) }
func (r *Rand) P(pct int) bool { return r.N(100) < pct }

var strPool = []string{"", "a", "A", "ab", "hello world", " lead", "trail ", "ü", "日本語", "🚀🚀", "\u2028\u2029", "<b>&amp;</b>", "\"q\"", "back\\slash", "\x00", "\x01\x1f\x7f",
	"\n\r\t", "null", "true", "0", "-1", "[]", "{}", "[1,2]", "é́", "%48ello", "a/b/c", "\ufeffbom", "𝔘", "'"}

// Tag is put into generated strings so that the values of different calls differ.
type GenOpts struct {
	Tag      string // prefix for strings (unique per call and position)
	MsTimes  bool   // times with whole milliseconds only
	Finite   bool
	Plain    bool // short printable strings
	MaxDepth int
	Big      bool // allow large values
	// Pick: types whose values are taken from a list
	Pick map[reflect.Type][]interface{}
	// Unions: exactly one member of a union is set
	Unions bool
	// NoNilEmbed: embedded pointers are set
	NoNilEmbed bool
}

func (r *Rand) Str(o GenOpts) string {
	if o.Plain {
		return o.Tag + "s" + strconv.Itoa(r.N(1000))
	}
	s := ""
	switch r.N(12) {
	case 0, 1, 2, 3, 4:
		s = strPool[r.N(len(strPool))]
	case 5, 6, 7:
		s = strPool[r.N(len(strPool))] + strPool[r.N(len(strPool))]
	case 8:
		// lengths around the encoding boundaries of the codecs
		n := []int{31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 1023, 4095, 4096, 4097}[r.N(14)]
		s = strings.Repeat("z", n)
	case 9:
		if o.Big {
			n := []int{32767, 32768, 65535, 65536, 70001, 131073}[r.N(6)]
			s = strings.Repeat("0123456789abcdef", n/16+1)[:n]
		} else {
			s = strconv.FormatUint(r.U(), 36)
		}
	default:
		n := r.N(20)
		for i := 0; i < n; i++ {
			c := rune(r.N(0x2500))
			if r.P(10) {
				c = rune(0x1F300 + r.N(200))
			}
			if utf8.ValidRune(c) {
				s += string(c)
			}
		}
	}
	return o.Tag + s
}

var i64Pool = []int64{0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64, math.MinInt64, 31, -32, -33}
var f64Pool = []float64{0, 1, -1, 0.1, -0.5, 1e-7, 1e21, 1.5e300, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, 123456789.125, 1 << 53}

// Gen produces a random value of the type.
func (r *Rand) Gen(t reflect.Type, o GenOpts) reflect.Value {
	v := reflect.New(t).Elem()
	d := o.MaxDepth
	if d == 0 {
		d = 4
	}
	r.fill(v, o, d, false)
	return v
}

func (r *Rand) fill(v reflect.Value, o GenOpts, d int, omit bool) {
	t := v.Type()
	if l := o.Pick[t]; len(l) > 0 {
		v.Set(reflect.ValueOf(l[r.N(len(l))]))
		return
	}
	if t == timeType {
		sec := int64(r.U()%(250000000000)) - 62135596800
		ns := int64(r.N(1000)) * 1000000
		if !o.MsTimes {
			ns = int64(r.N(1000000000))
		}
		switch r.N(6) {
		case 0:
			v.Set(reflect.ValueOf(time.Unix(0, 0)))
		case 1:
			v.Set(reflect.ValueOf(time.Unix(sec%100000, ns)))
		default:
			v.Set(reflect.ValueOf(time.Unix(sec, ns)))
		}
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.P(50))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := i64Pool[r.N(len(i64Pool))]
		if r.P(30) {
			x = int64(r.U())
		}
		bits := t.Bits()
		if bits < 64 {
			if r.P(50) {
				x = x << (64 - bits) >> (64 - bits)
			} else if r.P(50) {
				x = 1<<(bits-1) - 1
			} else {
				x = -(1 << (bits - 1))
			}
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x := uint64(i64Pool[r.N(len(i64Pool))])
		if r.P(30) {
			x = r.U()
		}
		bits := t.Bits()
		if bits < 64 {
			x &= 1<<bits - 1
		}
		v.SetUint(x)
	case reflect.Float32:
		f := f64Pool[r.N(len(f64Pool))]
		if math.Abs(f) > math.MaxFloat32 || (f != 0 && math.Abs(f) < 1e-37) {
			f = 0.25
		}
		v.SetFloat(float64(float32(f)))
	case reflect.Float64:
		v.SetFloat(f64Pool[r.N(len(f64Pool))])
	case reflect.String:
		v.SetString(r.Str(o))
	case reflect.Slice:
		if r.P(20) {
			return
		}
		n := r.len(d)
		if omit && n == 0 {
			n = 1
		}
		if d <= 0 {
			if omit {
				return
			}
			n = 0
		}
		if t.Elem().Kind() == reflect.Uint8 {
			if o.Big && r.P(10) {
				n = []int{255, 256, 65535, 65536, 70003}[r.N(5)]
			} else if r.P(30) {
				n = 31 + r.N(3)
			}
			bs := make([]byte, n)
			for i := range bs {
				bs[i] = byte(r.U())
			}
			v.SetBytes(bs)
			return
		}
		if o.Big && r.P(4) && t.Elem().Kind() == reflect.String {
			n = 300
		}
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			r.fill(s.Index(i), o, d-1, false)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r.fill(v.Index(i), o, d-1, false)
		}
	case reflect.Map:
		if r.P(20) {
			return
		}
		n := r.len(d)
		if omit && n == 0 {
			n = 1
		}
		if d <= 0 {
			if omit {
				return
			}
			n = 0
		}
		m := reflect.MakeMap(t)
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			r.fill(k, o, d-1, false)
			e := reflect.New(t.Elem()).Elem()
			r.fill(e, o, d-1, false)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Ptr:
		if d <= 0 || r.P(30) {
			return
		}
		p := reflect.New(t.Elem())
		r.fill(p.Elem(), o, d-1, false)
		v.Set(p)
	case reflect.Interface:
		if t == ErrorType {
			if r.P(50) {
				v.Set(reflect.ValueOf(errors.New(r.Str(o))))
			}
			return
		}
		if t.NumMethod() > 0 {
			return
		}
		switch r.N(6) {
		case 0:
		case 1:
			v.Set(reflect.ValueOf(r.Str(o)))
		case 2:
			v.Set(reflect.ValueOf(r.P(50)))
		case 3:
			if d > 0 {
				v.Set(reflect.ValueOf(map[string]interface{}{"k": r.Str(o), "n": nil, "l": []interface{}{true, r.Str(o)}}))
			}
		case 4:
			v.Set(reflect.ValueOf([]interface{}{r.Str(o), nil, false, map[string]interface{}{}}))
		default:
			v.Set(reflect.ValueOf(r.Str(o)))
		}
	case reflect.Struct:
		if o.Unions && v.NumField() > 0 && strings.HasPrefix(t.Field(0).Tag.Get("gotsrpc"), "union") {
			f := v.Field(r.N(v.NumField()))
			if f.Kind() == reflect.Ptr {
				f.Set(reflect.New(f.Type().Elem()))
				f = f.Elem()
			}
			for i := 0; i < 20 && f.IsZero(); i++ {
				r.fill(f, o, d-1, false)
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath == "" && f.Anonymous && o.NoNilEmbed && f.Type.Kind() == reflect.Ptr {
				v.Field(i).Set(reflect.New(f.Type.Elem()))
				r.fill(v.Field(i).Elem(), o, d-1, false)
				continue
			}
			if f.PkgPath != "" && !f.Anonymous {
				continue
			}
			if f.PkgPath != "" {
				continue
			}
			tag := f.Tag.Get("json")
			if tag == "-" {
				continue
			}
			om := strings.Contains(tag, ",omitempty")
			r.fill(v.Field(i), o, d-1, om)
		}
	}
}

func (r *Rand) len(d int) int {
	switch r.N(8) {
	case 0, 1:
		return 0
	case 2, 3, 4:
		return 1
	case 5, 6:
		return 2 + r.N(2)
	}
	if d >= 3 {
		return 15 + r.N(4)
	}
	return 2
}

// HookOfZero is a hook returning zero values.
func HookOfZero(svc, method string, w http.ResponseWriter, r *http.Request, args []interface{}) []interface{} {
	return nil
}

// Inflate makes the first text or bytes in a value n bytes long.
func Inflate(v reflect.Value, n, d int) bool {
	if d <= 0 {
		return false
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(v.String() + strings.Repeat("0123456789abcdef", n/16+1)[:n])
		return true
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(i * 7 >> 3)
			}
			v.SetBytes(b)
			return true
		}
		s := reflect.MakeSlice(v.Type(), 1, 1)
		if Inflate(s.Index(0), n, d-1) {
			v.Set(s)
			return true
		}
	case reflect.Map:
		e := reflect.New(v.Type().Elem()).Elem()
		if v.Type().Key().Kind() == reflect.String && Inflate(e, n, d-1) {
			m := reflect.MakeMap(v.Type())
			m.SetMapIndex(reflect.ValueOf("k").Convert(v.Type().Key()), e)
			v.Set(m)
			return true
		}
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		if !v.IsNil() {
			p.Elem().Set(v.Elem())
		}
		if Inflate(p.Elem(), n, d-1) {
			v.Set(p)
			return true
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" && f.Tag.Get("json") != "-" && Inflate(v.Field(i), n, d-1) {
				return true
			}
		}
	case reflect.Interface:
		if v.NumMethod() == 0 {
			v.Set(reflect.ValueOf(strings.Repeat("x", n)))
			return true
		}
	}
	return false
}

// Deepen nests a value of a recursive type n levels deep.
func Deepen(v reflect.Value, n int) {
	switch v.Kind() {
	case reflect.Interface:
		if v.NumMethod() > 0 {
			return
		}
		var x interface{} = "end"
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				x = map[string]interface{}{"k": x}
			} else {
				x = []interface{}{x}
			}
		}
		v.Set(reflect.ValueOf(&x).Elem().Elem())
	case reflect.Ptr:
		if v.Type().Elem().Kind() == reflect.Struct {
			p := reflect.New(v.Type().Elem())
			if !v.IsNil() {
				p.Elem().Set(v.Elem())
			}
			Deepen(p.Elem(), n)
			v.Set(p)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() != reflect.Uint8 {
			s := reflect.MakeSlice(v.Type(), 1, 1)
			Deepen(s.Index(0), n)
			v.Set(s)
		}
	case reflect.Map:
		if v.Type().Key().Kind() == reflect.String {
			e := reflect.New(v.Type().Elem()).Elem()
			Deepen(e, n)
			m := reflect.MakeMap(v.Type())
			m.SetMapIndex(reflect.ValueOf("k").Convert(v.Type().Key()), e)
			v.Set(m)
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" && t.Field(i).Type == reflect.PtrTo(t) {
				inner := v.Field(i)
				for j := 0; j < n; j++ {
					inner.Set(reflect.New(t))
					inner = inner.Elem().Field(i)
				}
				return
			}
		}
	}
}
