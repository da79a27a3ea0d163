// Command errs sends error chains through a generated service and client and records what arrives.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"

	"example.com/fx/h"
	other "example.com/fx/other/svc"
	"example.com/fx/svc"
	pkgerrors "github.com/pkg/errors"
)

type J map[string]interface{}

type Case struct {
	Res   string   `json:"res"`
	Leaf  string   `json:"leaf"`
	Wraps []string `json:"wraps"`
	Seed  uint64   `json:"seed"`
	Id    string   `json:"id"`
}

type fnErr struct {
	F func()
	M string
}

func (f *fnErr) Error() string { return "fn " + f.M }

type chanErr struct{ C chan int }

func (c chanErr) Error() string { return "chan" }

var msgs = []string{"m", "", "a: b", ": ", "x: ", "%s %w %d", "ü日本", "line\nbreak", "[x]", "*svc.Fail", "nil", " ", "EOF", "colon:",
	strings.Repeat("long message ", 400)}

func leaf(kind, msg string, r *h.Rand) error {
	switch kind {
	case "nil":
		return nil
	case "typednil":
		var f *svc.Fail
		return f
	case "plain":
		return errors.New(msg)
	case "pkgnew":
		return pkgerrors.New(msg)
	case "fail":
		f := &svc.Fail{Message: msg, Code: r.N(1000) - 500}
		if r.P(50) {
			f.Hints = []string{}
		} else if r.P(50) {
			f.Hints = []string{"", msg, "z"}
		}
		return f
	case "rich":
		v := r.Gen(reflect.TypeOf(svc.Rich{}), h.GenOpts{Big: r.P(20)}).Interface().(svc.Rich)
		v.Text = msg
		return &v
	case "valdata":
		if msg == "" {
			return svc.ValData{}
		}
		return svc.ValData{Text: msg, N: uint16(r.U())}
	case "valptr":
		return &svc.ValData{Text: msg, N: uint16(r.U())}
	case "scalarptr":
		x := svc.Scalar(msg)
		return &x
	case "scalar":
		return svc.Scalar(msg)
	case "num":
		return svc.Num([]int64{0, 1, -1, 1 << 62, -(1 << 63), 255}[r.N(6)])
	case "otherfail":
		return &other.Fail{Message: msg, Code: r.N(1000)}
	case "otherscalar":
		return other.Scalar(msg)
	case "eof":
		return io.EOF
	case "canceled":
		return context.Canceled
	case "deadline":
		return context.DeadlineExceeded
	case "patherr":
		_, err := os.Open("/nonexistent-" + "x")
		return err
	case "numerr":
		_, err := strconv.Atoi("x" + msg)
		return err
	case "jsonerr":
		var x struct{ A int }
		return json.Unmarshal([]byte(`{"A":"b"}`), &x)
	case "urlerr":
		return &url.Error{Op: "Get", URL: "http://x/", Err: errors.New(msg)}
	case "fnerr":
		return &fnErr{F: func() {}, M: msg}
	case "chanerr":
		return chanErr{C: make(chan int)}
	}
	panic("leaf " + kind)
}

func typeName(t reflect.Type) string {
	e := t
	if t.Kind() == reflect.Ptr {
		e = t.Elem()
	}
	return t.String() + "|" + e.PkgPath()
}

func dataTok(e error) string {
	v := reflect.ValueOf(e)
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return "nil"
		}
		v = v.Elem()
	}
	if !strings.HasPrefix(v.Type().PkgPath(), "example.com/fx/") {
		return "-"
	}
	return h.TokV(v)
}

type node struct {
	typ, text string
}

// targets for errors.As: pointers to values of these types, holding something
func asTargets() []interface{} {
	f, r, w, of := &svc.Fail{Message: "before"}, &svc.Rich{Text: "before"}, svc.NewWrapPtr("before", io.EOF), &other.Fail{Code: 99}
	s, os_, n, v, wv, c := svc.Scalar("before"), other.Scalar("before"), svc.Num(99), svc.ValData{N: 99}, svc.NewWrapVal("before", io.EOF), &svc.Coded{N: 5}
	vp, wvp, sp, osp := &svc.ValData{N: 98}, new(svc.WrapVal), new(svc.Scalar), new(other.Scalar)
	*wvp = wv
	return []interface{}{&f, &r, &w, &of, &s, &os_, &n, &v, &wv, &c, &vp, &wvp, &sp, &osp}
}

// a fresh error of a type and text
func target(typ, text string) error {
	switch typ {
	case "*errors.errorString|errors":
		return errors.New(text)
	case "*errors.fundamental|github.com/pkg/errors":
		return pkgerrors.New(text)
	case "*errors.withMessage|github.com/pkg/errors":
		return pkgerrors.WithMessage(errEmpty{}, text[:len(text)-2])
	case "*fmt.wrapError|fmt":
		return fmt.Errorf("%s%w", text, errEmpty{})
	case "*svc.Fail|example.com/fx/svc":
		return &svc.Fail{Message: text, Code: 12345}
	case "*svc.Fail|example.com/fx/other/svc":
		return &other.Fail{Message: text}
	case "svc.Scalar|example.com/fx/svc":
		return svc.Scalar(text)
	case "svc.Scalar|example.com/fx/other/svc":
		return other.Scalar(text)
	case "*svc.Rich|example.com/fx/svc":
		return &svc.Rich{Text: text}
	case "svc.ValData|example.com/fx/svc":
		return svc.ValData{Text: text, N: 4711}
	case "*svc.ValData|example.com/fx/svc":
		return &svc.ValData{Text: text, N: 4711}
	case "*svc.Scalar|example.com/fx/svc":
		x := svc.Scalar(text)
		return &x
	case "svc.WrapVal|example.com/fx/svc":
		return svc.NewWrapVal(text, io.EOF)
	}
	return nil
}

type errEmpty struct{}

func (errEmpty) Error() string { return "" }

var isTypes = []string{"*errors.errorString|errors", "*errors.fundamental|github.com/pkg/errors", "*fmt.wrapError|fmt",
	"*svc.Fail|example.com/fx/svc", "*svc.Fail|example.com/fx/other/svc", "svc.Scalar|example.com/fx/svc",
	"svc.Scalar|example.com/fx/other/svc", "*svc.Rich|example.com/fx/svc", "svc.ValData|example.com/fx/svc", "svc.WrapVal|example.com/fx/svc",
	"*svc.ValData|example.com/fx/svc", "*svc.Scalar|example.com/fx/svc"}

var (
	pending []interface{}
	client  interface{}
	errsSvc *h.Service
)

// call sends the given results through method m
func call(m string, rets []interface{}) ([]reflect.Value, error) {
	pending = rets
	in := []reflect.Value{reflect.ValueOf(context.Background())}
	out := reflect.ValueOf(client).MethodByName(m).Call(in)
	err, _ := out[len(out)-1].Interface().(error)
	return out[:len(out)-1], err
}

func hook(name, method string, w http.ResponseWriter, r *http.Request, args []interface{}) []interface{} {
	return pending
}

func runCase(c *Case) []J {
	var ev []J
	r := h.NewRand(c.Seed)
	pick := func() string { return msgs[r.N(len(msgs))] }
	e := leaf(c.Leaf, pick(), r)
	var chain []node
	push := func(e error) { chain = append(chain, node{typeName(reflect.TypeOf(e)), e.Error()}) }
	isnil := e == nil || c.Leaf == "typednil"
	if !isnil {
		ev = append(ev, J{"e": "new", "type": typeName(reflect.TypeOf(e)), "text": e.Error(), "data": dataTok(e)})
		push(e)
		if c.Leaf == "urlerr" || c.Leaf == "patherr" || c.Leaf == "numerr" { // has a cause of its own
			ev = ev[:0]
			var nodes []error
			for x := e; x != nil; x = errors.Unwrap(x) {
				nodes = append(nodes, x)
			}
			chain = nil
			ev = append(ev, J{"e": "newchain", "nodes": []J{}})
			var ns []J
			for _, x := range nodes {
				push(x)
				ns = append(ns, J{"type": typeName(reflect.TypeOf(x)), "text": x.Error(), "data": dataTok(x)})
			}
			ev[0]["nodes"] = ns
		}
	}
	for _, k := range c.Wraps {
		msg := pick()
		switch k {
		case "hop":
			out, err := call("One", []interface{}{e})
			x, _ := out[0].Interface().(error)
			ne := J{"e": "hop", "nil": err != nil || x == nil, "text": ""}
			if err != nil || x == nil {
				ev = append(ev, ne)
				return ev
			}
			ne["text"] = x.Error()
			ev = append(ev, ne)
			e = x
			continue
		case "colon":
			e = fmt.Errorf("%s: %w", msg, e)
		case "suffix":
			e = fmt.Errorf("%w %s", e, msg)
		case "middle":
			e = fmt.Errorf("%s [%w] %s", msg, e, msg)
		case "bare":
			e = fmt.Errorf("%w", e)
		case "glued":
			e = fmt.Errorf("%s%w", msg, e)
		case "pkgmsg":
			e = pkgerrors.WithMessage(e, msg)
		case "pkgwrap":
			e = pkgerrors.Wrap(e, msg)
		case "withstack":
			e = pkgerrors.WithStack(e)
		case "custptr":
			e = svc.NewWrapPtr(msg, e)
		case "custval":
			e = svc.NewWrapVal(msg, e)
		}
		ev = append(ev, J{"e": "wrap", "kind": k, "msg": msg, "data": dataTok(e)})
		push(e)
		if k == "pkgwrap" {
			push(errors.Unwrap(e))
		}
	}
	m := c.Res
	if m == "Two1" || m == "Two2" {
		m = "Two"
	}
	var rets []interface{}
	var pos int
	marker := "k" + c.Id + "." + strconv.Itoa(r.N(1000))
	switch c.Res {
	case "One":
		rets, pos = []interface{}{e}, 0
	case "Mid":
		rets, pos = []interface{}{marker, e, int64(r.U())}, 1
	case "Two1":
		rets, pos = []interface{}{e, nil}, 0
	case "Two2":
		rets, pos = []interface{}{errors.New(marker), e}, 1
	case "PtrT", "ValT", "ScalT", "NumT":
		rets, pos = []interface{}{e}, 0
	case "PtrMid":
		rets, pos = []interface{}{marker, e, []string{marker}}, 1
	}
	if c.Leaf == "typednil" && c.Res == "PtrMid" {
		var x *svc.Rich
		rets[1] = x
	}
	if c.Res == "ScalT" {
		rets = append(rets, marker)
	}
	mt := errsSvc.Method(m)
	expected := []string{}
	for i, v := range rets {
		if i != pos {
			x := reflect.New(mt.Rets[i]).Elem()
			if v != nil {
				x.Set(reflect.ValueOf(v))
			}
			expected = append(expected, h.TokV(x))
		}
	}
	out, err := call(m, rets)
	others := []string{}
	for i, v := range out {
		if i != pos {
			others = append(others, h.TokV(v))
		}
	}
	if err != nil {
		others = []string{"CLIENT ERROR " + err.Error()}
	}
	got := out[pos]
	if got.Kind() != reflect.Interface {
		isnil := got.Kind() == reflect.Ptr && got.IsNil()
		d := got
		if !isnil && got.Kind() == reflect.Ptr {
			d = got.Elem()
		}
		return append(ev, J{"e": "typed", "nil": isnil, "data": h.TokV(d), "others": others, "expected": expected})
	}
	x, _ := got.Interface().(error)
	d := J{"e": "deliver", "nil": x == nil, "texts": []string{}, "others": others, "expected": expected}
	if x == nil {
		return append(ev, d)
	}
	texts := []string{}
	for y, i := x, 0; y != nil && i < 300; y, i = errors.Unwrap(y), i+1 {
		texts = append(texts, y.Error())
	}
	d["texts"] = texts
	ev = append(ev, d)
	if isnil {
		return ev
	}
	ev = append(ev, J{"e": "fmt", "texts": []string{fmt.Sprintf("%v", x), fmt.Sprintf("%s", x), fmt.Sprint(x)}})
	// errors.Cause of github.com/pkg/errors, with a limit
	{
		var root error = x
		n := 0
		for ; n < 300; n++ {
			c, ok := root.(interface{ Cause() error })
			if !ok {
				break
			}
			root = c.Cause()
			if root == nil {
				break
			}
		}
		t := "NIL"
		if root != nil {
			t = root.Error()
		}
		ev = append(ev, J{"e": "cause", "ends": n < 300, "text": t})
	}
	// texts that are almost the ones of the chain
	for _, t := range []string{texts[0], texts[len(texts)-1]} {
		texts = append(texts, strings.ToUpper(t), t+" ", " "+t, t+": ", t+"\n", t[:len(t)/2])
	}
	texts = append(texts, "other "+marker)
	for _, t := range isTypes {
		for _, tx := range texts {
			if y := target(t, tx); y != nil && y.Error() == tx {
				ev = append(ev, J{"e": "is", "type": t, "text": tx, "res": errors.Is(x, y)})
			}
		}
	}
	for _, n := range chain { // and the very types and texts of the chain
		if y := target(n.typ, n.text+""); y != nil && y.Error() == n.text {
			ev = append(ev, J{"e": "is", "type": n.typ, "text": n.text, "res": errors.Is(x, y)})
		}
	}
	for _, p := range asTargets() {
		v := reflect.ValueOf(p).Elem()
		tok := func() string {
			if v.Kind() == reflect.Ptr {
				if v.IsNil() {
					return "nil"
				}
				return h.TokV(v.Elem())
			}
			return h.TokV(v)
		}
		before := tok()
		res := errors.As(x, p)
		ev = append(ev, J{"e": "as", "type": typeName(v.Type()), "res": res, "data": tok(), "before": before})
	}
	return ev
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cases []*Case
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	for _, s := range svc.Services {
		if s.Name == "Errs" {
			errsSvc = s
		}
	}
	srv := httptest.NewServer(errsSvc.NewProxy(hook))
	client = errsSvc.NewClient(srv.URL, &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 4}})
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	var traces []J
	for _, c := range cases {
		ev := func() (ev []J) {
			defer func() {
				if p := recover(); p != nil {
					ev = append(ev, J{"e": "panic", "what": fmt.Sprint(p)})
				}
			}()
			return runCase(c)
		}()
		traces = append(traces, J{"ev": ev})
	}
	f, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(f)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(traces); err != nil {
		panic(err)
	}
	f.Close()
}
