// Command times sends times through a generated service and records them on their way.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"strings"
	"time"

	"example.com/fx/h"
	"example.com/fx/svc"
	gotsrpc "github.com/foomo/gotsrpc/v2"
)

type J map[string]interface{}

type Case struct {
	M    string   `json:"m"`
	A    int      `json:"a"`
	Path []string `json:"path"`
	Ptr  bool     `json:"ptr"`
	Omit bool     `json:"omit"`
	T    []int64  `json:"t"`
	Zone string   `json:"zone"`
	Enc  string   `json:"enc"`
	Raw  bool     `json:"raw"`
}

const day0 = -719162 // days from 1970-01-01 to 0001-01-01

var zones = map[string]*time.Location{"utc": time.UTC, "local": time.Local, "east": time.FixedZone("east", 5*3600+1800), "west": time.FixedZone("west", -11*3600)}

func instant(t []int64) time.Time {
	return time.Unix((t[0]+day0)*86400+t[1]/1000, t[1]%1000*1000000+t[2])
}

func dmn(t time.Time) []int64 {
	s := t.Unix()
	d := s / 86400
	if s%86400 < 0 {
		d--
	}
	return []int64{d - day0, (s-d*86400)*1000 + int64(t.Nanosecond())/1000000, int64(t.Nanosecond()) % 1000000}
}

// tval: the instant at a position, [] if nil or not there
func tval(v reflect.Value) []int64 {
	for v.IsValid() && v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return []int64{}
		}
		v = v.Elem()
	}
	if !v.IsValid() {
		return []int64{}
	}
	x := dmn(v.Interface().(time.Time))
	if x[0] < 0 || x[0] > 1<<30 {
		return []int64{-1, -1, -1}
	}
	return x
}

func wire(raw json.RawMessage, err error) J {
	w := J{"k": "other", "d": 0, "m": 0}
	if err != nil {
		w["what"] = err.Error()
		return w
	}
	s := strings.TrimSpace(string(raw))
	switch {
	case raw == nil:
		w["k"] = "absent"
	case s == "null":
		w["k"] = "null"
	default:
		n, ok := new(big.Int).SetString(s, 10)
		if !ok {
			w["what"] = s
			break
		}
		d, m := new(big.Int).DivMod(n, big.NewInt(86400000), new(big.Int))
		if !d.IsInt64() || d.Int64() < day0 || d.Int64() > 1<<30 {
			w["what"] = s
			break
		}
		w["k"], w["d"], w["m"] = "int", d.Int64()-day0, m.Int64()
	}
	delete(w, "what")
	return w
}

var (
	seen    []interface{}
	service *svcT
	reqBody []byte
	repBody []byte
)

type svcT = h.Service

func hook(s, method string, w http.ResponseWriter, r *http.Request, args []interface{}) []interface{} {
	seen = args
	if method == "Multi" {
		return []interface{}{args[2], args[1], args[0], args[3]}
	}
	return args
}

// result index of an argument
func retIdx(m string, a int) int {
	if m == "Multi" {
		return []int{2, 1, 0, 3}[a]
	}
	return a
}

type capture struct{ rt http.RoundTripper }

func (c capture) RoundTrip(r *http.Request) (*http.Response, error) {
	b, _ := io.ReadAll(r.Body)
	reqBody = b
	r.Body = io.NopCloser(bytes.NewReader(b))
	res, err := c.rt.RoundTrip(r)
	if err != nil {
		return res, err
	}
	b, err = io.ReadAll(res.Body)
	res.Body.Close()
	repBody = b
	res.Body = io.NopCloser(bytes.NewReader(b))
	return res, err
}

func elem(body []byte, i int) json.RawMessage {
	var l []json.RawMessage
	if json.Unmarshal(body, &l) != nil || i >= len(l) {
		return json.RawMessage("\"no such element\"")
	}
	return l[i]
}

func run(c *Case, client interface{}, url string, hc *http.Client) (ev []J) {
	m := service.Method(c.M)
	args := make([]reflect.Value, len(m.Args))
	for i, t := range m.Args {
		args[i] = reflect.New(t).Elem()
		if t.Kind() == reflect.String {
			args[i].SetString("s")
		}
	}
	h.Place(args[c.A], c.Path, func(v reflect.Value) {
		if len(c.T) == 0 {
			return
		}
		t := instant(c.T).In(zones[c.Zone])
		if c.T[0] == 0 && c.T[1] == 0 && c.T[2] == 0 && c.Zone == "utc" {
			t = time.Time{}
		}
		if v.Kind() == reflect.Ptr {
			v.Set(reflect.ValueOf(&t))
		} else {
			v.Set(reflect.ValueOf(t))
		}
	})
	seen, reqBody, repBody = nil, nil, nil
	ri := retIdx(c.M, c.A)
	var rets []reflect.Value
	if c.Raw {
		// the same arguments with the integer written by hand
		var buf bytes.Buffer
		buf.WriteString("[")
		for i, a := range args {
			if i > 0 {
				buf.WriteString(",")
			}
			buf.Write(h.EncodeOne("json", a))
		}
		buf.WriteString("]")
		w := J{"k": "null", "d": 0, "m": 0}
		if len(c.T) > 0 {
			w = J{"k": "int", "d": c.T[0], "m": c.T[1]}
			if got := wire(h.JSONAt(elem(buf.Bytes(), c.A), m.Args[c.A], c.Path)); c.Omit && got["k"] == "absent" {
				w = got
			} else if fmt.Sprint(got) != fmt.Sprint(w) {
				panic(fmt.Sprint("the driver wrote ", got, " for ", w))
			}
		} else if c.Omit {
			w["k"] = "absent"
		}
		ev = append(ev, J{"e": "raw", "w": w, "pos": J{"ptr": c.Ptr, "omit": c.Omit}})
		res, err := hc.Post(url+service.Endpoint+"/"+c.M, "application/json", &buf)
		if err != nil {
			panic(err)
		}
		repBody, _ = io.ReadAll(res.Body)
		res.Body.Close()
		if res.StatusCode != 200 {
			return append(ev, J{"e": "failed", "what": fmt.Sprint(res.StatusCode, " ", string(repBody))})
		}
	} else {
		ev = append(ev, J{"e": "start", "t": c.T, "enc": c.Enc, "pos": J{"ptr": c.Ptr, "omit": c.Omit}})
		in := []reflect.Value{reflect.ValueOf(context.Background())}
		in = append(in, args...)
		rets = reflect.ValueOf(client).MethodByName(c.M).Call(in)
		if e, _ := rets[len(rets)-1].Interface().(error); e != nil {
			return append(ev, J{"e": "failed", "what": e.Error()})
		}
		if c.Enc == "json" {
			ev = append(ev, J{"e": "send", "w": wire(h.JSONAt(elem(reqBody, c.A), m.Args[c.A], c.Path))})
		} else {
			ev = append(ev, J{"e": "send", "w": J{"k": "other", "d": 0, "m": 0}})
		}
	}
	if c.A >= len(seen) {
		return append(ev, J{"e": "failed", "what": "not executed"})
	}
	ev = append(ev, J{"e": "recv", "t": tval(h.At(reflect.ValueOf(seen[c.A]), c.Path))})
	if c.Enc == "json" {
		ev = append(ev, J{"e": "reply", "w": wire(h.JSONAt(elem(repBody, ri), m.Rets[ri], c.Path))})
	} else {
		ev = append(ev, J{"e": "reply", "w": J{"k": "other", "d": 0, "m": 0}})
	}
	if !c.Raw {
		ev = append(ev, J{"e": "got", "t": tval(h.At(rets[ri], c.Path))})
	}
	return ev
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cases []*Case
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	for _, s := range svc.Services {
		if s.Name == "Clock" {
			service = s
		}
	}
	srv := httptest.NewServer(service.NewProxy(hook))
	hc := &http.Client{Timeout: 30 * time.Second, Transport: capture{&http.Transport{MaxIdleConnsPerHost: 4}}}
	clients := map[string]interface{}{}
	for enc, code := range map[string]gotsrpc.ClientEncoding{"json": gotsrpc.EncodingJson, "msgpack": gotsrpc.EncodingMsgpack} {
		c := service.NewClient(srv.URL, hc)
		reflect.ValueOf(c).Elem().FieldByName("Client").Interface().(gotsrpc.Client).SetClientEncoding(code)
		clients[enc] = c
	}
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	var traces []J
	for _, c := range cases {
		ev := func() (ev []J) {
			defer func() {
				if p := recover(); p != nil {
					ev = append(ev, J{"e": "panic", "what": fmt.Sprint(p)})
				}
			}()
			return run(c, clients[c.Enc], srv.URL, hc)
		}()
		traces = append(traces, J{"ev": ev})
	}
	f, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(f)
	if err := enc.Encode(traces); err != nil {
		panic(err)
	}
	f.Close()
}
