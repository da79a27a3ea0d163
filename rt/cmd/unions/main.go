// Command unions sends unions through generated services in JSON and records what is on the wire.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"time"

	"example.com/fx/h"
	gotsrpc "github.com/foomo/gotsrpc/v2"
)

type J map[string]interface{}

type Case struct {
	Method string   `json:"method"`
	Svc    string   `json:"svc"`
	Dir    string   `json:"dir"`
	Path   []string `json:"path"`
	Omit   bool     `json:"omit"`
	Inner  bool     `json:"inner"` // members are unions
	Set    int      `json:"set"`
	Seed   uint64   `json:"seed"`
	Hand   *Hand    `json:"hand"`
}

type capture struct{ rt http.RoundTripper }

var reqBody, repBody []byte

func (c capture) RoundTrip(r *http.Request) (*http.Response, error) {
	b, _ := io.ReadAll(r.Body)
	reqBody = b
	r.Body = io.NopCloser(bytes.NewReader(b))
	res, err := c.rt.RoundTrip(r)
	if err != nil {
		return res, err
	}
	b, err = io.ReadAll(res.Body)
	res.Body.Close()
	repBody = b
	res.Body = io.NopCloser(bytes.NewReader(b))
	return res, err
}

func elem(body []byte, i int) json.RawMessage {
	var l []json.RawMessage
	if json.Unmarshal(body, &l) != nil || i >= len(l) {
		return json.RawMessage("\"no such element\"")
	}
	return l[i]
}

var supply []interface{}

func hook(s, method string, w http.ResponseWriter, r *http.Request, args []interface{}) []interface{} {
	return supply
}

// fill sets the union's member and returns the member's own JSON
func fill(u reflect.Value, set int, rnd *h.Rand, inner bool) (own string, n int) {
	for u.Kind() == reflect.Ptr {
		if u.IsNil() {
			u.Set(reflect.New(u.Type().Elem()))
		}
		u = u.Elem()
	}
	n = u.NumField()
	if set == 0 {
		return "null", n
	}
	f := u.Field(set - 1)
	m := f
	if f.Kind() == reflect.Ptr {
		f.Set(reflect.New(f.Type().Elem()))
		m = f.Elem()
	}
	if inner && m.Kind() == reflect.Struct && m.NumField() > 0 && m.Type().Field(0).Tag.Get("gotsrpc") == "union" {
		own, _ = fill(m, 1+rnd.N(m.NumField()), rnd, false)
		return own, n
	}
	m.Set(rnd.Gen(m.Type(), h.GenOpts{}))
	if k := m.FieldByName; m.Kind() == reflect.Struct && k("Key").IsValid() {
		k("Key").SetString("key" + fmt.Sprint(rnd.N(1000)))
	}
	return h.CanonJSON(h.EncodeOne("json", m)), n
}

func run(c *Case, client interface{}, s *h.Service) (ev []J) {
	rnd := h.NewRand(c.Seed)
	m := s.Method(c.Method)
	t := m.Args
	if c.Dir == "ret" {
		t = m.Rets
	}
	v := reflect.New(t[1]).Elem()
	own, n := "", 0
	h.Place(v, c.Path, func(u reflect.Value) {
		if c.Set == 0 && u.Kind() == reflect.Ptr && rnd.P(50) {
			own, n = "null", u.Type().Elem().NumField()
			return
		}
		own, n = fill(u, c.Set, rnd, c.Inner)
	})
	ev = append(ev, J{"e": "make", "n": n, "set": c.Set, "own": own, "omit": c.Omit})
	in := []reflect.Value{reflect.ValueOf(context.Background())}
	supply = nil
	if c.Dir == "ret" {
		supply = []interface{}{"first", v.Interface()}
	} else {
		in = append(in, reflect.ValueOf("first"), v)
	}
	reqBody, repBody = nil, nil
	reflect.ValueOf(client).MethodByName(c.Method).Call(in)
	body := reqBody
	if c.Dir == "ret" {
		body = repBody
	}
	raw, err := h.JSONAt(elem(body, 1), t[1], c.Path)
	wire := h.CanonJSON(raw)
	if err != nil {
		wire = "error:" + err.Error()
	}
	return append(ev, J{"e": "sent", "wire": wire})
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cases []*Case
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	hc := &http.Client{Timeout: 30 * time.Second, Transport: capture{&http.Transport{MaxIdleConnsPerHost: 4}}}
	svcs, clients := map[string]*h.Service{}, map[string]interface{}{}
	for _, s := range services {
		srv := httptest.NewServer(s.NewProxy(hook))
		c := s.NewClient(srv.URL, hc)
		reflect.ValueOf(c).Elem().FieldByName("Client").Interface().(gotsrpc.Client).SetClientEncoding(gotsrpc.EncodingJson)
		svcs[s.Name], clients[s.Name] = s, c
	}
	registerHands()
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout, os.Stderr = null, null
	var traces []J
	for _, c := range cases {
		ev := func() (ev []J) {
			defer func() {
				if p := recover(); p != nil {
					ev = append(ev, J{"e": "panic", "what": fmt.Sprint(p)})
				}
			}()
			if c.Hand != nil {
				return runHand(c, hc)
			}
			return run(c, clients[c.Svc], svcs[c.Svc])
		}()
		traces = append(traces, J{"ev": ev})
	}
	f, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(f)
	if err := enc.Encode(traces); err != nil {
		panic(err)
	}
	f.Close()
}
