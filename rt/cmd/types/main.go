// Command types has generated services return generated values in JSON and records the replies.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"strings"

	"example.com/fx/h"
)

type J map[string]interface{}

type Case struct {
	Svc  string `json:"svc"`
	M    string `json:"m"`
	Seed uint64 `json:"seed"`
	Zero bool   `json:"zero"` // return zero values
}

// tagged turns JSON text into tagged records (objects keep order and duplicates)
func tagged(d *json.Decoder) interface{} {
	t, err := d.Token()
	if err != nil {
		panic(err)
	}
	switch v := t.(type) {
	case nil:
		return J{"j": "null"}
	case bool:
		return J{"j": "bool"}
	case json.Number:
		return J{"j": "num", "v": v.String()}
	case string:
		return J{"j": "str", "v": short(v)}
	case json.Delim:
		if v == '[' {
			e := []interface{}{}
			for d.More() {
				e = append(e, tagged(d))
			}
			d.Token()
			return J{"j": "arr", "e": e}
		}
		p := []interface{}{}
		for d.More() {
			k, _ := d.Token()
			p = append(p, J{"n": k, "v": tagged(d)})
		}
		d.Token()
		return J{"j": "obj", "p": p}
	}
	panic("token")
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60]
	}
	return s
}

var supply []interface{}

func hook(s, method string, w http.ResponseWriter, r *http.Request, args []interface{}) []interface{} {
	return supply
}

func run(c *Case, s *h.Service, m *h.Method) J {
	rnd := h.NewRand(c.Seed)
	o := h.GenOpts{Plain: true, Pick: consts, Unions: true, NoNilEmbed: true}
	supply = nil
	for _, t := range m.Rets {
		if c.Zero {
			supply = append(supply, reflect.New(t).Elem().Interface())
			continue
		}
		supply = append(supply, rnd.Gen(t, o).Interface())
	}
	r := httptest.NewRequest("POST", s.Endpoint+"/"+m.Name, strings.NewReader("["+strings.TrimSuffix(strings.Repeat("null,", len(m.Args)), ",")+"]"))
	r.Header.Set("Content-Type", "application/json; charset=utf-8")
	w := httptest.NewRecorder()
	s.NewProxy(hook).ServeHTTP(w, r)
	if w.Code != 200 {
		return J{"e": "wire", "svc": c.Svc, "m": c.M, "vs": []interface{}{J{"j": "str", "v": fmt.Sprint("status ", w.Code)}}}
	}
	d := json.NewDecoder(bytes.NewReader(w.Body.Bytes()))
	d.UseNumber()
	v := tagged(d).(J)
	return J{"e": "wire", "svc": c.Svc, "m": c.M, "vs": v["e"]}
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cases []*Case
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	svcs := map[string]*h.Service{}
	for _, s := range services {
		svcs[s.Name] = s
	}
	stdout, stderr := os.Stdout, os.Stderr
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout, os.Stderr = null, null
	var out []J
	for _, c := range cases {
		ev := func() (ev J) {
			defer func() {
				if p := recover(); p != nil {
					ev = J{"e": "panic", "svc": c.Svc, "m": c.M, "what": fmt.Sprint(p)}
				}
			}()
			return run(c, svcs[c.Svc], svcs[c.Svc].Method(c.M))
		}()
		out = append(out, ev)
	}
	os.Stdout, os.Stderr = stdout, stderr
	f, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	if err := json.NewEncoder(f).Encode(out); err != nil {
		panic(err)
	}
	f.Close()
}
