// Command svccalls calls every method of every generated service by its name, through every client there is, and
// records which method of the implementation ran with what.
// usage: svccalls <out.json>
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"strings"
	"sync"
	"time"

	"example.com/fx/h"
	gotsrpc "github.com/foomo/gotsrpc/v2"
)

type J map[string]interface{}

type Program struct {
	P        int
	Services []*h.Service
}

var (
	mu    sync.Mutex
	execs []J
	rets  []interface{}
	count int64
)

func hook(s, m string, w http.ResponseWriter, r *http.Request, args []interface{}) []interface{} {
	mu.Lock()
	defer mu.Unlock()
	execs = append(execs, J{"svc": s, "m": m, "args": h.Toks(args)})
	return rets
}

var errorType = reflect.TypeOf((*error)(nil)).Elem()

// fill makes a value without zero parts
func fill(t reflect.Type) reflect.Value {
	count++
	v := reflect.New(t).Elem()
	if t.Implements(errorType) {
		return v
	}
	if t == reflect.TypeOf(time.Time{}) {
		v.Set(reflect.ValueOf(time.Unix(1600000000+count, count).UTC()))
		return v
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(count%100 + 1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(count%200 + 1))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(count) + 0.5)
	case reflect.String:
		v.SetString(fmt.Sprintf("s%d", count))
	case reflect.Interface:
		v.Set(reflect.ValueOf(fmt.Sprintf("any%d", count)))
	case reflect.Ptr:
		v.Set(reflect.New(t.Elem()))
		v.Elem().Set(fill(t.Elem()))
	case reflect.Slice:
		for i := 0; i < 2; i++ {
			v.Set(reflect.Append(v, fill(t.Elem())))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		for i := 0; i < 2; i++ {
			v.SetMapIndex(fill(t.Key()), fill(t.Elem()))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				v.Field(i).Set(fill(t.Field(i).Type))
			}
		}
	}
	return v
}

func fills(ts []reflect.Type) (vs []interface{}) {
	for _, t := range ts {
		vs = append(vs, fill(t).Interface())
	}
	return vs
}

func toks(vs []interface{}) []string {
	r := h.Toks(vs)
	if r == nil {
		r = []string{}
	}
	return r
}

// call runs one call; do returns the results without the client's error
func call(m *h.Method, do func(args []reflect.Value) ([]interface{}, bool)) J {
	args, give := fills(m.Args), fills(m.Rets)
	mu.Lock()
	execs, rets = []J{}, give
	mu.Unlock()
	var in []reflect.Value
	for i, a := range args {
		v := reflect.New(m.Args[i]).Elem()
		if a != nil {
			v.Set(reflect.ValueOf(a))
		}
		in = append(in, v)
	}
	got, failed := do(in)
	mu.Lock()
	defer mu.Unlock()
	return J{"e": "call", "m": m.Name, "sent": toks(args), "given": toks(give), "got": toks(got), "failed": failed, "execs": execs}
}

// results of a generated client's method
func results(out []reflect.Value) (got []interface{}, failed bool) {
	for _, v := range out[:len(out)-1] {
		got = append(got, v.Interface())
	}
	return got, !out[len(out)-1].IsNil()
}

func shapeFits(f reflect.Value, args []reflect.Value) bool {
	t := f.Type()
	if t.NumIn() != len(args) || t.NumOut() == 0 {
		return false
	}
	for i, a := range args {
		if !a.Type().AssignableTo(t.In(i)) {
			return false
		}
	}
	return true
}

// one server and one HTTP client for all: connections are used again
var (
	pmu     sync.RWMutex
	proxies map[string]http.Handler
	srv     = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if px := proxyAt(r.URL.Path); px != nil {
			px.ServeHTTP(w, r)
			return
		}
		http.NotFound(w, r)
	}))
	hc  = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 4}, Timeout: 60 * time.Second}
	raw gotsrpc.Client
)

func proxyAt(path string) http.Handler {
	pmu.RLock()
	defer pmu.RUnlock()
	for ep, px := range proxies {
		if strings.HasPrefix(path, ep+"/") {
			return px
		}
	}
	return nil
}

func main() {
	raw = gotsrpc.NewClientWithHttpClient(hc)
	out := make([][]J, len(programs))
	for i, p := range programs {
		if i == 12 { // the clients of the first programs are made by the factory nobody replaced
			gotsrpc.SetDefaultHttpClientFactory(func() *http.Client { return hc })
		}
		out[i] = program(p)
	}
	b, err := json.Marshal(out)
	if err == nil {
		err = os.WriteFile(os.Args[1], b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func program(p Program) (ev []J) {
	ev = []J{}
	pmu.Lock()
	proxies = map[string]http.Handler{}
	pmu.Unlock()
	for si, s := range p.Services {
		add := func(how string, e J) {
			e["p"], e["s"], e["how"] = p.P, si+1, how
			ev = append(ev, e)
		}
		if s.NewProxy != nil {
			px := s.NewProxy(hook)
			add("proxy", J{"e": "endpoint", "ep": reflect.ValueOf(px).Elem().FieldByName("EndPoint").String()})
			pmu.Lock()
			proxies[s.Endpoint] = px
			pmu.Unlock()
			var client reflect.Value
			if s.NewClient != nil {
				client = reflect.ValueOf(s.NewClient(srv.URL, nil))
				add("client", J{"e": "endpoint", "ep": client.Elem().FieldByName("EndPoint").String()})
			}
			for _, m := range s.Methods {
				if client.IsValid() {
					if f := client.MethodByName(m.Name); f.IsValid() {
						add("client", call(m, func(args []reflect.Value) ([]interface{}, bool) {
							args = append([]reflect.Value{reflect.ValueOf(context.Background())}, args...)
							if !shapeFits(f, args) {
								return nil, true
							}
							return results(f.Call(args))
						}))
					}
				}
				add("raw", call(m, func(args []reflect.Value) ([]interface{}, bool) {
					var as, reply []interface{}
					for _, a := range args {
						as = append(as, a.Interface())
					}
					for _, t := range m.Rets {
						reply = append(reply, reflect.New(t).Interface())
					}
					err := raw.Call(context.Background(), srv.URL, s.Endpoint, m.Name, as, reply)
					var got []interface{}
					for _, r := range reply {
						got = append(got, reflect.ValueOf(r).Elem().Interface())
					}
					return got, err != nil
				}))
			}
		}
		if s.NewGoRPCProxy != nil {
			px, addr := startGoRPC(s)
			client := reflect.ValueOf(s.NewGoRPCClient(addr, nil))
			client.MethodByName("Start").Call(nil)
			for _, m := range s.Methods {
				if f := client.MethodByName(m.Name); f.IsValid() {
					add("gorpc", call(m, func(args []reflect.Value) ([]interface{}, bool) {
						if !shapeFits(f, args) {
							return nil, true
						}
						return results(f.Call(args))
					}))
				}
			}
			client.MethodByName("Stop").Call(nil)
			px.Stop()
		}
	}
	return ev
}

type goRPCProxy interface {
	Start() error
	Stop()
}

// startGoRPC starts a service at a free port
func startGoRPC(s *h.Service) (goRPCProxy, string) {
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err == nil {
			addr := l.Addr().String()
			l.Close()
			px := s.NewGoRPCProxy(addr, hook, nil).(goRPCProxy)
			if err = px.Start(); err == nil {
				return px, addr
			}
		}
		if try > 40 {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		time.Sleep(time.Duration(try) * 20 * time.Millisecond)
	}
}
