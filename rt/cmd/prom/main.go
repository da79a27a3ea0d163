// Command prom serves requests by services instrumented with prometheus and records the requests and
// the growth of the registry.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"sort"
	"sync"
	"time"

	"example.com/fx/h"
	"example.com/fx/svc"
	gotsrpc "github.com/foomo/gotsrpc/v2"
	gp "github.com/foomo/gotsrpc/v2/prometheus"
	"github.com/prometheus/client_golang/prometheus"
)

type J map[string]interface{}

type Case struct {
	Kind  string `json:"kind"`
	Pkg   string `json:"pkg"`
	Svc   string `json:"svc"`
	M     string `json:"m"`
	Func  string `json:"func"`
	Us    int64  `json:"us"`
	Inst  int    `json:"inst"`
	Enc   string `json:"enc"`
	Class string `json:"class"`
	Prof  string `json:"prof"`
	Taken bool   `json:"taken"`
	Seed  uint64 `json:"seed"`
	V     struct {
		Un   int64 `json:"un"`
		Ex   int64 `json:"ex"`
		Ma   int64 `json:"ma"`
		Req  int   `json:"req"`
		Resp int   `json:"resp"`
	} `json:"v"`
	Clear bool `json:"clear"`
	Nap   int  `json:"nap"` // microseconds the implementation takes at least
}

type Group struct {
	Par   bool    `json:"par"`
	Cases []*Case `json:"cases"`
}

var (
	mu    sync.Mutex
	inner = map[string]time.Duration{}
	byKey = map[string]*Case{}
)

// the implementation finds its case by a header of the session, or by the only case in flight
var only *Case

func hookFor(c **Case) h.Hook {
	return func(name, m string, w http.ResponseWriter, r *http.Request, args []interface{}) []interface{} {
		start := time.Now()
		cs := *c
		if cs.Nap > 0 {
			time.Sleep(time.Duration(cs.Nap) * time.Microsecond)
		}
		if cs.Taken && w != nil {
			w.Header().Set("X-Taken", "1")
			w.WriteHeader(http.StatusTeapot)
			w.Write([]byte("taken over"))
		}
		var s *h.Service
		for _, x := range svc.Services {
			if x.Name == name {
				s = x
			}
		}
		rnd := h.NewRand(cs.Seed + 5)
		var rets []interface{}
		for _, t := range s.Method(m).Rets {
			if t == h.ErrorType {
				rets = append(rets, nil)
				continue
			}
			rets = append(rets, rnd.Gen(t, h.GenOpts{Finite: true, Big: cs.Prof == "big"}).Interface())
		}
		mu.Lock()
		inner[cs.key()] = time.Since(start)
		mu.Unlock()
		return rets
	}
}

func (c *Case) key() string { return fmt.Sprintf("%p", c) }

type site struct {
	s    *h.Service
	cur  *Case
	mu   sync.Mutex
	bare http.Handler
	inst http.HandlerFunc
}

var sites = map[string][]*site{}

func request(c *Case, s *h.Service) *http.Request {
	m := s.Method(c.M)
	rnd := h.NewRand(c.Seed)
	var parts [][]byte
	for _, t := range m.Args {
		parts = append(parts, h.EncodeOne(c.Enc, rnd.Gen(t, h.GenOpts{Finite: true, MsTimes: true, Big: c.Prof == "big"})))
	}
	body := h.EncodeArray(c.Enc, parts)
	path, verb := s.Endpoint+"/"+c.M, http.MethodPost
	switch c.Class {
	case "badargs":
		body = []byte("\xc1garbage")
	case "nofunc":
		path += "Nope"
	case "options":
		verb = http.MethodOptions
	case "get":
		verb = http.MethodGet
	}
	r := httptest.NewRequest(verb, path, bytes.NewReader(body))
	if c.Enc == "json" {
		r.Header.Set("Content-Type", "application/json; charset=utf-8")
	} else {
		r.Header.Set("Content-Type", "application/msgpack; charset=utf-8")
	}
	return r
}

func serve(c *Case, pick int) J {
	st := sites[c.Svc][pick%len(sites[c.Svc])]
	st.mu.Lock() // one request at a time per site: its implementation knows the case
	defer st.mu.Unlock()
	st.cur = c
	rb := httptest.NewRecorder()
	st.bare.ServeHTTP(rb, request(c, st.s))
	ri := httptest.NewRecorder()
	r := request(c, st.s)
	n := r.ContentLength
	start := time.Now()
	st.inst(ri, r)
	outer := time.Since(start)
	same := rb.Code == ri.Code && reflect.DeepEqual(rb.Header(), ri.Header())
	if same && !bytes.Equal(rb.Body.Bytes(), ri.Body.Bytes()) {
		// maps are encoded in any order: the same bytes in another order
		a, b := append([]byte{}, rb.Body.Bytes()...), append([]byte{}, ri.Body.Bytes()...)
		sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
		sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
		same = bytes.Equal(a, b)
	}
	class := c.Class
	if class == "run" && c.Taken {
		class = "taken"
	}
	mu.Lock()
	in := inner[c.key()]
	mu.Unlock()
	return J{"e": "req", "svc": c.Svc, "m": c.M, "class": class, "req": n, "resp": ri.Body.Len(), "inner": in.Microseconds(),
		"outer": outer.Microseconds() + 1, "same": same, "code": ri.Code}
}

// own serves a request by a handler written by hand, that knows the statistics
func own(c *Case) J {
	us := func(n int64) time.Duration { return time.Duration(n) * time.Microsecond }
	handler := gp.InstrumentService(func(w http.ResponseWriter, r *http.Request) {
		stats, ok := gotsrpc.GetStatsForRequest(r)
		if !ok {
			w.WriteHeader(http.StatusInternalServerError)
			return
		}
		stats.Package, stats.Service, stats.Func = c.Pkg, c.Svc, c.Func
		stats.Unmarshalling, stats.Execution, stats.Marshalling = us(c.V.Un), us(c.V.Ex), us(c.V.Ma)
		stats.RequestSize, stats.ResponseSize = c.V.Req, c.V.Resp
		if c.Clear {
			gotsrpc.ClearStats(r)
		}
		w.Header().Set("X-Own", c.Func)
		w.WriteHeader(http.StatusAccepted)
		w.Write([]byte("own"))
	})
	w := httptest.NewRecorder()
	handler(w, httptest.NewRequest(http.MethodPost, "/own", nil))
	return J{"e": "own", "pkg": c.Pkg, "svc": c.Svc, "func": c.Func, "v": c.V, "cleared": c.Clear,
		"same": w.Code == http.StatusAccepted && w.Header().Get("X-Own") == c.Func && w.Body.String() == "own"}
}

type seen struct {
	n   uint64
	sum float64
}

var last = map[[5]string]seen{}

func look() J {
	now := map[[5]string]seen{}
	mfs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		return J{"e": "gather failed: " + err.Error()}
	}
	grown := []J{}
	for _, mf := range mfs {
		name := mf.GetName()
		if len(name) < 8 || (name[:8] != "gotsrpc_" && name[:6] != "gorpc_") {
			continue
		}
		for _, m := range mf.GetMetric() {
			k := [5]string{name}
			for _, l := range m.GetLabel() {
				switch l.GetName() {
				case "package":
					k[1] = l.GetValue()
				case "service":
					k[2] = l.GetValue()
				case "func":
					k[3] = l.GetValue()
				case "type":
					k[4] = l.GetValue()
				}
			}
			now[k] = seen{m.GetSummary().GetSampleCount(), m.GetSummary().GetSampleSum()}
		}
	}
	unit := func(k [5]string, x float64) int64 {
		switch k[0] {
		case "gotsrpc_service_time_nanoseconds":
			x /= 1000
		case "gorpc_service_time_seconds":
			x *= 1e6
		}
		return int64(math.Max(math.Min(math.Round(x), 2e9), -2e9))
	}
	keys := map[[5]string]bool{}
	for k := range now {
		keys[k] = true
	}
	for k := range last {
		keys[k] = true
	}
	for k := range keys {
		if now[k] != last[k] {
			grown = append(grown, J{"series": k, "n": int64(now[k].n) - int64(last[k].n), "sum": unit(k, now[k].sum-last[k].sum)})
		}
	}
	sort.Slice(grown, func(i, j int) bool { return fmt.Sprint(grown[i]["series"]) < fmt.Sprint(grown[j]["series"]) })
	last = now
	return J{"e": "look", "grown": grown}
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var groups []*Group
	if err := json.Unmarshal(b, &groups); err != nil {
		panic(err)
	}
	for i := 0; i < 3; i++ { // every service several times
		for _, s := range svc.Services {
			if s.NewProxy == nil {
				continue
			}
			st := &site{s: s}
			st.bare = s.NewProxy(hookFor(&st.cur))
			st.inst = gp.InstrumentService(s.NewProxy(hookFor(&st.cur)).ServeHTTP)
			sites[s.Name] = append(sites[s.Name], st)
		}
	}
	var gorpc []gotsrpc.GoRPCCallStatsHandlerFun
	for i := 0; i < 3; i++ {
		gorpc = append(gorpc, gp.InstrumentGoRPCService())
	}
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout, os.Stderr = null, null
	one := func(c *Case, i int) (ev J) {
		defer func() {
			if p := recover(); p != nil {
				ev = J{"e": "panic", "what": fmt.Sprint(p)}
			}
		}()
		if c.Kind == "gorpc" {
			gorpc[c.Inst-1](&gotsrpc.CallStats{Package: c.Pkg, Service: c.Svc, Func: c.Func, Execution: time.Duration(c.Us) * time.Microsecond})
			return J{"e": "gorpc", "pkg": c.Pkg, "svc": c.Svc, "func": c.Func, "lo": c.Us, "hi": c.Us}
		}
		if c.Kind == "own" {
			return own(c)
		}
		return serve(c, i)
	}
	traces := []J{{"ev": []J{look()}}}
	for _, g := range groups {
		var ev []J
		if g.Par {
			ev = make([]J, len(g.Cases))
			var wg sync.WaitGroup
			for i, c := range g.Cases {
				wg.Add(1)
				go func() { defer wg.Done(); ev[i] = one(c, i) }()
			}
			wg.Wait()
			ev = append(ev, look())
		} else {
			for i, c := range g.Cases {
				ev = append(ev, one(c, i))
				if c.Seed%3 > 0 {
					ev = append(ev, look())
				}
			}
			ev = append(ev, look())
		}
		traces = append(traces, J{"ev": ev})
	}
	out, _ := json.Marshal(traces)
	if err := os.WriteFile(os.Args[2], out, 0o644); err != nil {
		panic(err)
	}
}
