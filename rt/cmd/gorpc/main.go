// Command gorpc makes calls through generated GoRPC clients and servers and records what happens at
// the caller, the service implementation and the statistics handler.
package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"os"
	"reflect"
	"sync"
	"time"

	"example.com/fx/h"
	"example.com/fx/svc"
	gotsrpc "github.com/foomo/gotsrpc/v2"
	"github.com/valyala/gorpc"
)

type J map[string]interface{}

type Case struct {
	Id    string `json:"id"`
	Svc   string `json:"svc"`
	M     string `json:"m"`
	Prof  string `json:"prof"`
	ErrK  string `json:"errk"`
	Fault string `json:"fault"`
	Seed  uint64 `json:"seed"`
}

type Group struct {
	Tls   bool    `json:"tls"`
	Stats bool    `json:"stats"`
	Order []int   `json:"order"` // the order in which concurrent executions finish; empty: as they like
	Par   bool    `json:"par"`
	Cases []*Case `json:"cases"`
}

type tlog struct {
	mu    sync.Mutex
	ev    []J
	execs int
	stats int
}

func (l *tlog) add(e J) {
	l.mu.Lock()
	l.ev = append(l.ev, e)
	switch e["e"] {
	case "exec":
		l.execs++
	case "stat":
		l.stats++
	}
	l.mu.Unlock()
}

var (
	cur     *tlog // the group running now
	curMu   sync.Mutex
	salt    uint64
	seedNow uint64
	plan    *planT
)

// planT decides what the implementation does in the current group
type planT struct {
	mu      sync.Mutex
	results map[string][]*pending // by service, method, arguments
	inside  int
	want    int
	all     chan struct{}
}

type pending struct {
	rets  []interface{}
	toks  []string
	leave chan struct{}
	in    chan struct{}
	done  bool
}

func key(s, m string, toks []string) string { return fmt.Sprint(s, "\x00", m, "\x00", toks) }

func log() *tlog {
	curMu.Lock()
	defer curMu.Unlock()
	return cur
}

func hook(s, m string, w http.ResponseWriter, r *http.Request, args []interface{}) []interface{} {
	toks := make([]string, len(args))
	for i, a := range args {
		toks[i] = h.Tok(a)
	}
	curMu.Lock()
	pl := plan
	curMu.Unlock()
	pl.mu.Lock()
	var p *pending
	for _, x := range pl.results[key(s, m, toks)] {
		if !x.done {
			p = x
			break
		}
	}
	if p == nil { // a call nobody made: the results do not matter
		pl.mu.Unlock()
		log().add(J{"e": "exec", "svc": s, "m": m, "w": w != nil, "r": r != nil, "args": toks, "rets": []string{}})
		return nil
	}
	p.done = true
	pl.mu.Unlock()
	log().add(J{"e": "exec", "svc": s, "m": m, "w": w != nil, "r": r != nil, "args": toks, "rets": p.toks})
	close(p.in)
	if p.leave != nil {
		select {
		case <-p.leave:
		case <-time.After(5 * time.Second):
		}
	}
	return p.rets
}

func stats(st *gotsrpc.CallStats) {
	log().add(J{"e": "stat", "pkg": st.Package, "svc": st.Service, "func": st.Func, "negative": st.Execution < 0})
}

func tlsConfigs() (srv, cli *tls.Config) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "x"}, NotAfter: time.Now().Add(24 * time.Hour),
		IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(der)
	pool := x509.NewCertPool()
	pool.AddCert(c)
	return &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: k}}}, &tls.Config{RootCAs: pool, ServerName: "127.0.0.1"}
}

var srvTLS, cliTLS = tlsConfigs()

type server struct {
	s      *h.Service
	proxy  interface{}
	client interface{}
	addr   string
}

func freeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	for try := 0; err != nil && try < 40; try++ {
		time.Sleep(time.Duration(try) * 20 * time.Millisecond)
		l, err = net.Listen("tcp", "127.0.0.1:0")
	}
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}

func call0(x interface{}, name string, in ...reflect.Value) []reflect.Value {
	return reflect.ValueOf(x).MethodByName(name).Call(in)
}

func gclient(c interface{}) *gorpc.Client {
	return reflect.ValueOf(c).Elem().FieldByName("Client").Interface().(*gorpc.Client)
}

func start(s *h.Service, withTLS, withStats, alive bool, timeout time.Duration) *server {
	for try := 0; ; try++ {
		x := &server{s: s, addr: freeAddr()}
		var st, ct *tls.Config
		if withTLS {
			st, ct = srvTLS, cliTLS
		}
		x.proxy = s.NewGoRPCProxy(x.addr, hook, st)
		if withStats {
			call0(x.proxy, "SetCallStatsHandler", reflect.ValueOf(gotsrpc.GoRPCCallStatsHandlerFun(stats)))
		}
		if alive {
			if err := call0(x.proxy, "Start")[0]; !err.IsNil() {
				if try > 20 {
					panic(err.Interface())
				}
				continue
			}
		}
		x.client = s.NewGoRPCClient(x.addr, ct)
		gclient(x.client).RequestTimeout = timeout
		call0(x.client, "Start")
		return x
	}
}

func (x *server) stop(alive bool) {
	call0(x.client, "Stop")
	if alive {
		call0(x.proxy, "Stop")
	}
}

// stable returns the value as gob gives it back, and whether it stays like that
func stable(v reflect.Value) (reflect.Value, bool) {
	t := reflect.StructOf([]reflect.StructField{{Name: "V", Type: v.Type()}, {Name: "Z", Type: reflect.TypeOf(0)}})
	trip := func(v reflect.Value) (reflect.Value, bool) {
		in, out := reflect.New(t), reflect.New(t)
		in.Elem().Field(0).Set(v)
		in.Elem().Field(1).SetInt(1)
		var b bytes.Buffer
		if gob.NewEncoder(&b).EncodeValue(in) != nil || gob.NewDecoder(&b).DecodeValue(out) != nil {
			return v, false
		}
		return out.Elem().Field(0), true
	}
	a, ok := trip(v)
	if !ok {
		return v, false
	}
	b, ok := trip(a)
	return a, ok && h.TokV(a) == h.TokV(b)
}

func genErr(c *Case, i int) error {
	txt := fmt.Sprintf("e%s.%d", c.Id, i)
	switch c.ErrK {
	case "coded":
		return &svc.Coded{Text: txt, N: 7}
	case "fail":
		return &svc.Fail{Message: txt, Code: 3, Hints: []string{txt}}
	case "codedval":
		return svc.ValErr{Code: 5}
	}
	return nil
}

func vals(c *Case, ts []reflect.Type, salt uint64) []reflect.Value {
	vs := make([]reflect.Value, len(ts))
	for i, t := range ts {
		if t == h.ErrorType {
			v := reflect.New(t).Elem()
			if e := genErr(c, i); e != nil {
				v.Set(reflect.ValueOf(e))
			}
			vs[i] = v
			continue
		}
		vs[i] = reflect.New(t).Elem()
		if c.Prof == "zero" {
			continue
		}
		o := h.GenOpts{Finite: true, Plain: c.Prof == "plain", Big: c.Prof == "big"}
		if c.Prof == "plain" {
			o.Tag = fmt.Sprintf("%s.%d.%d/", c.Id, salt, i)
		}
		r := h.NewRand(c.Seed*37 + salt*101 + uint64(i))
		for n := 0; n < 60; n++ {
			v, ok := stable(r.Gen(t, o))
			if ok {
				vs[i] = v
				break
			}
		}
	}
	return vs
}

func toks(vs []reflect.Value) []string {
	r := make([]string, len(vs))
	for i, v := range vs {
		r[i] = h.Tok(v.Interface())
	}
	return r
}

type prepared struct {
	c    *Case
	args []reflect.Value
	p    *pending
	m    *h.Method
}

func prepare(c *Case, s *h.Service, pl *planT, gate bool) *prepared {
	m := s.Method(c.M)
	pr := &prepared{c: c, m: m, args: vals(c, m.Args, 1)}
	rets := vals(c, m.Rets, 2)
	if c.Fault == "unencArg" || c.Fault == "unencRet" {
		bad := reflect.ValueOf([]*svc.Person{{Name: "a"}, nil})
		if c.Fault == "unencArg" {
			pr.args[2] = bad
		} else {
			rets[1] = bad
		}
	}
	p := &pending{toks: toks(rets), in: make(chan struct{})}
	for _, v := range rets {
		p.rets = append(p.rets, v.Interface())
	}
	if gate {
		p.leave = make(chan struct{})
	}
	k := key(s.Name, c.M, toks(pr.args))
	pl.mu.Lock()
	pl.results[k] = append(pl.results[k], p)
	pl.mu.Unlock()
	pr.p = p
	return pr
}

func (pr *prepared) run(x *server, l *tlog) {
	defer func() {
		if p := recover(); p != nil {
			l.add(J{"e": "panic", "k": pr.c.Id, "what": fmt.Sprint(p)})
		}
	}()
	l.add(J{"e": "call", "k": pr.c.Id, "svc": x.s.Name, "m": pr.c.M, "args": toks(pr.args), "fault": pr.c.Fault})
	out := reflect.ValueOf(x.client).MethodByName(pr.c.M).Call(pr.args)
	n := len(out) - 1
	if !out[n].IsNil() {
		zero := true
		for _, o := range out[:n] {
			zero = zero && o.IsZero()
		}
		l.add(J{"e": "fail", "k": pr.c.Id, "zero": zero, "what": fmt.Sprint(out[n].Interface())})
		return
	}
	l.add(J{"e": "return", "k": pr.c.Id, "rets": toks(out[:n])})
}

var (
	byName  = map[string]*h.Service{}
	servers = map[string]*server{}
)

func begin(handler bool) (*tlog, *planT) {
	l := &tlog{}
	pl := &planT{results: map[string][]*pending{}}
	curMu.Lock()
	cur, plan = l, pl
	curMu.Unlock()
	l.add(J{"e": "setup", "handler": handler})
	return l, pl
}

func (l *tlog) settle(handler bool) {
	for i := 0; i < 400; i++ {
		l.mu.Lock()
		ok := !handler || l.stats >= l.execs
		l.mu.Unlock()
		if ok {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	l.add(J{"e": "end"})
}

func group(g *Group) []J {
	c0 := g.Cases[0]
	s := byName[c0.Svc]
	if c0.Fault == "none" {
		k := fmt.Sprint(s.Name, g.Tls, g.Stats)
		x := servers[k]
		if x == nil {
			x = start(s, g.Tls, g.Stats, true, 20*time.Second)
			servers[k] = x
		}
		l, pl := begin(g.Stats)
		var prs []*prepared
		for _, c := range g.Cases {
			prs = append(prs, prepare(c, s, pl, len(g.Order) > 0))
		}
		if !g.Par {
			for _, pr := range prs {
				pr.run(x, l)
			}
		} else {
			var wg sync.WaitGroup
			ends := make([]chan struct{}, len(prs))
			for i, pr := range prs {
				wg.Add(1)
				ends[i] = make(chan struct{})
				go func() { defer wg.Done(); pr.run(x, l); close(ends[i]) }()
			}
			if len(g.Order) > 0 {
				for _, pr := range prs {
					select {
					case <-pr.p.in:
					case <-time.After(3 * time.Second):
					}
				}
				for _, i := range g.Order {
					close(prs[i-1].p.leave)
					if i%2 == 0 { // let it return before the next one finishes
						select {
						case <-ends[i-1]:
						case <-time.After(20 * time.Millisecond):
						}
					}
				}
			}
			wg.Wait()
		}
		l.settle(g.Stats)
		return l.ev
	}
	l, pl := begin(g.Stats)
	x := start(s, g.Tls, g.Stats, c0.Fault != "dead", 250*time.Millisecond)
	pr := prepare(c0, s, pl, c0.Fault == "mid")
	done := make(chan struct{})
	go func() { pr.run(x, l); close(done) }()
	if c0.Fault == "mid" {
		select {
		case <-pr.p.in:
		case <-time.After(3 * time.Second):
		}
		go func() {
			select {
			case <-done:
			case <-time.After(2 * time.Second):
			}
			close(pr.p.leave)
		}()
	}
	<-done
	if c0.Fault == "mid" {
		time.Sleep(10 * time.Millisecond)
	}
	x.stop(c0.Fault != "dead")
	l.settle(g.Stats)
	return l.ev
}

func main() {
	gorpc.SetErrorLogger(gorpc.NilErrorLogger)
	for _, v := range []interface{}{&svc.Coded{}, &svc.Fail{}, svc.ValErr{}, map[string]interface{}{}, []interface{}{}} {
		gob.Register(v)
	}
	for _, s := range svc.Services {
		byName[s.Name] = s
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var groups []*Group
	if err := json.Unmarshal(b, &groups); err != nil {
		panic(err)
	}
	traces := make([]J, len(groups))
	for i, g := range groups {
		traces[i] = J{"ev": group(g)}
	}
	// anything that happens after the end of its group is an event too many in an empty last group
	l, _ := begin(true)
	time.Sleep(100 * time.Millisecond)
	l.add(J{"e": "end"})
	for _, x := range servers {
		x.stop(true)
	}
	traces = append(traces, J{"ev": l.ev})
	out, _ := json.Marshal(traces)
	if err := os.WriteFile(os.Args[2], out, 0o644); err != nil {
		panic(err)
	}
}
