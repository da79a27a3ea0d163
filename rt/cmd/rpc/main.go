// Command rpc runs call scenarios against generated proxies and clients and records what happens at
// the public seams: the service implementation, the HTTP client, the response writer, the statistics
// handler, the monitor and the caller.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"example.com/fx/dep"
	"example.com/fx/h"
	"example.com/fx/svc"

	"github.com/foomo/gotsrpc/v2"
)

type J = map[string]interface{}

type Op struct {
	Op string `json:"op"`
	N  int    `json:"n"`
	A  string `json:"a"`
	B  string `json:"b"`
}

type Case struct {
	Kind   string `json:"kind"` // call | raw
	Svc    string `json:"svc"`
	M      string `json:"m"`
	Cli    string `json:"cli"`
	Enc    string `json:"enc"`
	Hdr    string `json:"hdr"`
	Via    string `json:"via"`
	Fault  string `json:"fault"`
	Script []Op   `json:"script"`
	Inst   bool   `json:"inst"`
	Epv    string `json:"epv"`
	Unenc  bool   `json:"unenc"`
	ErrK   string `json:"errk"`
	Path   string `json:"path"`
	Verb   string `json:"verb"`
	Ct     string `json:"ct"`
	Body   string `json:"body"`
	Pos    int    `json:"pos"`
	Prof   string `json:"prof"`
	Seed   uint64 `json:"seed"`
	Id     string `json:"id"`
	Gates  bool   `json:"gates"`
	Tag    string `json:"tag"`
}

type Group struct {
	Cases []*Case `json:"cases"`
	// concurrent groups: the order in which calls pass their gates
	Sched []int `json:"sched"`
	Par   bool  `json:"par"`
}

type call struct {
	k     string
	c     *Case
	s     *h.Service
	m     *h.Method
	args  []reflect.Value
	rets  []interface{}
	nonce string
	front *http.Request      // the request as it arrived
	stop  context.CancelFunc // ends the context it arrived with
	log   *tlog
	gate  *gate
	inFlt sync.WaitGroup
	tries atomic.Int32
	state atomic.Int32 // 1 the request reached the server, 2 it is not expected to anymore
	// fault plumbing
	cancel context.CancelFunc
	// what the two sides hold on to
	seen             []interface{} // arguments the method was given
	out              []reflect.Value
	held             []*gotsrpc.CallStats // what the handlers of statistics and the monitor were given
	monArgs, monRets []interface{}
	monStats         *gotsrpc.CallStats
	entered          chan struct{}
	leave            chan struct{}
}

type tlog struct {
	mu sync.Mutex
	ev []J
}

func (l *tlog) add(e J) {
	l.mu.Lock()
	l.ev = append(l.ev, e)
	l.mu.Unlock()
}

var (
	mu       sync.Mutex
	byID     = map[string]*call{}
	byGo     = map[string]*call{}
	sentinel = errors.New("sentinel transport failure")
	orphans  []J
)

func goid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	return strings.Fields(string(b[:n]))[1]
}
func bind(c *call) func() {
	g := goid()
	mu.Lock()
	byGo[g] = c
	mu.Unlock()
	return func() { mu.Lock(); delete(byGo, g); mu.Unlock() }
}
func current() *call {
	g := goid()
	mu.Lock()
	defer mu.Unlock()
	if c := byGo[g]; c != nil {
		return c
	}
	// code running on a goroutine of its own: unambiguous only if a single call is in flight
	var only *call
	for _, c := range byGo {
		if only != nil && only != c {
			return nil
		}
		only = c
	}
	return only
}
func lookup(k string) *call {
	mu.Lock()
	defer mu.Unlock()
	return byID[k]
}

// ---------------------------------------------------------------- gates

type gate struct {
	arrive chan string
	pass   chan struct{}
	free   chan struct{} // closed when the schedule is over
}

func (c *call) at(name string) {
	if c == nil || c.gate == nil {
		return
	}
	g := c.gate
	select {
	case <-g.free:
		return
	default:
	}
	select {
	case g.arrive <- name:
	case <-g.free:
		return
	}
	select {
	case <-g.pass:
	case <-g.free:
	}
}

// ---------------------------------------------------------------- service side

func opts(c *Case, tag string, ms bool) h.GenOpts {
	return h.GenOpts{Tag: tag, MsTimes: ms, Finite: true, Plain: c.Prof == "plain", Big: c.Prof == "big"}
}

func genVals(c *Case, ts []reflect.Type, salt uint64, ms bool) []reflect.Value {
	r := h.NewRand(c.Seed*31 + salt)
	vs := make([]reflect.Value, len(ts))
	for i, t := range ts {
		if c.Prof == "zero" {
			vs[i] = reflect.New(t).Elem()
			continue
		}
		tag := ""
		if c.Prof == "plain" || c.Prof == "tag" {
			tag = fmt.Sprintf("%s.%d.%d/", c.Id, salt, i)
		}
		vs[i] = r.Gen(t, opts(c, tag, ms))
		if t == reflect.TypeOf(dep.Gate{}) {
			vs[i] = reflect.ValueOf(dep.Gate{ID: fmt.Sprintf("%s.%d.%d", c.Id, salt, i)})
		}
		if c.Prof == "deep" {
			h.Deepen(vs[i], 20+int(c.Seed%80))
		}
	}
	if c.Prof == "huge" && len(ts) > 0 {
		// one value is large
		n := []int{1 << 20, 3 << 20, 9 << 20, 17 << 20, 34 << 20}[(c.Seed+salt)%5]
		for i := 0; i < len(ts) && !h.Inflate(vs[(int(c.Seed%7)+i)%len(ts)], n, 5); i++ {
		}
	}
	return vs
}

func genErr(c *Case, r *h.Rand, i int) error {
	txt := fmt.Sprintf("e%s.%d", c.Id, i)
	switch c.ErrK {
	case "nil":
		return nil
	case "plain":
		return errors.New(txt)
	case "wrap":
		return fmt.Errorf("outer %s: %w", c.Id, fmt.Errorf("inner: %w", errors.New(txt)))
	case "coded":
		return &svc.Coded{Text: txt, N: []int{7 + r.N(90), 0, 1, -3}[r.N(4)]}
	case "fail":
		return &svc.Fail{Message: txt, Code: r.N(1000), Hints: []string{txt}}
	case "codedval":
		return svc.ValErr{Code: r.N(3)}
	}
	return nil
}

type frontKey struct{}

// arrived: r is the request of the call, as it arrived, with the context of the middleware in front of the service
func arrived(c *call, r *http.Request, end bool) bool {
	f := c.front
	if r == nil || f == nil || r.Header.Get("X-Verif-Nonce") != c.nonce {
		return false
	}
	if r.Method != f.Method || r.URL.String() != f.URL.String() || r.RequestURI != f.RequestURI || r.Host != f.Host || r.RemoteAddr != f.RemoteAddr || r.Proto != f.Proto ||
		r.ContentLength != f.ContentLength || !reflect.DeepEqual(r.Header, f.Header) || r.Context().Value(frontKey{}) != c || r.Context().Value(http.ServerContextKey) == nil {
		return false
	}
	if end {
		c.stop()
		return r.Context().Err() != nil
	}
	return true
}

func hook(name, method string, w http.ResponseWriter, r *http.Request, args []interface{}) []interface{} {
	c := current()
	if c == nil {
		mu.Lock()
		orphans = append(orphans, J{"what": "exec", "svc": name, "m": method})
		mu.Unlock()
		return nil
	}
	toks := make([]string, len(args))
	for i, a := range args {
		toks[i] = h.Tok(a)
	}
	c.seen = args
	sess := J{"w": w != nil, "r": arrived(c, r, c.c.Seed%3 == 0)}
	c.log.add(J{"e": "exec", "k": c.k, "svc": name, "m": method, "args": toks, "sess": sess})
	c.at("exec")
	if c.entered != nil {
		close(c.entered)
		select {
		case <-c.leave:
		case <-time.After(5 * time.Second):
		}
	}
	if w != nil {
		for _, o := range c.c.Script {
			switch o.Op {
			case "status":
				c.log.add(J{"e": "hstatus", "k": c.k, "n": o.N})
				w.WriteHeader(o.N)
			case "header":
				c.log.add(J{"e": "hheader", "k": c.k, "h": []string{o.A, o.B}})
				w.Header().Set(o.A, o.B)
			case "write":
				c.log.add(J{"e": "hwrite", "k": c.k, "t": textTok(o.A)})
				_, _ = io.WriteString(w, o.A)
			}
		}
	}
	sm := service(name).Method(method)
	if sm == nil {
		return nil
	}
	rets := c.rets
	if sm != c.m { // a method that should not have run
		rets = nil
	}
	var rt []string
	for i, t := range sm.Rets {
		var v interface{}
		if i < len(rets) {
			v = rets[i]
		}
		rt = append(rt, retTok(t, v))
	}
	if rt == nil {
		rt = []string{}
	}
	last := J{"nil": true, "code": 0, "type": "", "msg": ""}
	if n := len(rets); n > 0 {
		if e, ok := rets[n-1].(error); ok && !nilErr(e) {
			last = J{"nil": false, "code": 1, "type": fmt.Sprintf("%T", e), "msg": e.Error()}
			if x, ok := e.(interface{ ErrorCode() int }); ok {
				last["code"] = x.ErrorCode()
			}
		}
	}
	c.log.add(J{"e": "ret", "k": c.k, "rets": rt, "unenc": c.c.Unenc, "last": last})
	c.at("ret")
	return rets
}

func nilErr(e error) bool {
	if e == nil {
		return true
	}
	v := reflect.ValueOf(e)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

// retTok is the token of a result of declared type t.
func retTok(t reflect.Type, v interface{}) string {
	p := reflect.New(t)
	if v != nil {
		p.Elem().Set(reflect.ValueOf(v))
	}
	return h.TokV(p.Elem())
}

func service(name string) *h.Service {
	for _, s := range svc.Services {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// ---------------------------------------------------------------- server

type recorder struct {
	http.ResponseWriter
	c      *call
	status int
	n      int
}

func (r *recorder) WriteHeader(s int) {
	if r.status == 0 && s >= 200 {
		r.status = s
	}
	r.ResponseWriter.WriteHeader(s)
}
func (r *recorder) Write(b []byte) (int, error) {
	if r.status == 0 {
		r.status = 200
	}
	r.c.at("write")
	n, err := r.ResponseWriter.Write(b)
	r.n += n
	return n, err
}

type gatedBody struct {
	io.Reader
	c    *call
	name string
	once bool
	cl   func()
}

func (g *gatedBody) Read(b []byte) (int, error) {
	if !g.once {
		g.once = true
		g.c.at(g.name)
	}
	return g.Reader.Read(b)
}
func (g *gatedBody) Close() error {
	if g.cl != nil {
		g.cl()
	}
	return nil
}

const otherEp = "/other-end.point"

type proxies struct{ handlers map[string]http.Handler }

func (p *proxies) get(s *h.Service, epv string) (http.Handler, string) {
	ep := s.Endpoint
	if epv != "default" {
		ep = otherEp + s.Endpoint
	}
	key := s.Name + " " + ep
	mu.Lock()
	defer mu.Unlock()
	if p.handlers[key] == nil {
		if epv != "default" {
			p.handlers[key] = s.NewProxyAt(hook, ep)
		} else {
			p.handlers[key] = s.NewProxy(hook)
		}
	}
	return p.handlers[key], ep
}

var (
	px   = &proxies{handlers: map[string]http.Handler{}}
	inst = map[string]http.HandlerFunc{}
)

func statsJ(s *gotsrpc.CallStats) J {
	if s == nil {
		return J{"pkg": "NIL", "svc": "", "func": "", "req": 0, "resp": 0, "durs": false, "code": 0, "type": "", "msg": ""}
	}
	return J{"pkg": s.Package, "svc": s.Service, "func": s.Func, "req": s.RequestSize, "resp": s.ResponseSize,
		"durs": s.Execution >= 0 && s.Marshalling >= 0 && s.Unmarshalling >= 0, "code": s.ErrorCode, "type": s.ErrorType, "msg": s.ErrorMessage}
}

func onStats(s *gotsrpc.CallStats) {
	c := current()
	if c == nil {
		mu.Lock()
		orphans = append(orphans, J{"what": "stats", "stats": statsJ(s)})
		mu.Unlock()
		return
	}
	c.log.mu.Lock()
	c.held = append(c.held, s)
	c.log.mu.Unlock()
	e := statsJ(s)
	e["e"], e["k"] = "stats", c.k
	c.log.add(e)
}

func monitor(w http.ResponseWriter, r *http.Request, args, rets []interface{}, stats *gotsrpc.CallStats) {
	c := current()
	if c == nil {
		mu.Lock()
		orphans = append(orphans, J{"what": "monitor"})
		mu.Unlock()
		return
	}
	c.at("mon")
	at := monArgs(args)
	rt := monRets(c, rets)
	blen := -1
	if rec := recOf(c); rec != nil {
		blen = rec.n
	}
	c.monArgs, c.monRets, c.monStats = args, rets, stats
	c.log.add(J{"e": "mon", "k": c.k, "args": at, "rets": rt, "req": arrived(c, r, false), "blen": blen, "stats": statsJ(stats)})
}

func monArgs(args []interface{}) []string {
	at := []string{}
	for _, a := range args {
		v := reflect.ValueOf(a)
		if v.Kind() != reflect.Ptr || v.IsNil() {
			at = append(at, "NOTPTR")
			continue
		}
		at = append(at, h.TokV(v.Elem()))
	}
	return at
}

func monRets(c *call, rets []interface{}) []string {
	rt := []string{}
	for i, v := range rets {
		if i < len(c.m.Rets) {
			func() {
				defer func() {
					if p := recover(); p != nil {
						rt = append(rt, fmt.Sprintf("TYPE %T", v))
					}
				}()
				rt = append(rt, retTok(c.m.Rets[i], v))
			}()
			if e, ok := v.(error); ok && v != nil && !nilErr(e) && reflect.TypeOf(v) != reflect.TypeOf(c.rets[i]) {
				rt[len(rt)-1] = fmt.Sprintf("TYPE %T", v)
			}
		} else {
			rt = append(rt, h.Tok(v))
		}
	}
	return rt
}

var recs = map[*call]*recorder{}

func recOf(c *call) *recorder { mu.Lock(); defer mu.Unlock(); return recs[c] }

func serve(w http.ResponseWriter, r *http.Request) {
	c := lookup(r.Header.Get("X-Verif-Call"))
	if c == nil {
		http.Error(w, "no call", 599)
		return
	}
	if !c.state.CompareAndSwap(0, 1) && c.state.Load() == 2 {
		http.Error(w, "too late", 599)
		return
	}
	defer c.inFlt.Done()
	defer bind(c)()
	r.Header.Del("X-Verif-Call")
	ctx, stop := context.WithCancel(context.WithValue(r.Context(), frontKey{}, c))
	defer stop()
	r = r.WithContext(ctx)
	c.front, c.stop = r.Clone(ctx), stop
	key := c.s.Name + c.c.Epv
	if !c.c.Inst {
		inner(w, r)
	} else {
		mu.Lock()
		f := inst[key]
		if f == nil {
			f = gotsrpc.InstrumentedService(inner, onStats)
			inst[key] = f
		}
		mu.Unlock()
		func() {
			defer func() { _ = recover() }()
			f(w, r)
		}()
	}
	c.log.add(J{"e": "close", "k": c.k})
}

func inner(w http.ResponseWriter, r *http.Request) {
	c := current()
	body, _ := io.ReadAll(r.Body)
	p, ep := px.get(c.s, c.c.Epv)
	ev := J{"e": "recv", "k": c.k, "svc": c.s.Name, "ep": ep, "verb": r.Method, "path": r.URL.Path,
		"ctype": r.Header.Get("Content-Type"), "clen": int(r.ContentLength), "inst": c.c.Inst, "fit": true, "bodyok": true}
	if c.c.Kind == "raw" {
		fit, args := rawBody(c)
		ev["fit"], ev["args"] = fit, args
	} else {
		args, ok := decodeArgs(c, r.Header.Get("Content-Type"), body)
		ev["args"], ev["bodyok"] = args, ok
	}
	c.log.add(ev)
	c.at("recv")
	r.Body = &gatedBody{Reader: bytes.NewReader(body), c: c, name: "body"}
	rec := &recorder{ResponseWriter: w, c: c}
	mu.Lock()
	recs[c] = rec
	mu.Unlock()
	panicked := false
	func() {
		defer func() {
			if x := recover(); x != nil {
				panicked = true
				fmt.Fprintln(os.Stderr, "PANIC", c.k, x)
			}
		}()
		p.ServeHTTP(rec, r)
	}()
	st := rec.status
	if st == 0 {
		st = 200
	}
	c.log.add(J{"e": "end", "k": c.k, "status": st, "blen": rec.n, "panic": panicked})
	c.at("end")
}

const msgpackType = "application/msgpack; charset=utf-8"

func encOf(ct string) string {
	if ct == msgpackType {
		return "msgpack"
	}
	return "json"
}

// decodeArgs decodes a request body of a client with the driver's own codec.
func decodeArgs(c *call, ct string, body []byte) ([]string, bool) {
	if len(c.m.Args) == 0 {
		return []string{}, len(body) == 0
	}
	toks, n, err := h.DecodeReply(encOf(ct), body, c.m.Args)
	if err != nil || n != len(c.m.Args) {
		if toks == nil {
			toks = []string{}
		}
		return toks, false
	}
	return toks, true
}

// ---------------------------------------------------------------- clients

type tap struct {
	name string
	base http.RoundTripper
}

type ctxKey struct{}

func hdrSet(hd http.Header) []interface{} {
	var ks []string
	for k := range hd {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := []interface{}{}
	for _, k := range ks {
		v := hd[k]
		if v == nil {
			v = []string{}
		}
		r = append(r, []interface{}{k, append([]string{}, v...)})
	}
	return r
}

type failingReader struct {
	r   io.Reader
	err error
}

func (f *failingReader) Read(b []byte) (int, error) {
	n, err := f.r.Read(b)
	if err == io.EOF {
		err = f.err
	}
	return n, err
}

var (
	lateMu sync.Mutex
	late   []io.ReadCloser
)

// readLate goes on with the requests that were answered early
func readLate() {
	lateMu.Lock()
	ls := late
	late = nil
	lateMu.Unlock()
	for _, b := range ls {
		_, _ = io.CopyN(io.Discard, b, 40)
		_ = b.Close()
	}
}

func (t *tap) RoundTrip(r *http.Request) (*http.Response, error) {
	c, _ := r.Context().Value(ctxKey{}).(*call)
	if c == nil {
		return nil, errors.New("driver: no call in context")
	}
	// what a real transport would send: the URL the request was built with
	c.log.add(J{"e": "send", "k": c.k, "verb": r.Method, "url": r.URL.String(), "hdrs": hdrSet(r.Header), "via": t.name})
	c.at("send")
	if c.c.Fault == "refused" {
		return nil, sentinel
	}
	if c.c.Fault == "early" {
		// the server answers before it has read the request, the rest of which is sent later
		_, _ = r.Body.Read(make([]byte, 5))
		lateMu.Lock()
		late = append(late, r.Body)
		lateMu.Unlock()
		body := []byte("enough of " + c.k)
		resp := &http.Response{StatusCode: 503, Status: "503 Service Unavailable", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{"Content-Type": {"text/plain"}}, ContentLength: int64(len(body)), Request: r, Body: io.NopCloser(bytes.NewReader(body))}
		logGot(c, resp, body, false)
		return resp, nil
	}
	readLate()
	r2 := r.Clone(r.Context())
	r2.Header.Set("X-Verif-Call", c.k)
	r2.Header.Set("X-Verif-Nonce", c.nonce)
	c.inFlt.Add(1)
	resp, err := t.base.RoundTrip(r2)
	if err != nil {
		// the request may have arrived before
		for i := 0; i < 60 && c.state.Load() == 0 && c.c.Fault != "ctxpre"; i++ {
			time.Sleep(5 * time.Millisecond)
		}
		if c.state.CompareAndSwap(0, 2) {
			c.inFlt.Done()
		}
		return nil, err
	}
	body, rerr := io.ReadAll(resp.Body)
	resp.Body.Close()
	if rerr != nil {
		return nil, rerr
	}
	readerr := false
	if e := lostErr(c); e != nil && (c.c.Seed%2 == 0 || c.tries.Add(1) == 1) {
		return nil, e
	}
	switch f := c.c.Fault; {
	case f == "trunc" || f == "late" || f == "cut" || f == "cuthalf":
		// the body ends with an error, after part of it or after all of it
		readerr = true
		part, e := body, error(sentinel)
		if f == "trunc" || f == "cuthalf" {
			part = body[:len(body)/2]
		}
		if f == "cut" || f == "cuthalf" {
			e = io.ErrUnexpectedEOF
		}
		resp.Body = io.NopCloser(&failingReader{bytes.NewReader(part), e})
	case strings.HasPrefix(f, "status:"):
		n, _ := strconv.Atoi(f[7:])
		resp.StatusCode = n
		resp.Status = fmt.Sprintf("%d X", n)
		switch c.c.Seed % 4 {
		case 0:
			body = []byte("substituted body " + c.k)
		case 1: // an error page of any length
			body = bytes.Repeat([]byte("substituted "+c.k+"\n"), 1+int(c.c.Seed>>2%(64<<10)))
		}
		resp.Body = io.NopCloser(bytes.NewReader(body))
	case f == "badbody":
		resp.Body = io.NopCloser(bytes.NewReader(badReply(c, encOf(resp.Header.Get("Content-Type")))))
	case f == "reenc":
		// the same results in the other encoding
		enc := "json"
		if encOf(resp.Header.Get("Content-Type")) == "json" {
			enc = "msgpack"
		}
		var parts [][]byte
		for i, t := range c.m.Rets {
			v := reflect.New(t).Elem()
			if i < len(c.rets) && c.rets[i] != nil {
				v.Set(reflect.ValueOf(c.rets[i]))
			}
			parts = append(parts, h.EncodeOne(enc, v))
		}
		body = h.EncodeArray(enc, parts)
		resp.Header.Set("Content-Type", map[string]string{"json": "application/json; charset=utf-8", "msgpack": msgpackType}[enc])
		resp.Body = io.NopCloser(bytes.NewReader(body))
	default:
		resp.Body = io.NopCloser(bytes.NewReader(body))
	}
	if !readerr && c.c.Fault != "reenc" && c.c.Fault != "badbody" {
		resp.Body = io.NopCloser(bytes.NewReader(body))
	}
	logGot(c, resp, body, readerr)
	resp.Body = &gatedBody{Reader: resp.Body, c: c, name: "respbody"}
	return resp, nil
}

// lostErr is the error of a connection, that is lost after the request was served
func lostErr(c *call) error {
	switch c.c.Fault {
	case "eof":
		return io.EOF
	case "reset":
		return &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
	case "timeout":
		return os.ErrDeadlineExceeded
	case "closed":
		return errors.New("http: server closed idle connection")
	}
	return nil
}

// badReply is a body that is no array of results.
func badReply(c *call, enc string) []byte {
	pool := [][]byte{{}, []byte("["), []byte("<html>"), {0x93, 0xa1}, []byte("\"x"), {0xdc, 0x00}, []byte("[tru"), {0xd9, 0xff, 0x61}}
	for i := 0; ; i++ {
		b := pool[(int(c.c.Seed)+i)%len(pool)]
		if enc == "json" && len(b) > 0 && b[0] >= 0x80 {
			continue
		}
		if enc == "msgpack" && (len(b) > 0 && b[0] < 0x80) {
			continue
		}
		if len(c.m.Rets) == 0 && len(b) > 0 && b[0] == '[' {
			continue
		}
		return b
	}
}

func logGot(c *call, resp *http.Response, body []byte, readerr bool) {
	ct := resp.Header.Get("Content-Type")
	g := J{"e": "got", "k": c.k, "status": resp.StatusCode, "ctype": ct, "clen": int(resp.ContentLength), "n": len(body),
		"text": textTok(string(body)), "readerr": readerr, "ok": false, "cnt": 0, "vals": []string{}, "hdrs": []interface{}{}}
	hs := []interface{}{}
	for k, vs := range resp.Header {
		for _, v := range vs {
			hs = append(hs, []string{k, v})
		}
	}
	g["hdrs"] = hs
	if resp.StatusCode == 200 && c.c.Fault != "badbody" {
		vals, n, err := h.DecodeReply(encOf(ct), body, c.m.Rets)
		if err == nil {
			if vals == nil {
				vals = []string{}
			}
			g["ok"], g["cnt"], g["vals"] = true, n, vals
		}
	}
	c.log.add(g)
}

type client struct {
	inst interface{}
	enc  string
	hdr  string
	via  string
	orig http.Header
	tl   *http.Client
	base string
	ep   string
	svc  string
}

var (
	clients = map[string]*client{}
	taps    = map[string]*http.Client{}
	srv     *httptest.Server
)

func httpVia(name string) *http.Client {
	if taps[name] == nil {
		taps[name] = &http.Client{Transport: &tap{name: name, base: &http.Transport{MaxIdleConnsPerHost: 32}}, Timeout: 60 * time.Second}
	}
	return taps[name]
}

func headerVariant(n string) http.Header {
	switch n {
	case "plain":
		return http.Header{"X-Tenant": {"t1"}, "X-Multi": {"a", "b", "a"}, "Authorization": {"Bearer abc"}}
	case "conf":
		return http.Header{"Content-Type": {"text/plain", "second"}, "Accept": {"*/*"}, "X-Foomo-S2s": {"false", "no"}, "X-Keep": {"k"}}
	case "lower":
		return http.Header{"x-lower": {"v"}, "X-Empty": {""}, "Cookie": {"a=b; c=d"}}
	case "rawconf":
		return http.Header{"content-type": {"text/plain"}, "ACCEPT": {"*/*"}, "x-foomo-S2S": {"false"}, "x-Keep": {"k"}}
	case "ct":
		return http.Header{"Content-Type": {msgpackType}, "X-Only": {"1"}}
	}
	return nil
}

func encConst(e string) gotsrpc.ClientEncoding {
	if e == "json" {
		return gotsrpc.EncodingJson
	}
	return gotsrpc.EncodingMsgpack
}

// inner gotsrpc.Client of a generated client
func clientOf(x interface{}) gotsrpc.Client {
	return reflect.ValueOf(x).Elem().FieldByName("Client").Interface().(gotsrpc.Client)
}

func getClient(c *call, l *tlog) (string, *client) {
	cs := c.c
	key := cs.Svc + "/" + cs.Cli + "/" + cs.Epv
	cl := clients[key]
	if cl == nil {
		cl = &client{svc: cs.Svc, base: srv.URL, enc: "msgpack", hdr: "none", via: "default", ep: c.s.Endpoint}
		if cs.Epv == "other" {
			// part of the endpoint is in the URL
			cl.base, cl.ep = srv.URL+otherEp, c.s.Endpoint
		} else if cs.Epv == "slash" {
			// the slash is the last of the URL
			cl.base, cl.ep = srv.URL+otherEp+"/", strings.TrimPrefix(c.s.Endpoint, "/")
		}
		if strings.HasSuffix(cs.Cli, "n") {
			// no HTTP client given: the configured factory supplies it
			cl.inst = c.s.NewClientAt(cl.base, cl.ep, nil)
		} else if cs.Epv != "default" {
			cl.via = "made"
			cl.inst = c.s.NewClientAt(cl.base, cl.ep, httpVia("made"))
		} else {
			cl.inst = c.s.NewClient(cl.base, nil)
		}
		clients[key] = cl
	}
	inst := clientOf(cl.inst)
	if cs.Enc != cl.enc {
		inst.SetClientEncoding(encConst(cs.Enc))
		cl.enc = cs.Enc
	}
	if cs.Hdr != cl.hdr {
		cl.orig = headerVariant(cs.Hdr)
		inst.SetDefaultHeaders(cl.orig)
		cl.hdr = cs.Hdr
	}
	if cs.Via != "" && cs.Via != cl.via {
		inst.SetTransportHttpClient(httpVia(cs.Via))
		cl.via = cs.Via
	}
	l.add(J{"e": "cfg", "c": key, "enc": cl.enc, "hdrs": hdrSet(headerVariant(cl.hdr)), "via": cl.via, "base": cl.base})
	return key, cl
}

// ---------------------------------------------------------------- running

func newCall(cs *Case, l *tlog) *call {
	c := &call{k: cs.Id, c: cs, s: service(cs.Svc), log: l, nonce: "n-" + cs.Id}
	c.m = c.s.Method(cs.M)
	ms := cs.Kind == "call" && cs.Enc == "json" || cs.Kind == "raw" && encOf(cs.Ct) == "json" || cs.Fault == "reenc"
	c.args = genVals(cs, c.m.Args, 1, ms)
	r := h.NewRand(cs.Seed + 99)
	for i, v := range genVals(cs, c.m.Rets, 2, ms) {
		if c.m.Rets[i] == h.ErrorType {
			if e := genErr(cs, r, i); e == nil {
				c.rets = append(c.rets, nil)
			} else {
				c.rets = append(c.rets, e)
			}
			continue
		}
		c.rets = append(c.rets, v.Interface())
	}
	if cs.Unenc {
		for i, t := range c.m.Rets {
			switch {
			case t == reflect.TypeOf(dep.Gate{}):
				c.rets[i] = dep.Gate{ID: "!enc"}
			case t.Kind() == reflect.Interface && t.NumMethod() == 0:
				c.rets[i] = dep.Gate{ID: "!enc"}
			}
		}
	}
	if cs.Fault == "encode" {
		for i, t := range c.m.Args {
			switch {
			case t == reflect.TypeOf(dep.Gate{}):
				c.args[i] = reflect.ValueOf(dep.Gate{ID: "!enc"})
			case t.Kind() == reflect.Interface:
				v := reflect.New(t).Elem()
				v.Set(reflect.ValueOf(dep.Gate{ID: "!enc"}))
				c.args[i] = v
			}
		}
	}
	mu.Lock()
	byID[c.k] = c
	mu.Unlock()
	return c
}

func (c *call) forget() {
	mu.Lock()
	delete(byID, c.k)
	delete(recs, c)
	mu.Unlock()
}

func argToks(c *call) []string {
	r := []string{}
	for _, a := range c.args {
		r = append(r, h.TokV(a))
	}
	return r
}

func (c *call) run(cl *client, key string) {
	if c.c.Kind == "raw" {
		c.runRaw()
	} else {
		c.runCall(cl, key)
	}
	c.inFlt.Wait()
	c.log.add(J{"e": "fin", "k": c.k})
}

func (c *call) runCall(cl *client, key string) {
	ctx := context.WithValue(context.Background(), ctxKey{}, c)
	var wantCause error
	target := cl.inst
	switch c.c.Fault {
	case "ctxpre":
		var cancel context.CancelFunc
		ctx, cancel = context.WithCancel(ctx)
		cancel()
		wantCause = context.Canceled
	case "ctxmid":
		ctx, c.cancel = context.WithCancel(ctx)
		c.entered, c.leave = make(chan struct{}), make(chan struct{})
		wantCause = context.Canceled
		go func() {
			select {
			case <-c.entered:
			case <-time.After(2 * time.Second):
			}
			c.cancel()
		}()
	case "deadline":
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, 15*time.Millisecond)
		defer cancel()
		c.entered, c.leave = make(chan struct{}), make(chan struct{})
		wantCause = context.DeadlineExceeded
	case "refused", "trunc", "late":
		wantCause = sentinel
	case "cut", "cuthalf":
		wantCause = io.ErrUnexpectedEOF
	case "eof":
		wantCause = io.EOF
	case "reset":
		wantCause = syscall.ECONNRESET
	case "timeout":
		wantCause = os.ErrDeadlineExceeded
	case "badurl":
		target = c.s.NewClientAt("http://bad host:%zz", c.s.Endpoint, httpVia("bad"))
	case "badscheme":
		target = c.s.NewClientAt("://"+cl.base, c.s.Endpoint, httpVia("bad"))
	}
	c.log.add(J{"e": "begin", "k": c.k, "c": key, "svc": c.s.Name, "ep": cl.ep, "m": c.m.Name, "args": argToks(c), "fault": strings.Replace(c.c.Fault, "badscheme", "badurl", 1)})
	c.at("begin")
	in := []reflect.Value{reflect.ValueOf(ctx)}
	in = append(in, c.args...)
	done := make(chan []reflect.Value, 1)
	var pan interface{}
	go func() {
		defer func() {
			if p := recover(); p != nil {
				pan = p
				done <- nil
			}
		}()
		done <- reflect.ValueOf(target).MethodByName(c.m.Name).Call(in)
	}()
	var out []reflect.Value
	select {
	case out = <-done:
	case <-time.After(60 * time.Second):
		fmt.Println("HANG", c.k)
		os.Exit(3)
	}
	if c.leave != nil {
		close(c.leave)
	}
	d := J{"e": "done", "k": c.k, "nil": false, "ce": false, "he": false, "code": 0, "body": "", "cause": false, "zero": true, "rets": []string{}}
	if pan != nil {
		d["panic"] = fmt.Sprint(pan)
		fmt.Fprintln(os.Stderr, "PANIC", c.k, pan)
		d["nil"], d["zero"], d["rets"] = true, false, []string{"PANIC"}
		c.log.add(d)
		return
	}
	err, _ := out[len(out)-1].Interface().(error)
	rt := []string{}
	for i, v := range out[:len(out)-1] {
		rt = append(rt, h.TokV(v))
		if !v.IsZero() {
			d["zero"] = false
		}
		_ = i
	}
	c.out = out[:len(out)-1]
	d["rets"] = rt
	d["nil"] = err == nil
	if err != nil {
		var ce *gotsrpc.ClientError
		var he *gotsrpc.HTTPError
		d["ce"] = errors.As(err, &ce)
		if errors.As(err, &he) {
			d["he"], d["code"], d["body"] = true, he.StatusCode, textTok(he.Body)
		}
		d["cause"] = wantCause != nil && errors.Is(err, wantCause)
	}
	c.log.add(d)
	if cl.orig != nil {
		c.log.add(J{"e": "hcheck", "c": key, "hdrs": hdrSet(cl.orig)})
	}
}

// ---------------------------------------------------------------- raw requests

// rawBody says whether the body of the case holds the method's arguments, and which.
func rawBody(c *call) (bool, []string) {
	toks := argToks(c)
	zero := func(i int) { toks[i] = h.TokV(reflect.New(c.m.Args[i]).Elem()) }
	n := len(c.m.Args)
	switch c.c.Body {
	case "ok", "extra":
		return true, toks
	case "short":
		for i := c.c.Pos; i < n; i++ {
			zero(i)
		}
		return true, toks
	case "nullat":
		if c.c.Pos < n {
			zero(c.c.Pos)
		}
		return true, toks
	case "nulls", "emptyarr":
		for i := range toks {
			zero(i)
		}
		return true, toks
	}
	return false, toks
}

func misfit(enc string, t reflect.Type) []byte {
	arr, str, mp := []byte(`[["a"]]`), []byte(`"abc"`), []byte(`{"a":["b"]}`)
	num := []byte(`-7`)
	if enc == "msgpack" {
		arr, str, mp, num = []byte{0x91, 0x91, 0xa1, 'a'}, []byte{0xa3, 'a', 'b', 'c'}, []byte{0x81, 0xa1, 'a', 0x91, 0xa1, 'b'}, []byte{0xf9}
	}
	_ = mp
	switch t.Kind() {
	case reflect.Ptr:
		return misfit(enc, t.Elem())
	case reflect.String:
		return arr
	case reflect.Bool:
		return arr
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		return arr
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		return num
	case reflect.Float32, reflect.Float64:
		return arr
	case reflect.Struct, reflect.Map:
		return str
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return mp
		}
		return str
	}
	return nil
}

func buildBody(c *call) []byte {
	enc := encOf(c.c.Ct)
	var parts [][]byte
	for _, a := range c.args {
		parts = append(parts, h.EncodeOne(enc, a))
	}
	null, emptyArr := []byte("null"), []byte("[]")
	if enc == "msgpack" {
		null, emptyArr = []byte{0xc0}, []byte{0x90}
	}
	extra := []byte(`"extra"`)
	if enc == "msgpack" {
		extra = []byte{0xa1, 'x'}
	}
	p := c.c.Pos
	switch c.c.Body {
	case "ok":
		return h.EncodeArray(enc, parts)
	case "extra":
		return h.EncodeArray(enc, append(parts, extra, null))
	case "short":
		if p > len(parts) {
			p = len(parts)
		}
		return h.EncodeArray(enc, parts[:p])
	case "nullat":
		if p < len(parts) {
			parts[p] = null
		}
		return h.EncodeArray(enc, parts)
	case "nulls":
		for i := range parts {
			parts[i] = null
		}
		return h.EncodeArray(enc, parts)
	case "emptyarr":
		return emptyArr
	case "empty":
		return nil
	case "trunc":
		b := h.EncodeArray(enc, parts)
		n := len(b) - 1 - p
		if n < 0 {
			n = 0
		}
		if n >= len(b) {
			n = len(b) - 1
		}
		return b[:n]
	case "scalar":
		if enc == "msgpack" {
			return [][]byte{{0x07}, {0xa1, 'a'}, {0xc3}}[p%3]
		}
		return [][]byte{[]byte("7"), []byte(`"a"`), []byte("true")}[p%3]
	case "garbage":
		if enc == "msgpack" {
			return [][]byte{{0xc1}, {0xdc, 0xff}, {0xdd, 0, 0}, {0x91, 0xc1}}[p%4]
		}
		return [][]byte{[]byte("<xml/>"), []byte("[}"), []byte("]"), {0x91, 0xa1, 'a'}}[p%4]
	case "misfit":
		if p < len(parts) {
			parts[p] = misfit(enc, c.m.Args[p])
		}
		return h.EncodeArray(enc, parts)
	}
	return nil
}

func (c *call) rawPath() string {
	ep := c.s.Endpoint
	if c.c.Epv == "other" {
		ep = otherEp + ep
	}
	m := c.m.Name
	switch c.c.Path {
	case "exact":
		return ep + "/" + m
	case "lower":
		return ep + "/" + strings.ToLower(m[:1]) + m[1:]
	case "upper":
		return ep + "/" + strings.ToUpper(m)
	case "slash":
		return ep + "/" + m + "/"
	case "dslash":
		return ep + "//" + m
	case "suffix":
		return ep + "/" + m + "X"
	case "prefix":
		return ep + "/" + m[:len(m)-1]
	case "sub":
		return ep + "/x/" + m
	case "below":
		return ep + "/" + m + "/x"
	case "noep":
		return "/" + m
	case "eponly":
		return ep
	case "epslash":
		return ep + "/"
	case "epep":
		return ep + ep + "/" + m
	case "otherep":
		return "/zzz/" + m
	case "epfirst":
		return ep[:len(ep)-1] + "/" + m
	case "space":
		return ep + "/" + m + "%20"
	case "pct":
		return ep + "/" + fmt.Sprintf("%%%02X", m[0]) + m[1:]
	case "query":
		return ep + "/" + m + "?x=" + m + "&y=/" + m
	case "qonly":
		return ep + "/?" + m
	case "dot":
		return ep + "/./" + m
	case "svcm":
		return ep + "/" + c.s.Name + m
	case "svcdot":
		return ep + "/" + c.s.Name + "." + m
	case "null":
		return ep + "/" + m + "%00"
	case "uni":
		return ep + "/" + m + "%CC%81"
	case "semi":
		return ep + "/" + m + ";v=1"
	case "unknown":
		return ep + "/NoSuchMethod" + c.c.Tag
	case "under":
		return "/zzz" + ep + "/" + m
	case "twice":
		return ep + "/" + m + "/" + m
	case "dotdot":
		return ep + "/x/../" + m
	case "lead":
		return ep + "/%20" + m
	case "epname":
		return ep + m
	case "const":
		return ep + "/" + c.s.Name + "GoTSRPCProxy" + m
	}
	return ep + "/" + m
}

var rawClient = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 32}, Timeout: 60 * time.Second,
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}

func (c *call) runRaw() {
	body := buildBody(c)
	u := srv.URL + c.rawPath()
	req, err := http.NewRequest(c.c.Verb, u, bytes.NewReader(body))
	if err != nil {
		fmt.Println("DRIVER", err)
		os.Exit(4)
	}
	if c.c.Ct != "" {
		req.Header.Set("Content-Type", c.c.Ct)
	}
	req.Header.Set("X-Verif-Call", c.k)
	req.Header.Set("X-Verif-Nonce", c.nonce)
	req.Header.Set("Accept", "*/*")
	if c.c.Seed%4 == 1 {
		req.Header.Set("Accept", "application/json; charset=utf-8")
	} else if c.c.Seed%4 == 2 {
		req.Header.Set("Accept", msgpackType)
	}
	c.inFlt.Add(1)
	resp, err := rawClient.Do(req)
	if err != nil {
		c.log.add(J{"e": "rawerr", "k": c.k, "err": err.Error()})
		c.inFlt.Wait()
		return
	}
	b, rerr := io.ReadAll(resp.Body)
	resp.Body.Close()
	logGot(c, resp, b, rerr != nil)
}

// kept tells what the caller and the method hold in their hands after other calls have been made
func (c *call) kept() {
	args, rets := []string{}, []string{}
	for _, a := range c.seen {
		args = append(args, h.Tok(a))
	}
	for _, v := range c.out {
		rets = append(rets, h.TokV(v))
	}
	held := []J{}
	for _, s := range c.held {
		held = append(held, statsJ(s))
	}
	mon := J{"some": false}
	if c.monStats != nil {
		mon = J{"some": true, "args": monArgs(c.monArgs), "rets": monRets(c, c.monRets), "stats": statsJ(c.monStats)}
	}
	c.log.add(J{"e": "kept", "k": c.k, "args": args, "rets": rets, "held": held, "mon": mon})
}

// ---------------------------------------------------------------- groups

func runGroup(g *Group) []J {
	l := &tlog{}
	if !g.Par {
		var done []*call
		for _, cs := range g.Cases {
			c := newCall(cs, l)
			var cl *client
			var key string
			if cs.Kind == "call" {
				key, cl = getClient(c, l)
			}
			c.run(cl, key)
			c.forget()
			if cs.Prof != "huge" {
				done = append(done, c)
			}
		}
		readLate()
		for _, c := range done {
			c.kept()
		}
		return l.ev
	}
	var cs []*call
	type pr struct {
		key string
		cl  *client
	}
	var prs []pr
	for _, x := range g.Cases {
		c := newCall(x, l)
		p := pr{}
		if x.Kind == "call" {
			p.key, p.cl = getClient(c, l)
		}
		if g.Sched != nil {
			c.gate = &gate{arrive: make(chan string), pass: make(chan struct{}), free: make(chan struct{})}
		}
		cs = append(cs, c)
		prs = append(prs, p)
	}
	var wg sync.WaitGroup
	fin := make([]chan struct{}, len(cs))
	for i, c := range cs {
		i, c := i, c
		fin[i] = make(chan struct{})
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer close(fin[i])
			c.run(prs[i].cl, prs[i].key)
		}()
	}
	if g.Sched != nil {
		waiting := make([]bool, len(cs))
		// wait for call i to stand at a gate, to finish, or to be stuck behind another call
		settle := func(i int) {
			if waiting[i] {
				return
			}
			select {
			case <-cs[i].gate.arrive:
				waiting[i] = true
			case <-fin[i]:
			case <-time.After(150 * time.Millisecond):
			}
		}
		for i := range cs {
			settle(i)
		}
		for _, s := range g.Sched {
			i := s % len(cs)
			if !waiting[i] {
				settle(i)
			}
			if waiting[i] {
				waiting[i] = false
				cs[i].gate.pass <- struct{}{}
				settle(i)
			}
		}
		for i := range cs {
			close(cs[i].gate.free)
		}
	}
	wg.Wait()
	readLate()
	for _, c := range cs {
		c.forget()
		c.kept()
	}
	return l.ev
}

func main() {
	in, out := os.Args[1], os.Args[2]
	b, err := os.ReadFile(in)
	if err != nil {
		panic(err)
	}
	var groups []*Group
	if err := json.Unmarshal(b, &groups); err != nil {
		panic(err)
	}
	gotsrpc.SetDefaultHttpClientFactory(func() *http.Client { return httpVia("default") })
	gotsrpc.Monitor = monitor
	dep.OnGate = func(op, id string) {
		if i := strings.IndexByte(id, '.'); i > 0 {
			if c := lookup(id[:i]); c != nil && c.gate != nil {
				c.at(op)
			}
		}
	}
	srv = httptest.NewServer(http.HandlerFunc(serve))
	var traces []J
	for _, g := range groups {
		mu.Lock()
		orphans = nil
		mu.Unlock()
		ev := runGroup(g)
		mu.Lock()
		for _, o := range orphans {
			ev = append(ev, J{"e": "orphan", "what": o})
		}
		mu.Unlock()
		traces = append(traces, J{"ev": ev})
	}
	f, err := os.Create(out)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(f)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(traces); err != nil {
		panic(err)
	}
	if err := f.Close(); err != nil {
		panic(err)
	}
}

// textTok keeps short plain texts as they are, so that texts written in parts can be put together
func textTok(s string) string {
	if len(s) > 200 {
		return h.Tok(s)
	}
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' || s[i] > '~' {
			return h.Tok(s)
		}
	}
	return s
}
