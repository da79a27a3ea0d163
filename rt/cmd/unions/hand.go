package main

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"

	"example.com/fx/h"
	gotsrpc "github.com/foomo/gotsrpc/v2"
)

// Unions registered by hand, N of them in one call.

type Hand struct {
	Call string `json:"call"` // "register" or "must"
	N    int    `json:"n"`    // so many are registered with one call
	K    int    `json:"k"`    // this one of them
	Wrap string `json:"wrap"`
}

type HA struct {
	Kind string `json:"kind"`
	Key  string
	L    []string `json:"l,omitempty"`
}
type HB struct {
	N *int64 `json:"n"`
}

// HU is a union; every T makes another one.
type HU[T any] struct {
	A *HA     `json:"a,omitempty" gotsrpc:"union"`
	B *HB     `json:"b,omitempty" gotsrpc:"union"`
	S *string `json:"s,omitempty" gotsrpc:"union"`
	V HA      `json:"v,omitempty" gotsrpc:"union"`
}

var hands = map[string][]interface{}{
	"register1": {HU[int8]{}},
	"register2": {HU[int16]{}, HU[int32]{}},
	"register3": {HU[uint8]{}, HU[uint16]{}, HU[uint32]{}},
	"must1":     {HU[[1]int8]{}},
	"must2":     {HU[[1]int16]{}, HU[[1]int32]{}},
	"must3":     {HU[[1]uint8]{}, HU[[1]uint16]{}, HU[[1]uint32]{}},
}

var handSrv *httptest.Server

func registerHands() {
	for n, vs := range hands {
		if n[0] == 'r' {
			if err := gotsrpc.RegisterUnionExt(vs...); err != nil {
				panic(err)
			}
		} else {
			gotsrpc.MustRegisterUnionExt(vs...)
		}
	}
	handSrv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/json; charset=utf-8")
		_, _ = w.Write([]byte("[]"))
	}))
}

func runHand(c *Case, hc *http.Client) (ev []J) {
	rnd := h.NewRand(c.Seed)
	t := reflect.TypeOf(hands[fmt.Sprintf("%s%d", c.Hand.Call, c.Hand.N)][c.Hand.K-1])
	u := reflect.New(t).Elem()
	own, n := fill(u, c.Set, rnd, false)
	ev = append(ev, J{"e": "make", "n": n, "set": c.Set, "own": own, "omit": false})
	var v reflect.Value
	var path []string
	switch c.Hand.Wrap {
	case "slice":
		v, path = reflect.MakeSlice(reflect.SliceOf(t), 2, 2), []string{"i:1"}
		v.Index(1).Set(u)
	case "map":
		v, path = reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t)), []string{"k:x"}
		v.SetMapIndex(reflect.ValueOf("x"), u)
	case "ptr":
		v = u.Addr()
	case "any":
		v, path = reflect.ValueOf([]interface{}{nil, u.Interface()}), []string{"i:1"}
	default:
		v = u
	}
	client := gotsrpc.NewClientWithHttpClient(hc)
	client.SetClientEncoding(gotsrpc.EncodingJson)
	reqBody = nil
	if err := client.Call(context.Background(), handSrv.URL, "/x", "M", []interface{}{"first", v.Interface()}, []interface{}{}); err != nil {
		return append(ev, J{"e": "failed", "what": err.Error()})
	}
	raw, err := h.JSONAt(elem(reqBody, 1), v.Type(), path)
	wire := h.CanonJSON(raw)
	if err != nil {
		wire = "error:" + err.Error()
	}
	return append(ev, J{"e": "sent", "wire": wire})
}
