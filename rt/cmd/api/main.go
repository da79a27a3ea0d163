// Command api type-checks the packages of a list and writes down the types, methods and constants that generated code
// declares for services.
// usage: api <list.json> <out.json>; list: [{pkg, services}]
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type Item struct {
	Pkg      string   `json:"pkg"`
	Services []string `json:"services"`
}

type Sig struct {
	N      string   `json:"n"`
	Params []string `json:"params"`
	Rets   []string `json:"rets"`
}

type Const struct {
	N string `json:"n"`
	V string `json:"v"`
}

type Object struct {
	S       int     `json:"s"`
	Kind    string  `json:"kind"`
	Present bool    `json:"present"`
	Methods []Sig   `json:"methods"`
	Consts  []Const `json:"consts"`
}

type Out struct {
	Errors  []string `json:"errors"`
	Objects []Object `json:"objects"`
}

const prefix = "example.com/fx/"

func main() {
	var list []Item
	b, err := os.ReadFile(os.Args[1])
	check(err)
	check(json.Unmarshal(b, &list))
	var paths []string
	for _, it := range list {
		paths = append(paths, it.Pkg)
	}
	pkgs, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax}, paths...)
	check(err)
	by := map[string]*packages.Package{}
	for _, p := range pkgs {
		by[p.PkgPath] = p
	}
	outs := make([]Out, len(list))
	for i, it := range list {
		o := &outs[i]
		o.Errors, o.Objects = []string{}, []Object{}
		p := by[it.Pkg]
		if p == nil || p.Types == nil {
			o.Errors = append(o.Errors, "package is not loaded")
			continue
		}
		for _, e := range p.Errors {
			o.Errors = append(o.Errors, e.Error())
		}
		for si, s := range it.Services {
			for _, k := range [][2]string{{"tsproxy", "GoTSRPCProxy"}, {"tsface", "GoTSRPCClient"}, {"tsclient", ""}, {"goproxy", "GoRPCProxy"}, {"goclient", "GoRPCClient"}} {
				name := s + k[1]
				if k[0] == "tsclient" {
					name = "HTTP" + s + "GoTSRPCClient"
				}
				o.Objects = append(o.Objects, object(p, it.Pkg, si+1, k[0], name, s+"GoTSRPCProxy"))
			}
		}
	}
	b, err = json.Marshal(outs)
	check(err)
	check(os.WriteFile(os.Args[2], b, 0o644))
}

func object(p *packages.Package, path string, s int, kind, name, cprefix string) Object {
	r := Object{S: s, Kind: kind, Methods: []Sig{}, Consts: []Const{}}
	tn, ok := p.Types.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return r
	}
	r.Present = true
	text := func(t types.Type) string {
		x := types.TypeString(t, func(q *types.Package) string {
			switch {
			case q.Path() == path:
				return "@svc"
			case strings.HasPrefix(q.Path(), prefix):
				return "@" + q.Path()[len(prefix):]
			case strings.HasPrefix(q.Path(), "4d."), q.Path() == "enum":
				return "@" + q.Path()
			}
			return q.Path()
		})
		return strings.ReplaceAll(x, "interface{}", "any")
	}
	tuple := func(t *types.Tuple) []string {
		l := []string{}
		for i := 0; i < t.Len(); i++ {
			l = append(l, text(t.At(i).Type()))
		}
		return l
	}
	t := tn.Type()
	if !types.IsInterface(t) {
		t = types.NewPointer(t)
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		sig := f.Type().(*types.Signature)
		r.Methods = append(r.Methods, Sig{f.Name(), tuple(sig.Params()), tuple(sig.Results())})
	}
	if kind == "tsproxy" {
		names := p.Types.Scope().Names()
		sort.Strings(names)
		for _, n := range names {
			if c, ok := p.Types.Scope().Lookup(n).(*types.Const); ok && strings.HasPrefix(n, cprefix) {
				v := fmt.Sprint(c.Val())
				if c.Val().Kind() == constant.String {
					v = constant.StringVal(c.Val())
				}
				r.Consts = append(r.Consts, Const{n[len(cprefix):], v})
			}
		}
	}
	return r
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
