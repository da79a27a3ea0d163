// confload loads configuration files and tells what they contain.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/foomo/gotsrpc/v2/config"
)

type job struct {
	Dir  string // working directory
	File string
	Root string // cut off from paths
	Ask  []string
}

type ver struct {
	P string `json:"p"`
	V string `json:"v"`
}
type rep struct {
	P  string `json:"p"`
	V  string `json:"v"`
	N  string `json:"n"`
	NV string `json:"nv"`
}
type service struct {
	EP string `json:"ep"`
	N  string `json:"n"`
}
type target struct {
	N        string    `json:"n"`
	Package  string    `json:"package"`
	Services []service `json:"services"`
	Module   string    `json:"module"`
	Out      string    `json:"out"`
	GoRPC    []string  `json:"gorpc"`
	TSRPC    []string  `json:"tsrpc"`
	Skip     bool      `json:"skip"`
}
type mapping struct {
	P         string   `json:"p"`
	GoPackage string   `json:"gopackage"`
	Out       string   `json:"out"`
	Structs   []string `json:"structs"`
	Scalars   []string `json:"scalars"`
	Module    string   `json:"module"`
}
type gomod struct {
	Kind string `json:"kind"`
	N    string `json:"n"`
	Reqs []ver  `json:"reqs"`
	Reps []rep  `json:"reps"`
}
type namespace struct {
	N string   `json:"n"`
	P []string `json:"p"`
}
type exposes struct {
	T  string `json:"t"`
	S  string `json:"s"`
	TS bool   `json:"ts"`
	Go bool   `json:"go"`
}
type result struct {
	Kind     string    `json:"kind"`
	Text     string    `json:"text"`
	Targets  []target  `json:"targets"`
	Mappings []mapping `json:"mappings"`
	Mod      namespace `json:"mod"`
	GoMod    gomod     `json:"gomod"`
	Exposes  []exposes `json:"exposes"`
}

func list(s []string) []string { return append([]string{}, s...) }

func load(j job) (r result) {
	defer func() {
		if x := recover(); x != nil {
			r = result{Kind: "panic", Text: fmt.Sprint(x)}
		}
	}()
	if err := os.Chdir(j.Dir); err != nil {
		panic(err)
	}
	conf, err := config.LoadConfigFile(j.File)
	if err != nil {
		return result{Kind: "error", Text: err.Error()}
	}
	if conf == nil {
		return result{Kind: "nothing"}
	}
	r = result{Kind: "conf", Targets: []target{}, Mappings: []mapping{}, Exposes: []exposes{}}
	for n, t := range conf.Targets {
		if t == nil {
			return result{Kind: "nil target"}
		}
		x := target{N: n, Package: t.Package, Services: []service{}, Module: t.TypeScriptModule, Out: t.Out, GoRPC: list(t.GoRPC), TSRPC: list(t.TSRPC), Skip: t.SkipTSRPCClient}
		for ep, s := range t.Services {
			x.Services = append(x.Services, service{ep, s})
		}
		r.Targets = append(r.Targets, x)
		for _, s := range j.Ask {
			r.Exposes = append(r.Exposes, exposes{n, s, t.IsTSRPC(s), t.IsGoRPC(s)})
		}
	}
	for p, m := range conf.Mappings {
		if m == nil {
			return result{Kind: "nil mapping"}
		}
		r.Mappings = append(r.Mappings, mapping{p, m.GoPackage, m.Out, list(m.Structs), list(m.Scalars), m.TypeScriptModule})
	}
	r.Mod = namespace{conf.Module.Name, []string{}}
	if p := conf.Module.Path; p != "" {
		if p == j.Root || strings.HasPrefix(p, j.Root+"/") {
			if p = strings.TrimPrefix(strings.TrimPrefix(p, j.Root), "/"); p != "" {
				r.Mod.P = strings.Split(p, "/")
			}
		} else {
			r.Mod.P = []string{"?", p}
		}
	}
	r.GoMod = gomod{Kind: "none", Reqs: []ver{}, Reps: []rep{}}
	if f := conf.Module.ModFile; f != nil {
		r.GoMod.Kind = "mod"
		if f.Module != nil {
			r.GoMod.N = f.Module.Mod.Path
		}
		for _, x := range f.Require {
			r.GoMod.Reqs = append(r.GoMod.Reqs, ver{x.Mod.Path, x.Mod.Version})
		}
		for _, x := range f.Replace {
			r.GoMod.Reps = append(r.GoMod.Reps, rep{x.Old.Path, x.Old.Version, x.New.Path, x.New.Version})
		}
	}
	return r
}

func main() {
	var jobs []job
	in, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(in, &jobs)
	}
	if err != nil {
		panic(err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	results := []result{}
	for _, j := range jobs {
		results = append(results, load(j))
	}
	if err := json.NewEncoder(out).Encode(results); err != nil {
		panic(err)
	}
}
