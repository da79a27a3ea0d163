// Package svc has an error type of the same short name as the one of example.com/fx/svc.
package svc

type Fail struct {
	Message string   `json:"message"`
	Code    int      `json:"c"`
	Hints   []string `json:"hints"`
}

func (f *Fail) Error() string { return f.Message }

type Scalar string

func (s Scalar) Error() string { return string(s) }
