package svc

import "time"

// Rich is an error type with all sorts of data.
type Rich struct {
	Text   string           `json:"text"`
	Code   int64            `json:"c"`
	Tags   []string         `json:"t_a_g_s"`
	Counts map[string]int64 `json:"counts,omitempty"`
	When   time.Time        `json:"when"`
	Opt    *string          `json:"opt,omitempty"`
	Inner  Inner            `json:"in"`
	List   []*Inner         `json:"list"`
	Blob   []byte           `json:"blob"`
	Plain  float64
	hidden string
}

type Inner struct {
	A string `json:"aa"`
	B bool   `json:"bb"`
}

func (r *Rich) Error() string { return r.Text }

// ValData is an error type with value receivers and data.
type ValData struct {
	Text string `json:"text"`
	N    uint16 `json:"n"`
}

func (v ValData) Error() string { return v.Text }

// Scalar is an error type without structure.
type Scalar string

func (s Scalar) Error() string { return string(s) }

// Num is a number error type.
type Num int64

func (n Num) Error() string { return NumText(n) }

func NumText(n Num) string {
	if n == 0 {
		return "num 0"
	}
	return "num x"
}

// WrapPtr wraps an error below a message.
type WrapPtr struct {
	Op    string `json:"op"`
	cause error
}

func NewWrapPtr(op string, cause error) *WrapPtr { return &WrapPtr{Op: op, cause: cause} }
func (w *WrapPtr) Error() string                 { return w.Op + ": " + w.cause.Error() }
func (w *WrapPtr) Unwrap() error                 { return w.cause }

// WrapVal wraps an error whose text it does not mention.
type WrapVal struct {
	Op    string `json:"op"`
	cause error
}

func NewWrapVal(op string, cause error) WrapVal { return WrapVal{Op: op, cause: cause} }
func (w WrapVal) Error() string                 { return w.Op }
func (w WrapVal) Unwrap() error                 { return w.cause }
