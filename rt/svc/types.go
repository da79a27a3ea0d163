package svc

import (
	"time"

	"example.com/fx/dep"
)

type (
	Color string
	Level int
	Names []string
	Table map[string]Level
)

type Base struct {
	Key string `json:"key"`
	Rev int64  `json:"rev"`
}

type Person struct {
	Name    string             `json:"name"`
	Age     int                `json:"age"`
	Tags    []string           `json:"tags,omitempty"`
	Boss    *Person            `json:"boss"`
	Scores  map[string]float64 `json:"scores"`
	Blob    []byte             `json:"blob"`
	Color   Color              `json:"color"`
	Levels  []Level            `json:"levels"`
	Big     uint64
	Flag    *bool     `json:"flag,omitempty"`
	Born    time.Time `json:"born"`
	Ignored string    `json:"-"`
	secret  string
}

type Deep struct {
	Base   `json:",inline"`
	Grid   [][]int64               `json:"grid"`
	Index  map[string][]*Person    `json:"index"`
	Items  map[dep.Kind]dep.Item   `json:"items"`
	Nums   map[int]string          `json:"nums"`
	Anon   struct{ X, Y *string }  `json:"anon"`
	List   []struct{ V dep.Rank }  `json:"list"`
	Names  Names                   `json:"names"`
	Table  Table                   `json:"table"`
	Times  []time.Time             `json:"times"`
	When   *time.Time              `json:"when"`
	ByTime map[string]time.Time    `json:"byTime"`
	F32    float32                 `json:"f32"`
	I8     int8                    `json:"i8"`
	Any    interface{}             `json:"any"`
}

// Fail is an error type with data.
type Fail struct {
	Message string   `json:"message"`
	Code    int      `json:"c"`
	Hints   []string `json:"hints"`
}

func (f *Fail) Error() string { return f.Message }

// Coded is an error type with its own error code.
type Coded struct {
	Text string `json:"text"`
	N    int    `json:"n"`
}

func (c *Coded) Error() string  { return "coded:" + c.Text }
func (c *Coded) ErrorCode() int { return c.N }

// ValErr is an error type with value receivers whose zero value is an error, too.
type ValErr struct {
	Code int `json:"code"`
}

func (v ValErr) Error() string  { return "valerr" }
func (v ValErr) ErrorCode() int { return 100 + v.Code }
