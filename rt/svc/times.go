package svc

import "time"

type TimeList []time.Time
type TimeMap map[string]time.Time

type Stamp struct {
	T  time.Time                       `json:"t"`
	P  *time.Time                      `json:"p"`
	O  time.Time                       `json:"o,omitempty"`
	OP *time.Time                      `json:"op,omitempty"`
	S  []time.Time                     `json:"s"`
	SP []*time.Time                    `json:"sp"`
	M  map[string]time.Time            `json:"m"`
	MP map[string]*time.Time           `json:"mp"`
	SS [][]time.Time                   `json:"ss"`
	MS map[string][]time.Time          `json:"ms"`
	SM []map[string]*time.Time         `json:"sm"`
	NL TimeList                        `json:"nl"`
	NM TimeMap                         `json:"nm"`
	A  struct{ X time.Time; Y *time.Time } `json:"a"`
	Raw time.Time
}

type Inlined struct {
	Begin time.Time  `json:"begin"`
	End   *time.Time `json:"end"`
}

type StampBox struct {
	Inlined `json:",inline"`
	In      Stamp             `json:"in"`
	PIn     *Stamp            `json:"pin"`
	L       []Stamp           `json:"l"`
	LP      []*Stamp          `json:"lp"`
	ML      map[string]Stamp  `json:"ml"`
	N       *StampBox         `json:"n,omitempty"`
}
