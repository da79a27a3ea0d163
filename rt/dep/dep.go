package dep

import "errors"

// Kind is a scalar of another package.
type Kind string

// Rank is a number of another package.
type Rank int

// Item is a struct of another package.
type Item struct {
	ID    string          `json:"id"`
	Kind  Kind            `json:"kind"`
	Rank  Rank            `json:"rank,omitempty"`
	Links map[Kind]string `json:"links"`
	Next  *Item           `json:"next,omitempty"`
}

// Gate announces when it is encoded and decoded; the ID "!enc" cannot be encoded.
type Gate struct {
	ID string `json:"id"`
}

// OnGate is called on every encoding and decoding of a Gate.
var OnGate = func(op, id string) {}

var errGate = errors.New("gate cannot be encoded")

func (g Gate) MarshalText() ([]byte, error) {
	OnGate("enc", g.ID)
	if g.ID == "!enc" {
		return nil, errGate
	}
	return []byte(g.ID), nil
}
func (g *Gate) UnmarshalText(b []byte) error {
	g.ID = string(b)
	OnGate("dec", g.ID)
	return nil
}
func (g Gate) MarshalBinary() ([]byte, error)     { return g.MarshalText() }
func (g *Gate) UnmarshalBinary(b []byte) error    { return g.UnmarshalText(b) }
