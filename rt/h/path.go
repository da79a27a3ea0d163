package h

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// Paths into values: "f:Field", "i:index", "k:key", "u:Member" (the set member of a union).
// Pointers on the way are followed.

func deref(v reflect.Value, alloc bool) reflect.Value {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			if !alloc {
				return reflect.Value{}
			}
			v.Set(reflect.New(v.Type().Elem()))
		}
		v = v.Elem()
	}
	return v
}

// Place builds what is needed for the path and calls leaf with the settable value at its end.
func Place(v reflect.Value, path []string, leaf func(reflect.Value)) {
	if len(path) == 0 {
		leaf(v)
		return
	}
	v = deref(v, true)
	s, rest := path[0], path[1:]
	switch s[:2] {
	case "f:", "u:":
		Place(v.FieldByName(s[2:]), rest, leaf)
	case "i:":
		i, _ := strconv.Atoi(s[2:])
		for v.Len() <= i {
			v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
		}
		Place(v.Index(i), rest, leaf)
	case "k:":
		if v.IsNil() {
			v.Set(reflect.MakeMap(v.Type()))
		}
		k := reflect.New(v.Type().Key()).Elem()
		setKey(k, s[2:])
		e := reflect.New(v.Type().Elem()).Elem()
		Place(e, rest, leaf)
		v.SetMapIndex(k, e)
	default:
		panic("path " + s)
	}
}

func setKey(k reflect.Value, s string) {
	switch k.Kind() {
	case reflect.String:
		k.SetString(s)
	case reflect.Int, reflect.Int64, reflect.Int32:
		k.SetInt(int64(len(s)))
	default:
		panic("key kind " + k.Kind().String())
	}
}

// At returns the value at the end of the path (invalid if there is none).
func At(v reflect.Value, path []string) reflect.Value {
	for len(path) > 0 {
		v = deref(v, false)
		if !v.IsValid() {
			return v
		}
		s := path[0]
		path = path[1:]
		switch s[:2] {
		case "f:", "u:":
			v = v.FieldByName(s[2:])
		case "i:":
			i, _ := strconv.Atoi(s[2:])
			if i >= v.Len() {
				return reflect.Value{}
			}
			v = v.Index(i)
		case "k:":
			k := reflect.New(v.Type().Key()).Elem()
			setKey(k, s[2:])
			v = v.MapIndex(k)
			if !v.IsValid() {
				return v
			}
		}
	}
	return v
}

// JSONAt returns the JSON found where a value of type t keeps the end of the path.
func JSONAt(raw json.RawMessage, t reflect.Type, path []string) (json.RawMessage, error) {
	for len(path) > 0 {
		for t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		s := path[0]
		path = path[1:]
		switch s[:2] {
		case "u:":
			f, _ := t.FieldByName(s[2:])
			t = f.Type
		case "f:":
			f, ok := t.FieldByName(s[2:])
			if !ok {
				return nil, fmt.Errorf("no field %s", s)
			}
			t = f.Type
			tag := strings.Split(f.Tag.Get("json"), ",")
			name := tag[0]
			if f.Anonymous && name == "" {
				continue
			}
			if name == "" {
				name = f.Name
			}
			var m map[string]json.RawMessage
			if err := json.Unmarshal(raw, &m); err != nil {
				return nil, fmt.Errorf("not an object: %.80s", raw)
			}
			r, ok := m[name]
			if !ok {
				return nil, nil
			}
			raw = r
		case "i:":
			t = t.Elem()
			i, _ := strconv.Atoi(s[2:])
			var l []json.RawMessage
			if err := json.Unmarshal(raw, &l); err != nil {
				return nil, fmt.Errorf("not an array: %.80s", raw)
			}
			if i >= len(l) {
				return nil, nil
			}
			raw = l[i]
		case "k:":
			k := reflect.New(t.Key()).Elem()
			setKey(k, s[2:])
			t = t.Elem()
			var m map[string]json.RawMessage
			if err := json.Unmarshal(raw, &m); err != nil {
				return nil, fmt.Errorf("not an object: %.80s", raw)
			}
			r, ok := m[fmt.Sprint(k.Interface())]
			if !ok {
				return nil, nil
			}
			raw = r
		}
	}
	return raw, nil
}

// CanonJSON renders JSON with sorted keys and no white space.
func CanonJSON(raw json.RawMessage) string {
	if raw == nil {
		return "absent"
	}
	d := json.NewDecoder(strings.NewReader(string(raw)))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil {
		return "invalid:" + err.Error()
	}
	b, _ := json.Marshal(x)
	return string(b)
}
