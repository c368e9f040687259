package e1

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"
)

// jv is an independent, order-preserving view of a JSON value.
type jv struct {
	kind string // object, array, string, number, true, false, null
	s    string // decoded string / number literal
	keys []string
	kids []*jv
	lit  string   // literal as written (generated documents)
	lits []string // keys as written
}

// parseJ parses exactly one JSON document with encoding/json's tokenizer.
func parseJ(b string) (*jv, error) {
	if !json.Valid([]byte(b)) {
		return nil, fmt.Errorf("not valid JSON")
	}
	d := json.NewDecoder(strings.NewReader(b))
	d.UseNumber()
	v, err := parseTok(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data")
	}
	return v, nil
}

func parseTok(d *json.Decoder) (*jv, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case json.Delim:
		if x == '{' {
			v := &jv{kind: "object"}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				c, err := parseTok(d)
				if err != nil {
					return nil, err
				}
				v.keys = append(v.keys, k.(string))
				v.kids = append(v.kids, c)
			}
			_, err := d.Token()
			return v, err
		}
		v := &jv{kind: "array"}
		for d.More() {
			c, err := parseTok(d)
			if err != nil {
				return nil, err
			}
			v.kids = append(v.kids, c)
		}
		_, err := d.Token()
		return v, err
	case string:
		return &jv{kind: "string", s: x}, nil
	case json.Number:
		return &jv{kind: "number", s: x.String()}, nil
	case bool:
		return &jv{kind: fmt.Sprint(x)}, nil
	case nil:
		return &jv{kind: "null"}, nil
	}
	return nil, fmt.Errorf("token %v", t)
}

// canon renders the value; sorted ignores the order of object members.
func (v *jv) canon(sorted bool) string {
	var b bytes.Buffer
	v.write(&b, sorted)
	return b.String()
}

func (v *jv) write(b *bytes.Buffer, sorted bool) {
	switch v.kind {
	case "object":
		idx := make([]int, len(v.keys))
		for i := range idx {
			idx[i] = i
		}
		if sorted {
			sort.SliceStable(idx, func(x, y int) bool { return v.keys[idx[x]] < v.keys[idx[y]] })
		}
		b.WriteByte('{')
		for n, i := range idx {
			if n > 0 {
				b.WriteByte(',')
			}
			fmt.Fprintf(b, "%q:", v.keys[i])
			v.kids[i].write(b, sorted)
		}
		b.WriteByte('}')
	case "array":
		b.WriteByte('[')
		for i, c := range v.kids {
			if i > 0 {
				b.WriteByte(',')
			}
			c.write(b, sorted)
		}
		b.WriteByte(']')
	case "string":
		fmt.Fprintf(b, "%q", v.s)
	case "number":
		b.WriteString("#" + normNum(v.s))
	case "scalar": // YAML
		fmt.Fprintf(b, "%q", v.s)
	default:
		b.WriteString(v.kind)
	}
}

// jsonSame reports whether two documents hold the same value (number literals compared as written).
func jsonSame(a, b string) bool {
	x, e1 := parseJ(a)
	y, e2 := parseJ(b)
	return e1 == nil && e2 == nil && x.canon(true) == y.canon(true)
}
