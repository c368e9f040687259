package e1

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	yaml3 "gopkg.in/yaml.v3"
)

// parseY reads a YAML stream with an independent parser into one tree per document.
func parseY(s string) (docs []*jv, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("yaml.v3 panic %v", r)
		}
	}()
	d := yaml3.NewDecoder(strings.NewReader(s))
	for {
		var n yaml3.Node
		err := d.Decode(&n)
		if errors.Is(err, io.EOF) {
			return docs, nil
		}
		if err != nil {
			return nil, err
		}
		docs = append(docs, fromNode(&n, 0))
	}
}

func scalarY(tag, val string) string {
	switch tag {
	case "!!null":
		return "null"
	case "!!bool":
		return "bool:" + strings.ToLower(val)
	case "!!int":
		if i, ok := new(big.Int).SetString(strings.ReplaceAll(val, "_", ""), 0); ok {
			return "int:" + i.String()
		}
		return "int?" + val
	case "!!float":
		if f, err := strconv.ParseFloat(strings.ReplaceAll(val, "_", ""), 64); err == nil {
			return "float:" + strconv.FormatFloat(f, 'g', -1, 64)
		}
		return "float?" + strings.ToLower(val)
	case "!!str":
		return "str:" + val
	}
	return tag + ":" + val
}

func fromNode(n *yaml3.Node, depth int) *jv {
	if depth > 200 {
		return &jv{kind: "scalar", s: "too deep"}
	}
	switch n.Kind {
	case yaml3.DocumentNode:
		if len(n.Content) == 0 {
			return &jv{kind: "scalar", s: "null"}
		}
		return fromNode(n.Content[0], depth+1)
	case yaml3.AliasNode:
		return fromNode(n.Alias, depth+1)
	case yaml3.MappingNode:
		v := &jv{kind: "object"}
		for i := 0; i < len(n.Content); i += 2 {
			k := fromNode(n.Content[i], depth+1)
			key := n.Content[i].Value
			if k.kind != "scalar" {
				key = k.canon(false)
			}
			v.keys = append(v.keys, key)
			v.kids = append(v.kids, fromNode(n.Content[i+1], depth+1))
		}
		return v
	case yaml3.SequenceNode:
		v := &jv{kind: "array"}
		for _, c := range n.Content {
			v.kids = append(v.kids, fromNode(c, depth+1))
		}
		return v
	case yaml3.ScalarNode:
		return &jv{kind: "scalar", s: scalarY(n.ShortTag(), n.Value)}
	}
	return &jv{kind: "scalar", s: "null"}
}

// encodeMaps: also encode maps with several keys (their order means nothing).
var encodeMaps bool

// encodeY is the YAML value a Go value stands for.
func encodeY(p any) (*jv, bool) {
	sc := func(s string) (*jv, bool) { return &jv{kind: "scalar", s: s}, true }
	if p == nil {
		return sc("null")
	}
	r := reflect.ValueOf(p)
	switch r.Kind() {
	case reflect.Bool:
		return sc(fmt.Sprintf("bool:%v", p))
	case reflect.String:
		return sc("str:" + r.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return sc(fmt.Sprintf("int:%d", p))
	case reflect.Float32, reflect.Float64:
		f := r.Float()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return nil, false
		}
		return sc("float:" + strconv.FormatFloat(f, 'g', -1, 64))
	case reflect.Slice:
		v := &jv{kind: "array"}
		for i := 0; i < r.Len(); i++ {
			k, ok := encodeY(r.Index(i).Interface())
			if !ok {
				return nil, false
			}
			v.kids = append(v.kids, k)
		}
		return v, true
	case reflect.Map:
		v := &jv{kind: "object"}
		if r.Len() > 1 && !encodeMaps {
			return nil, false
		}
		for _, k := range r.MapKeys() {
			c, ok := encodeY(r.MapIndex(k).Interface())
			if !ok {
				return nil, false
			}
			v.keys = append(v.keys, fmt.Sprint(k.Interface()))
			v.kids = append(v.kids, c)
		}
		return v, true
	}
	return nil, false
}

// goType is the Go type matchers see for a YAML value.
func goType(v *jv) string {
	switch v.kind {
	case "object":
		return "map[string]interface {}"
	case "array":
		return "[]interface {}"
	}
	switch {
	case v.s == "null":
		return "<nil>"
	case strings.HasPrefix(v.s, "bool:"):
		return "bool"
	case strings.HasPrefix(v.s, "int:-"):
		return "int64"
	case strings.HasPrefix(v.s, "int:"):
		return "uint64"
	case strings.HasPrefix(v.s, "float:"):
		return "float64"
	}
	return "string"
}

// looseType tells values whose type YAML parsers disagree about (1e3, .inf, dates, ...).
func looseType(v *jv) bool {
	return v.kind == "scalar" && (strings.Contains(v.s, "?") || strings.HasPrefix(v.s, "float:") && !strings.Contains(v.s, ".") || strings.HasPrefix(v.s, "!"))
}

// ypath renders an address as a YAMLPath.
func ypath(steps []string, v *jv) string {
	p := "$"
	for _, s := range steps {
		if v.kind == "array" {
			p += "[" + s + "]"
		} else if simplePath([]string{s}) || strings.Trim(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_- /:") == "" && s != "" {
			p += "." + s
		} else {
			p += ".'" + strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), "'", `\'`) + "'"
		}
		v = v.find([]string{s})
	}
	return p
}

func canonDocs(ds []*jv) string {
	var s []string
	for _, d := range ds {
		s = append(s, d.canon(false))
	}
	return strings.Join(s, "\n")
}

// applyY is the reference semantics of one matcher on a stream: the acceptable results, or the failing paths.
func (m mspec) applyY(docs []*jv) (results [][]*jv, errs []string) {
	// all documents that have the path (first variant), or only the first one
	for variant := 0; variant < 3; variant++ {
		errs = nil
		ds := make([]*jv, len(docs))
		for i := range docs {
			ds[i] = docs[i].clone()
		}
		for i, p := range m.paths {
			var hit []*jv
			for _, d := range ds {
				if m.steps[i] != nil {
					if t := d.find(m.steps[i]); t != nil {
						hit = append(hit, t)
					}
				}
			}
			if len(hit) == 0 {
				if !m.lax {
					errs = append(errs, p)
				}
				continue
			}
			if variant == 1 {
				hit = hit[:1]
			}
			bad := false
			var n *jv
			for k, t := range hit {
				if bad {
					break
				}
				if k > 0 && (m.kind != "type" || variant == 2) {
					*t = *n.clone()
					continue
				}
				ok := true
				switch m.kind {
				case "any":
					ph := m.ph
					if m.noPh {
						ph = "<Any value>"
					}
					n, ok = encodeY(ph)
				case "custom":
					if m.cbErr != "" {
						ok = false
					} else if _, same := m.ph.(func(any) any); same {
						n = t.clone()
					} else {
						n, ok = encodeY(m.ph)
					}
				case "type":
					if k == 0 || goType(t) == goType(hit[0]) {
						ok = goType(t) == m.typ || looseType(t) || m.typ == "interface {}" && goType(t) != "<nil>"
						n, _ = encodeY("<Type:" + m.typ + ">")
					}
				}
				if !ok {
					bad = true
					continue
				}
				*t = *n.clone()
			}
			if bad {
				errs = append(errs, p)
			}
		}
		results = append(results, ds)
	}
	return
}
