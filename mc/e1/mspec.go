package e1

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/match"
)

// mspec describes a matcher; steps are the addresses of its paths (nil: not an address of the document).
type mspec struct {
	kind  string // any, type, custom
	paths []string
	steps [][]string
	ph    any    // placeholder / callback result
	noPh  bool   // default placeholder
	typ   string // type parameter
	cbErr string
	lax   bool // ErrOnMissingPath(false)
	got   *[]any
}

func (m mspec) String() string {
	s := m.kind
	switch m.kind {
	case "any":
		if !m.noPh {
			s += fmt.Sprintf("(%T %v)", m.ph, m.ph)
		}
	case "type":
		s += "[" + m.typ + "]"
	case "custom":
		if m.cbErr != "" {
			s += "(error)"
		} else {
			s += fmt.Sprintf("(%T %v)", m.ph, m.ph)
		}
	}
	if m.lax {
		s += "lax"
	}
	if len(s) > 80 {
		s = s[:80] + "..."
	}
	return fmt.Sprintf("%s%q", s, m.paths)
}

func (m mspec) name() string { return strings.ToUpper(m.kind[:1]) + m.kind[1:] }

func (m mspec) callback(v any) (any, error) {
	if m.got != nil {
		*m.got = append(*m.got, v)
	}
	if m.cbErr != "" {
		return m.ph, errors.New(m.cbErr)
	}
	if f, ok := m.ph.(func(any) any); ok {
		return f(v), nil
	}
	return m.ph, nil
}

type both interface {
	match.JSONMatcher
	match.YAMLMatcher
}

func typed[T any](m mspec) both {
	x := match.Type[T](m.paths...)
	if m.lax {
		x = x.ErrOnMissingPath(false)
	}
	return x
}

func (m mspec) matcher() both {
	switch m.kind {
	case "any":
		x := match.Any(m.paths...)
		if !m.noPh {
			x = x.Placeholder(m.ph)
		}
		if m.lax {
			x = x.ErrOnMissingPath(false)
		}
		return x
	case "custom":
		x := match.Custom(m.paths[0], m.callback)
		if m.lax {
			x = x.ErrOnMissingPath(false)
		}
		return x
	}
	switch m.typ {
	case "string":
		return typed[string](m)
	case "float64":
		return typed[float64](m)
	case "uint64":
		return typed[uint64](m)
	case "int64":
		return typed[int64](m)
	case "int":
		return typed[int](m)
	case "bool":
		return typed[bool](m)
	case "map[string]interface {}":
		return typed[map[string]any](m)
	case "[]interface {}":
		return typed[[]any](m)
	case "interface {}":
		return typed[any](m)
	}
	panic(m.typ)
}

func jms(ms []mspec) func() []match.JSONMatcher {
	return func() (o []match.JSONMatcher) {
		for _, m := range ms {
			o = append(o, m.matcher())
		}
		return
	}
}

func yms(ms []mspec) func() []match.YAMLMatcher {
	return func() (o []match.YAMLMatcher) {
		for _, m := range ms {
			o = append(o, m.matcher())
		}
		return
	}
}

// find walks an address; nil when it does not exist.
func (v *jv) find(steps []string) *jv {
	for _, s := range steps {
		switch v.kind {
		case "object":
			i := -1
			for k := range v.keys {
				if v.keys[k] == s {
					i = k
					break
				}
			}
			if i < 0 {
				return nil
			}
			v = v.kids[i]
		case "array":
			i, err := strconv.Atoi(s)
			if err != nil || i < 0 || i >= len(v.kids) {
				return nil
			}
			v = v.kids[i]
		default:
			return nil
		}
	}
	return v
}

func (v *jv) clone() *jv {
	o := *v
	o.kids = nil
	for _, k := range v.kids {
		o.kids = append(o.kids, k.clone())
	}
	return &o
}

// addresses lists every address below the root.
func (v *jv) addresses() (out [][]string) {
	var rec func(v *jv, at []string)
	rec = func(v *jv, at []string) {
		for i, k := range v.kids {
			s := strconv.Itoa(i)
			if v.kind == "object" {
				s = v.keys[i]
			}
			a := append(append([]string{}, at...), s)
			out = append(out, a)
			rec(k, a)
		}
	}
	rec(v, nil)
	return
}

// plain is the value as encoding/json decodes it into `any`.
func (v *jv) plain() any {
	switch v.kind {
	case "object":
		m := map[string]any{}
		for i, k := range v.keys {
			m[k] = v.kids[i].plain()
		}
		return m
	case "array":
		a := []any{}
		for _, k := range v.kids {
			a = append(a, k.plain())
		}
		return a
	case "string":
		return v.s
	case "number":
		f, _ := strconv.ParseFloat(v.s, 64)
		return f
	case "true":
		return true
	case "false":
		return false
	}
	return nil
}

// encodeJ is the JSON value a placeholder stands for; false when it has none.
func encodeJ(p any) (*jv, bool) {
	switch x := p.(type) {
	case []byte:
		p = string(x)
	case float32:
		p = float64(x)
	}
	b, err := json.Marshal(p)
	if err != nil {
		return nil, false
	}
	v, err := parseJ(string(b))
	return v, err == nil
}

// apply is the reference semantics of one matcher: the new document, or the failing paths.
func (m mspec) apply(doc *jv) (*jv, []string) {
	var errs []string
	d := doc.clone()
	for i, p := range m.paths {
		t := (*jv)(nil)
		if m.steps[i] != nil {
			t = d.find(m.steps[i])
		}
		if t == nil {
			if !m.lax || m.steps[i] == nil && strings.HasSuffix(p, "#") { // `#` exists (a length) and cannot be replaced
				errs = append(errs, p)
			}
			continue
		}
		var n *jv
		ok := true
		switch m.kind {
		case "any":
			ph := m.ph
			if m.noPh {
				ph = "<Any value>"
			}
			n, ok = encodeJ(ph)
		case "custom":
			r, err := m.callbackQuiet(t.plain())
			if err != nil {
				ok = false
			} else {
				n, ok = encodeJ(r)
			}
		case "type":
			ty := fmt.Sprint(reflect.TypeOf(t.plain()))
			if ok = ty == m.typ || m.typ == "interface {}" && ty != "<nil>"; ok {
				n, _ = encodeJ("<Type:" + m.typ + ">")
			}
		}
		if !ok {
			errs = append(errs, p)
			continue
		}
		*t = *n.clone()
	}
	return d, errs
}

func (m mspec) callbackQuiet(v any) (any, error) { m.got = nil; return m.callback(v) }

// jpath renders an address in the gjson path syntax.
func jpath(steps []string) string {
	var out []string
	for _, s := range steps {
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			c := s[i]
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c <= ' ' || c > '~' || c == '_' || c == '-') {
				b.WriteByte('\\')
			}
			b.WriteByte(c)
		}
		out = append(out, b.String())
	}
	return strings.Join(out, ".")
}

// simplePath: nothing in the address needs escaping.
func simplePath(steps []string) bool {
	for _, s := range steps {
		if s == "" {
			return false
		}
		for i := 0; i < len(s); i++ {
			c := s[i]
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_') {
				return false
			}
		}
	}
	return true
}
