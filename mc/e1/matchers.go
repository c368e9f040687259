package e1

import "github.com/gkampitakis/go-snaps/match"

func jsnMissing() op {
	return op{api: "json", vals: []any{`{"a":1}`}, jm: func() []match.JSONMatcher { return []match.JSONMatcher{match.Any("zz.missing")} }}
}
