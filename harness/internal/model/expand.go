package model

import "strings"

// ref finds the leftmost %(name)s reference. The name is non-empty and has no
// closing parenthesis.
func ref(s string) (start, end int, name string) {
	for i := 0; i+1 < len(s); i++ {
		if s[i] != '%' || s[i+1] != '(' {
			continue
		}
		j := strings.IndexByte(s[i+2:], ')')
		if j <= 0 {
			continue
		}
		e := i + 2 + j
		if e+1 < len(s) && s[e+1] == 's' {
			return i, e + 2, s[i+2 : e]
		}
	}
	return -1, -1, ""
}

// Expand gives the expanded form of a raw value of the key. steps is the
// number of replacements made; ok is false when the text grew past limit.
func (k *Key) Expand(v string, limit int) (out string, steps int, ok bool) {
	f := k.S.F
	if f.Mapper != nil {
		v = f.Mapper(v)
	}
	for steps = 0; steps < 99; steps++ {
		if len(v) > limit {
			return v, steps, false
		}
		s, e, name := ref(v)
		if s < 0 {
			return v, steps, true
		}
		t := k.S.GetKey(name)
		if t == nil || t == k {
			t = nil
			if d := f.Get(""); d != nil {
				t = d.GetKey(name)
			}
			if t == nil || t == k {
				return v, steps, true
			}
		}
		v = strings.ReplaceAll(v, v[s:e], t.Value)
	}
	return v, steps, len(v) <= limit
}

// Ref finds the leftmost reference.
func Ref(s string) (start, end int, name string) { return ref(s) }
