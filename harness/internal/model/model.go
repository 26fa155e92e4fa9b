// Package model is an independent, deliberately naive reference model of an
// INI file: ordered lists, whole-document parsing over a byte slice, and a
// renderer. It shares no code with the library under test and is written from
// the documented behaviour; the monitors compare the library with it.
package model

import (
	"errors"
	"strings"

	"github.com/go-ini/ini"
)

// ErrKind classifies load errors the way the public API lets callers do.
type ErrKind int

// Error classes.
const (
	ErrNone ErrKind = iota
	ErrDelim
	ErrEmptyKey
	ErrOther
)

func (k ErrKind) String() string {
	return [...]string{"none", "delimiter-not-found", "empty-key-name", "other"}[k]
}

// Error is a model error.
type Error struct {
	Kind ErrKind
	Line string // the offending line, when the class carries one
	Msg  string
}

func (e *Error) Error() string { return e.Kind.String() + ": " + e.Msg + " " + e.Line }

func other(msg string) error { return &Error{Kind: ErrOther, Msg: msg} }

// KindOf returns the class of a model error.
func KindOf(err error) ErrKind {
	if err == nil {
		return ErrNone
	}
	var e *Error
	if errors.As(err, &e) {
		return e.Kind
	}
	return ErrOther
}

// File is the model of ini.File.
type File struct {
	Opt    ini.LoadOptions
	Secs   []*Sec
	Mapper func(string) string
	// Cov counts behaviours the model went through (for evidence).
	Cov map[string]int

	assigned map[*Key]bool // keys assigned since BeginLoad
}

// BeginLoad starts a new load pass over all sources.
func (f *File) BeginLoad() { f.assigned = map[*Key]bool{} }

// assign is the parser's way of giving a key its value: what an earlier load
// or the program left there is replaced, not shadowed.
func (s *Sec) assign(n, v string) (*Key, error) {
	if k := s.Own(n); k != nil && !s.F.assigned[k] {
		k.Value, k.Shadows, k.Auto, k.Bool = v, nil, false, false
		s.F.assigned[k] = true
		return k, nil
	}
	k, err := s.NewKey(n, v)
	if err == nil {
		s.F.assigned[k] = true
	}
	return k, err
}

// Sec is the model of ini.Section.
type Sec struct {
	F       *File
	Name    string
	Comment string
	Keys    []*Key
	Raw     bool
	Body    string
	Dead    bool // removed from the file
}

// Key is the model of ini.Key.
type Key struct {
	S       *Sec
	Name    string
	Value   string
	Comment string
	Shadows []string
	Nested  []string
	Auto    bool
	Bool    bool
	Dead    bool // removed from its section
}

// New returns a model file without any section.
func New(opt ini.LoadOptions) *File {
	if opt.KeyValueDelimiters == "" {
		opt.KeyValueDelimiters = "=:"
	}
	if opt.KeyValueDelimiterOnWrite == "" {
		opt.KeyValueDelimiterOnWrite = "="
	}
	if opt.ChildSectionDelimiter == "" {
		opt.ChildSectionDelimiter = "."
	}
	return &File{Opt: opt, Cov: map[string]int{}, assigned: map[*Key]bool{}}
}

func (f *File) cov(s string) { f.Cov[s]++ }

// Default is the name of the default section.
var Default = "DEFAULT"

// FoldSec says whether section names are folded.
func (f *File) FoldSec() bool { return f.Opt.Insensitive || f.Opt.InsensitiveSections }

// FoldKey says whether key names are folded.
func (f *File) FoldKey() bool { return f.Opt.Insensitive || f.Opt.InsensitiveKeys }

// SecName gives the stored form of a section name.
func (f *File) SecName(n string) string {
	if n == "" {
		n = Default
	}
	if f.FoldSec() {
		n = strings.ToLower(n)
	}
	return n
}

// KeyName gives the stored form of a key name.
func (f *File) KeyName(n string) string {
	if f.FoldKey() {
		n = strings.ToLower(n)
	}
	return n
}

// ByName returns the live instances of a section.
func (f *File) ByName(n string) []*Sec {
	n = f.SecName(n)
	var out []*Sec
	for _, s := range f.Secs {
		if s.Name == n {
			out = append(out, s)
		}
	}
	return out
}

// Get returns the first instance or nil.
func (f *File) Get(n string) *Sec {
	n = f.SecName(n)
	for _, s := range f.Secs {
		if s.Name == n {
			return s
		}
	}
	return nil
}

// NewSection creates (or, without non-unique sections, finds) a section.
func (f *File) NewSection(n string) (*Sec, error) {
	if n == "" {
		return nil, other("empty section name")
	}
	if !f.Opt.AllowNonUniqueSections {
		if s := f.Get(n); s != nil {
			return s, nil
		}
	}
	s := &Sec{F: f, Name: f.SecName(n)}
	f.Secs = append(f.Secs, s)
	return s, nil
}

// NewRawSection creates a raw section.
func (f *File) NewRawSection(n, body string) (*Sec, error) {
	s, err := f.NewSection(n)
	if err == nil {
		s.Raw, s.Body = true, body
	}
	return s, err
}

// Section gets or creates.
func (f *File) Section(n string) *Sec {
	if s := f.Get(n); s != nil {
		return s
	}
	if n == "" {
		n = Default
	}
	s, _ := f.NewSection(n)
	return s
}

// SectionWithIndex gets the i-th instance or creates one more.
func (f *File) SectionWithIndex(n string, i int) *Sec {
	l := f.ByName(n)
	if i < len(l) {
		return l[i]
	}
	if n == "" {
		n = Default
	}
	s, _ := f.NewSection(n)
	return s
}

// DeleteIndex removes one instance.
func (f *File) DeleteIndex(n string, i int) error {
	if !f.Opt.AllowNonUniqueSections && i != 0 {
		return other("non-zero index")
	}
	l := f.ByName(n)
	if i < 0 {
		return other("negative index")
	}
	if i >= len(l) {
		return nil
	}
	f.remove(l[i])
	return nil
}

func (f *File) remove(s *Sec) {
	s.Dead = true
	out := make([]*Sec, 0, len(f.Secs))
	for _, x := range f.Secs {
		if x != s {
			out = append(out, x)
		}
	}
	f.Secs = out
}

// Delete removes all instances.
func (f *File) Delete(n string) {
	for _, s := range f.ByName(n) {
		f.remove(s)
	}
}

// Names lists section names.
func (f *File) Names() []string {
	out := make([]string, len(f.Secs))
	for i, s := range f.Secs {
		out[i] = s.Name
	}
	return out
}

// Children lists child sections in file order.
func (s *Sec) Children() []*Sec {
	out := []*Sec{}
	for _, x := range s.F.Secs {
		if strings.HasPrefix(x.Name, s.Name+s.F.Opt.ChildSectionDelimiter) {
			out = append(out, x)
		}
	}
	return out
}

// Ancestors lists the existing ancestor sections, nearest first.
func (s *Sec) Ancestors() []*Sec {
	var out []*Sec
	n := s.Name
	for {
		i := strings.LastIndex(n, s.F.Opt.ChildSectionDelimiter)
		if i < 0 {
			return out
		}
		n = n[:i]
		if a := s.F.Get(n); a != nil {
			out = append(out, a)
		}
	}
}

// Own returns the section's own key or nil.
func (s *Sec) Own(n string) *Key {
	n = s.F.KeyName(n)
	for _, k := range s.Keys {
		if k.Name == n {
			return k
		}
	}
	return nil
}

// GetKey looks a key up, in ancestors too.
func (s *Sec) GetKey(n string) *Key { return s.getKey(n, 0) }

func (s *Sec) getKey(n string, depth int) *Key {
	if k := s.Own(n); k != nil {
		return k
	}
	if depth > 1000 {
		panic("model: unbounded ancestor chain")
	}
	if a := s.Ancestors(); len(a) > 0 {
		return a[0].getKey(n, depth+1)
	}
	return nil
}

// NewKey creates or re-assigns a key.
func (s *Sec) NewKey(n, v string) (*Key, error) {
	if n == "" {
		return nil, other("empty key name")
	}
	if k := s.Own(n); k != nil {
		if s.F.Opt.AllowShadows {
			return k, k.addShadow(v)
		}
		k.Value = v
		return k, nil
	}
	k := &Key{S: s, Name: s.F.KeyName(n), Value: v}
	s.Keys = append(s.Keys, k)
	return k, nil
}

// NewBool creates a boolean key.
func (s *Sec) NewBool(n string) (*Key, error) {
	k, err := s.NewKey(n, "true")
	if err == nil {
		k.Bool = true
	}
	return k, err
}

// Key gets or creates.
func (s *Sec) Key(n string) *Key {
	if k := s.GetKey(n); k != nil {
		return k
	}
	k, _ := s.NewKey(n, "")
	return k
}

// DeleteKey removes an own key.
func (s *Sec) DeleteKey(n string) {
	k := s.Own(n)
	if k == nil {
		return
	}
	k.Dead = true
	out := make([]*Key, 0, len(s.Keys))
	for _, x := range s.Keys {
		if x != k {
			out = append(out, x)
		}
	}
	s.Keys = out
}

// HasValue says whether some own key holds the raw value.
func (s *Sec) HasValue(v string) bool {
	for _, k := range s.Keys {
		if k.Value == v {
			return true
		}
	}
	return false
}

// Names lists key names.
func (s *Sec) Names() []string {
	out := make([]string, len(s.Keys))
	for i, k := range s.Keys {
		out[i] = k.Name
	}
	return out
}

// Hash maps names to values.
func (s *Sec) Hash() map[string]string {
	h := map[string]string{}
	for _, k := range s.Keys {
		h[k.Name] = k.Value
	}
	return h
}

// ParentKeys lists the keys of all ancestors.
func (s *Sec) ParentKeys() []*Key {
	var out []*Key
	for _, a := range s.Ancestors() {
		out = append(out, a.Keys...)
	}
	return out
}

func (k *Key) addShadow(v string) error {
	if k.Auto || k.Bool {
		return other("shadow on auto/boolean key")
	}
	if !k.S.F.Opt.AllowDuplicateShadowValues {
		if k.Value == v {
			return nil
		}
		for _, s := range k.Shadows {
			if s == v {
				return nil
			}
		}
	}
	k.Shadows = append(append([]string(nil), k.Shadows...), v)
	return nil
}

// AddShadow adds a shadow value.
func (k *Key) AddShadow(v string) error {
	if !k.S.F.Opt.AllowShadows {
		return other("shadows not allowed")
	}
	return k.addShadow(v)
}

func (k *Key) addNested(v string) error {
	if k.Auto || k.Bool {
		return other("nested on auto/boolean key")
	}
	k.Nested = append(append([]string(nil), k.Nested...), v)
	return nil
}

// AddNested adds a nested value.
func (k *Key) AddNested(v string) error {
	if !k.S.F.Opt.AllowNestedValues {
		return other("nested not allowed")
	}
	return k.addNested(v)
}

// Values lists the value and shadows that are not empty.
func (k *Key) Values() []string {
	out := []string{}
	for _, v := range append([]string{k.Value}, k.Shadows...) {
		if v != "" {
			out = append(out, v)
		}
	}
	return out
}
