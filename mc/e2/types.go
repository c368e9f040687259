package main

import (
	"encoding/json"
	"time"
)

var ancient = time.Unix(1000000000, 0)

type Cfg struct {
	Pkg                bool
	Filename, Dir, Ext string
	Update             *bool
	Opts               bool // one shared Config (false: a new one per call)
}

type Act struct {
	K    string // call, skip, sub, par, tskip, fail, cleanup, wait
	API  string
	Cfg  int
	Vals []string
	Bad  bool
	How  string
	Name string
	Node *Node
	N    int // repeat a call
}

type Node struct {
	Execs [][]Act // acts of the 1st, 2nd, ... execution (the last one repeats)
	nth   int
}

type Spec struct {
	Root   string
	Out    string
	Cfgs   []Cfg
	Tests  map[string]*Node
	Sort   bool
	Opts   bool // pass CleanOpts even without Sort
	Cleans int
	Spoil  []Spoil // performed between the tests and Clean
	Exit   string  // "" or "cleanfirst"
}

type Spoil struct{ Path, Data, Kind string }

type Ev struct{ Kind, Text string }

type CallLog struct {
	Test   string
	Inst   int
	API    string
	Cfg    int
	Vals   []string
	Bad    bool
	Events []Ev
	Panic  string
	Late   bool // made in a cleanup
}

type File struct {
	Data string
	Dir  bool
}

type CleanLog struct {
	Out     string
	FS      map[string]File
	Touched []string
	Panic   string
}

type Log struct {
	Ran     []string
	Calls   []*CallLog
	Skips   []string
	GoesOn  []string // tests that went on after a snaps.Skip* call
	PreFS   map[string]File
	Touched []string // by the tests
	Cleans  []CleanLog
}

// strings are not valid UTF-8 in general: they travel as bytes.
func raw(s []string) (o [][]byte) {
	for _, x := range s {
		o = append(o, []byte(x))
	}
	return
}

func unraw(b [][]byte) (o []string) {
	for _, x := range b {
		o = append(o, string(x))
	}
	return
}

type (
	act     Act
	callLog CallLog
)

type wireFile struct {
	B   []byte `json:",omitempty"`
	Dir bool   `json:",omitempty"`
}

type wireAct struct {
	act
	V [][]byte `json:",omitempty"`
}

type wireCall struct {
	callLog
	V [][]byte `json:",omitempty"`
}

type wireEv struct {
	Kind string
	B    []byte
}

func (f File) MarshalJSON() ([]byte, error) { return json.Marshal(wireFile{[]byte(f.Data), f.Dir}) }

func (f *File) UnmarshalJSON(b []byte) error {
	var w wireFile
	err := json.Unmarshal(b, &w)
	f.Data, f.Dir = string(w.B), w.Dir
	return err
}

func (e Ev) MarshalJSON() ([]byte, error) { return json.Marshal(wireEv{e.Kind, []byte(e.Text)}) }

func (e *Ev) UnmarshalJSON(b []byte) error {
	var w wireEv
	err := json.Unmarshal(b, &w)
	e.Kind, e.Text = w.Kind, string(w.B)
	return err
}

func (a Act) MarshalJSON() ([]byte, error) {
	w := wireAct{act(a), raw(a.Vals)}
	w.Vals = nil
	return json.Marshal(w)
}

func (a *Act) UnmarshalJSON(b []byte) error {
	var w wireAct
	err := json.Unmarshal(b, &w)
	*a = Act(w.act)
	a.Vals = unraw(w.V)
	return err
}

func (c CallLog) MarshalJSON() ([]byte, error) {
	w := wireCall{callLog(c), raw(c.Vals)}
	w.Vals = nil
	return json.Marshal(w)
}

func (c *CallLog) UnmarshalJSON(b []byte) error {
	var w wireCall
	err := json.Unmarshal(b, &w)
	*c = CallLog(w.callLog)
	c.Vals = unraw(w.V)
	return err
}
