// Package core runs generated cases against the oracles of one property: it spawns
// workers with fixed seeds, merges what they covered, shrinks and confirms failures.
package core

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// B is a byte slice that is written as hexadecimal digits in case files.
type B []byte

func (b B) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(b)) }
func (b *B) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	x, err := hex.DecodeString(s)
	*b = x
	return err
}

// X collects what a check says about its case.
type X struct {
	nontrivial bool
	labels     []string
	Tier       string
	Scratch    string // a directory of this worker, removed afterwards
	Worker     int
	Bin        string // the gpgpdump binary built from the tree under test ("" if not built)
}

// NonTrivial marks the case as non-trivial under the property's rule.
func (x *X) NonTrivial() { x.nontrivial = true }

// Label counts the case in a class.
func (x *X) Label(f string, a ...interface{}) { x.labels = append(x.labels, fmt.Sprintf(f, a...)) }

// Part is one generator with its oracle; a property has one or more.
type Part struct {
	Name            string
	Quick, Thorough int // generated cases over all workers
	gen             func(*rapid.T) interface{}
	check           func(interface{}, *X) error
	decode          func([]byte) (interface{}, error)
	fixed           func(tier string, emit func(interface{}))
	solo            bool // fixed cases run in worker 0 only
	race            bool // runs in the binary built with the race detector, if there is one
}

// Prop is a property of properties.jsonl.
type Prop struct {
	ID          string
	Rule        string
	Assumptions []string
	parts       []*Part
}

var props = map[string]*Prop{}

// Property declares a property.
func Property(id, rule string, assumptions ...string) *Prop {
	p := &Prop{ID: id, Rule: rule, Assumptions: assumptions}
	props[id] = p
	return p
}

// Before is called before each case is drawn.
var Before = func(*rapid.T) {}

// Spec describes a part.
type Spec[T any] struct {
	Name            string
	Quick, Thorough int
	Gen             func(*rapid.T) T
	Check           func(T, *X) error
	Fixed           func(tier string, emit func(T))
	Solo            bool
	Race            bool
}

// Add adds a part to a property.
func Add[T any](p *Prop, s Spec[T]) {
	q := &Part{Name: s.Name, Quick: s.Quick, Thorough: s.Thorough, solo: s.Solo, race: s.Race}
	if s.Gen != nil {
		q.gen = func(t *rapid.T) interface{} { return s.Gen(t) }
	}
	q.check = func(c interface{}, x *X) error { return s.Check(c.(T), x) }
	q.decode = func(b []byte) (interface{}, error) {
		var c T
		err := json.Unmarshal(b, &c)
		return c, err
	}
	if s.Fixed != nil {
		q.fixed = func(tier string, emit func(interface{})) { s.Fixed(tier, func(c T) { emit(c) }) }
	}
	p.parts = append(p.parts, q)
}

// Fail is a failing case.
type Fail struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	Bin      string          `json:"bin,omitempty"` // harness binary that knows the part
	Shard    *Shard          `json:"shard,omitempty"`
}

// Shard names the history a case needs: everything one worker ran before it.
type Shard struct {
	Worker int    `json:"worker"`
	Seed   uint64 `json:"seed"`
	Tier   string `json:"tier"`
}

// run evaluates one case; a panic of the code under test is a failure.
func (q *Part) run(c interface{}, x *X) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok && strings.HasPrefix(s, "harness: ") {
				err = &Trouble{s}
				return
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return q.check(c, x)
}

// Trouble is a failure of the harness itself (no disk space, say): it decides nothing.
type Trouble struct{ S string }

func (e *Trouble) Error() string { return e.S }

func trimStack(b []byte) string {
	l := strings.Split(string(b), "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

func hashOf(part string, b []byte) uint64 {
	h := fnv.New64a()
	h.Write([]byte(part))
	h.Write(b)
	return h.Sum64()
}

// Errf is fmt.Errorf.
func Errf(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }

// PartReport is what a worker did for one part.
type PartReport struct {
	Evals  int            `json:"evals"`
	Labels map[string]int `json:"labels"`
}

// Report is the result file of a worker.
type Report struct {
	Evals   int                    `json:"evals"`
	Parts   map[string]*PartReport `json:"parts"`
	Hashes  []uint64               `json:"hashes"`
	Samples []json.RawMessage      `json:"samples"`
	Fail    *Fail                  `json:"fail"`
	Short   bool                   `json:"short"` // time ran out before all cases were tried
	Bad     string                 `json:"bad"`   // the harness itself failed
	Rule    string                 `json:"rule"`
	Assume  []string               `json:"assume"`
}

type fakeTB struct {
	name   string
	failed bool
	logs   []string
}

var errFailNow = errors.New("fail now")

func (t *fakeTB) Helper()                           {}
func (t *fakeTB) Name() string                      { return t.name }
func (t *fakeTB) Logf(f string, a ...interface{})   { t.logs = append(t.logs, fmt.Sprintf(f, a...)) }
func (t *fakeTB) Log(a ...interface{})              { t.logs = append(t.logs, fmt.Sprint(a...)) }
func (t *fakeTB) Skipf(f string, a ...interface{})  { panic(errFailNow) }
func (t *fakeTB) Skip(a ...interface{})             { panic(errFailNow) }
func (t *fakeTB) SkipNow()                          { panic(errFailNow) }
func (t *fakeTB) Errorf(f string, a ...interface{}) { t.Logf(f, a...); t.failed = true }
func (t *fakeTB) Error(a ...interface{})            { t.Log(a...); t.failed = true }
func (t *fakeTB) Fatalf(f string, a ...interface{}) { t.Logf(f, a...); t.FailNow() }
func (t *fakeTB) Fatal(a ...interface{})            { t.Log(a...); t.FailNow() }
func (t *fakeTB) FailNow()                          { t.failed = true; panic(errFailNow) }
func (t *fakeTB) Fail()                             { t.failed = true }
func (t *fakeTB) Failed() bool                      { return t.failed }

type worker struct {
	p        *Prop
	tier     string
	seed     uint64
	n, of    int
	deadline time.Time
	journal  *os.File
	rep      *Report
	seen     map[uint64]bool
	byLabel  map[string]bool
	x        X
	started  int64 // number of the current case
	serial   int64
	frozen   bool
	failed   time.Time // when the first failure was seen
}

func (w *worker) eval(q *Part, c interface{}) error {
	raw, merr := json.Marshal(c)
	if merr != nil {
		w.rep.Bad = merr.Error()
		return nil
	}
	if w.frozen && time.Since(w.failed) > 25*time.Second { // shrinking of slow cases has to end
		if w.rep.Fail != nil && bytes.Equal(raw, w.rep.Fail.Case) {
			return errors.New(w.rep.Fail.Message)
		}
		return nil
	}
	if w.journal != nil {
		_ = w.journal.Truncate(0)
		f := Fail{Property: w.p.ID, Part: q.Name, Case: raw, Message: "died in this case"}
		b, _ := json.Marshal(f)
		_, _ = w.journal.WriteAt(b, 0)
	}
	x := w.x
	x.nontrivial, x.labels = false, nil
	w.serial++
	atomic.StoreInt64(&w.started, w.serial)
	if w.rep.Bad != "" {
		return nil
	}
	err := q.run(c, &x)
	atomic.StoreInt64(&w.started, 0)
	if tr, ok := err.(*Trouble); ok {
		w.rep.Bad = tr.S
		return nil
	}
	again := w.frozen
	if err != nil {
		if !w.frozen {
			w.failed = time.Now()
		}
		w.frozen = true // what follows is shrinking
		w.rep.Fail = &Fail{Property: w.p.ID, Part: q.Name, Message: err.Error(), Case: raw}
	}
	if again {
		return err
	}
	pr := w.rep.Parts[q.Name]
	if pr == nil {
		pr = &PartReport{Labels: map[string]int{}}
		w.rep.Parts[q.Name] = pr
	}
	pr.Evals++
	w.rep.Evals++
	fresh := false
	for _, l := range x.labels {
		pr.Labels[l]++
		if !w.byLabel[q.Name+l] {
			w.byLabel[q.Name+l] = true
			fresh = true
		}
	}
	if x.nontrivial {
		h := hashOf(q.Name, raw)
		if !w.seen[h] {
			w.seen[h] = true
			if (fresh || len(w.rep.Samples) < 2) && len(w.rep.Samples) < 8 && len(raw) < 1500 {
				s, _ := json.Marshal(map[string]interface{}{"part": q.Name, "case": json.RawMessage(raw), "labels": x.labels})
				w.rep.Samples = append(w.rep.Samples, s)
			}
		}
	}
	return err
}

func (w *worker) part(q *Part, total int, pseed uint64) {
	if q.fixed != nil {
		i := 0
		q.fixed(w.tier, func(c interface{}) {
			i++
			if w.rep.Fail != nil || w.rep.Bad != "" || (!q.solo && i%w.of != w.n) || (q.solo && w.n != 0) {
				return
			}
			if time.Now().After(w.deadline) {
				w.rep.Short = true
				return
			}
			w.eval(q, c)
		})
		if w.rep.Fail != nil {
			return
		}
	}
	if q.gen == nil || total == 0 {
		return
	}
	n := total / w.of
	if w.n < total%w.of {
		n++
	}
	if n == 0 {
		return
	}
	setFlag("rapid.checks", fmt.Sprint(n))
	setFlag("rapid.seed", fmt.Sprint(pseed))
	setFlag("rapid.nofailfile", "true")
	shrink := "20s"
	if s := os.Getenv("VERIF_SHRINK"); s != "" {
		shrink = s
	}
	setFlag("rapid.shrinktime", shrink)
	tb := &fakeTB{name: w.p.ID + "/" + q.Name}
	func() {
		defer func() {
			if r := recover(); r != nil && r != errFailNow {
				panic(r)
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			if !w.frozen && time.Now().After(w.deadline) {
				w.rep.Short = true
				return
			}
			Before(t)
			c := q.gen(t)
			if err := w.eval(q, c); err != nil {
				t.Fatalf("%v", err)
			}
		})
	}()
	if tb.failed && w.rep.Fail == nil {
		w.rep.Bad = "generator failed: " + strings.Join(tb.logs, "\n")
	}
}
