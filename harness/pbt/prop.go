package pbt

import (
	"fmt"
	"sort"
	"strings"
	"sync"
)

// R collects the verdict of one case.
type R struct {
	mu      sync.Mutex
	Fails   []Failure
	Classes map[string]int
	NonTriv bool
	Desc    string // human-readable case
	Notes   []string
}

// Failure is one violated expectation. Sig identifies the kind of failure (for known findings
// and to keep shrinking on the same failure).
type Failure struct {
	Sig string `json:"sig"`
	Msg string `json:"msg"`
}

func NewR() *R { return &R{Classes: map[string]int{}} }

// Fail records a violation.
func (r *R) Fail(sig, format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Fails) < 20 {
		r.Fails = append(r.Fails, Failure{sig, fmt.Sprintf(format, a...)})
	}
}

func (r *R) Failed() bool { r.mu.Lock(); defer r.mu.Unlock(); return len(r.Fails) > 0 }

// Class counts a feature of the case.
func (r *R) Class(c string) {
	r.mu.Lock()
	r.Classes[c]++
	r.mu.Unlock()
}

// NonTrivial marks the case as non-trivial under the property's rule.
func (r *R) NonTrivial() { r.mu.Lock(); r.NonTriv = true; r.mu.Unlock() }

// Note adds a line shown with a failure.
func (r *R) Note(format string, a ...any) {
	r.mu.Lock()
	if len(r.Notes) < 400 {
		r.Notes = append(r.Notes, fmt.Sprintf(format, a...))
	}
	r.mu.Unlock()
}

// Prop is one executable property.
type Prop struct {
	ID    string
	Rule  string                  // how cases are made and what makes one non-trivial
	Level string                  // evidence level
	Gen   func(d *D) any          // all random choices
	Run   func(c any, r *R)       // executes the case; no draws
	Desc  func(c any) string      // optional description; default %+v
	Quick int                     // number of cases, quick tier
	Deep  int                     // number of cases, thorough tier
	Chunk int                     // cases per worker process
	Pre   func(r *R, tier string) // optional deterministic sweep run once (in its own worker)
	CPUs  int                     // GOMAXPROCS of workers (default 1)
	Assume []string
}

var registry = map[string]*Prop{}

func Register(p *Prop) { registry[p.ID] = p }
func Get(id string) *Prop { return registry[id] }
func IDs() (ids []string) {
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return
}

func (p *Prop) describe(c any) string {
	if p.Desc != nil {
		return p.Desc(c)
	}
	s := fmt.Sprintf("%+v", c)
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return strings.ToValidUTF8(s, "?")
}
