// Package ref holds the reference models: deliberately boring re-implementations of the documented
// behaviour, sharing no code with the repository.
package ref

import (
	"fmt"
	"sort"
	"strings"

	"github.com/aarondl/bpass/txlogs"
)

// State is the visible state of a database.
type State map[string]map[string]string

// Replay applies a log from the beginning.  ok is false if it cannot be replayed; n is then the
// number of transactions applied.
func Replay(log []txlogs.Tx) (s State, n int, ok bool) {
	s = State{}
	for i, t := range log {
		e, live := s[t.UUID]
		switch string(t.Kind) {
		case "add":
			if live {
				return s, i, false
			}
			s[t.UUID] = map[string]string{}
		case "del":
			if !live {
				return s, i, false
			}
			delete(s, t.UUID)
		case "setk":
			if !live {
				return s, i, false
			}
			e[t.Key] = t.Value
		case "delk":
			if !live {
				return s, i, false
			}
			delete(e, t.Key)
		}
	}
	return s, len(log), true
}

// Same compares a real snapshot with a model state (nil and empty are the same).
func Same(got map[string]txlogs.Entry, want State) bool {
	if len(got) != len(want) {
		return false
	}
	for u, e := range want {
		g, ok := got[u]
		if !ok || len(g) != len(e) {
			return false
		}
		for k, v := range e {
			if gv, ok := g[k]; !ok || gv != v {
				return false
			}
		}
	}
	return true
}

// Show renders a state canonically.
func (s State) Show() string {
	var us []string
	for u := range s {
		us = append(us, u)
	}
	sort.Strings(us)
	var b strings.Builder
	for _, u := range us {
		var ks []string
		for k := range s[u] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Fprintf(&b, "%s{", u)
		for _, k := range ks {
			fmt.Fprintf(&b, "%q:%q ", k, s[u][k])
		}
		b.WriteString("} ")
	}
	return b.String()
}

// Of converts a real snapshot.
func Of(m map[string]txlogs.Entry) State {
	s := State{}
	for u, e := range m {
		s[u] = map[string]string{}
		for k, v := range e {
			s[u][k] = v
		}
	}
	return s
}

// ShowLog renders a log.
func ShowLog(l []txlogs.Tx) string {
	var b strings.Builder
	for _, t := range l {
		fmt.Fprintf(&b, "[%d %s %s", t.Time, t.Kind, t.UUID)
		if t.Key != "" || t.Value != "" {
			fmt.Fprintf(&b, " %q=%q", t.Key, t.Value)
		}
		b.WriteString("]")
	}
	return b.String()
}

// EqualLogs compares logs transaction by transaction.
func EqualLogs(a, b []txlogs.Tx) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
