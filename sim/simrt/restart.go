package simrt

import (
	"reflect"
	"sort"
)

type onRestart struct {
	order int
	f     func()
}

var restarts []onRestart

// OnRestart registers what gives a variable of the library the value it has
// when a process starts. Calls come from init functions of the rewritten files.
func OnRestart(order int, f func()) {
	restarts = append(restarts, onRestart{order, f})
	sort.SliceStable(restarts, func(i, j int) bool { return restarts[i].order < restarts[j].order })
}

// Zero empties a variable, whatever its type is.
func Zero(p interface{}) {
	v := reflect.ValueOf(p).Elem()
	v.Set(reflect.Zero(v.Type()))
}

// Restart puts the library into the state in which it is when a process starts
// and reports how many variables that took.
func Restart() int {
	for _, r := range restarts {
		r.f()
	}
	return len(restarts)
}
