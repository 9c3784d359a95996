// Package vgo replaces the go statement in instrumented code: it keeps a panic in a goroutine of the
// code under test from ending the whole exploration and records it instead (in the real program it
// ends the process), and lets a scheduler take charge of the goroutine.
package vgo

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"sync"
)

// Hook, when set, wraps the body of every goroutine the code under test starts.
var Hook func(run func()) func()

var (
	mu     sync.Mutex
	panics []string
)

// Record notes a fatal event (a goroutine panic, a fatal log call).
func Record(s string) {
	mu.Lock()
	panics = append(panics, s)
	mu.Unlock()
}

// Take returns and clears what was recorded.
func Take() []string {
	mu.Lock()
	defer mu.Unlock()
	p := panics
	panics = nil
	return p
}

// Spawn evaluates like the operands of a go statement and returns the goroutine's body.
func Spawn(f interface{}, args ...interface{}) func() {
	var call func()
	if fn, ok := f.(func()); ok && len(args) == 0 {
		call = fn
	} else {
		call = bind(f, args, false)
	}
	return wrap(call)
}

// SpawnV is Spawn for a call whose last argument is followed by "...".
func SpawnV(f interface{}, args ...interface{}) func() { return wrap(bind(f, args, true)) }

func wrap(call func()) func() {
	g := func() {
		defer func() {
			if e := recover(); e != nil {
				Record(fmt.Sprintf("goroutine panic: %v\n%s", e, debug.Stack()))
			}
		}()
		call()
	}
	if Hook != nil {
		return Hook(g)
	}
	return g
}

func bind(f interface{}, args []interface{}, spread bool) func() {
	v := reflect.ValueOf(f)
	t := v.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		switch {
		case t.IsVariadic() && i >= t.NumIn()-1 && !spread:
			pt = t.In(t.NumIn() - 1).Elem()
		default:
			pt = t.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		x := reflect.ValueOf(a)
		if !x.Type().AssignableTo(pt) && x.Type().ConvertibleTo(pt) {
			x = x.Convert(pt)
		}
		in[i] = x
	}
	if spread {
		return func() { v.CallSlice(in) }
	}
	return func() { v.Call(in) }
}
