package sched

import "reflect"

var kept []func()

// Keep remembers the value of a variable, given by its address; if that is a pointer, the value it points to as well.
func Keep(p any) {
	to := reflect.ValueOf(p).Elem()
	save := func(v reflect.Value) {
		c := reflect.New(v.Type())
		c.Elem().Set(v)
		kept = append(kept, func() { v.Set(c.Elem()) })
	}
	save(to)
	if to.Kind() == reflect.Pointer && !to.IsNil() {
		save(to.Elem())
	}
}

// Restore gives all of them the remembered values.
func Restore() {
	for _, f := range kept {
		f()
	}
}
