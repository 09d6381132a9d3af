package models

import "reflect"

func reflectApply(f reflect.Value, in []reflect.Value) any  { panic("intrinsic") }
func reflectResults(f reflect.Value, r any) []reflect.Value { panic("intrinsic") }

// ReflectCall replaces reflect.Value.Call.
func ReflectCall(f reflect.Value, in []reflect.Value) []reflect.Value {
	return reflectResults(f, reflectApply(f, in))
}
