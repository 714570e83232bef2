package spec

import (
	"math/rand"
	"reflect"
	"unsafe"

	"verifh/sym"
)

// inject makes every random generator inside v draw the inputs named "rand"
// in a native replay (the engine makes every draw symbolic by itself).
func inject(v any) {
	if sym.InEngine() {
		return
	}
	injectIn(reflect.ValueOf(v), map[unsafe.Pointer]bool{}, 0)
}

func injectIn(v reflect.Value, seen map[unsafe.Pointer]bool, depth int) {
	if depth > 4 {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		injectIn(v.Elem(), seen, depth)
	case reflect.Pointer:
		if v.IsNil() || seen[v.UnsafePointer()] {
			return
		}
		seen[v.UnsafePointer()] = true
		injectIn(v.Elem(), seen, depth+1)
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(rand.Rand{}) {
			if v.CanAddr() {
				*(*rand.Rand)(unsafe.Pointer(v.UnsafeAddr())) = sym.Rand()
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			injectIn(v.Field(i), seen, depth)
		}
	}
}
