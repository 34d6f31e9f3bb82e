package props

import (
	"reflect"
	"unsafe"
)

// graphSize counts the objects reachable from roots: the size of an
// idle interpreter, however it keeps its state.
func graphSize(roots ...interface{}) int {
	type key struct {
		p unsafe.Pointer
		t reflect.Type
	}
	seen := map[key]bool{}
	n := 0
	var stack []reflect.Value
	for _, r := range roots {
		stack = append(stack, reflect.ValueOf(r))
	}
	for len(stack) > 0 {
		v := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				continue
			}
			k := key{v.UnsafePointer(), v.Type()}
			if seen[k] {
				continue
			}
			seen[k] = true
			n++
			stack = append(stack, v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				stack = append(stack, v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if pointery(v.Field(i).Type()) {
					stack = append(stack, v.Field(i))
				}
			}
		case reflect.Slice:
			if v.IsNil() {
				continue
			}
			k := key{v.UnsafePointer(), v.Type()}
			if v.Len() > 0 {
				if seen[k] {
					continue
				}
				seen[k] = true
			}
			n += v.Len()
			if pointery(v.Type().Elem()) {
				for i := 0; i < v.Len(); i++ {
					stack = append(stack, v.Index(i))
				}
			}
		case reflect.Array:
			if pointery(v.Type().Elem()) {
				for i := 0; i < v.Len(); i++ {
					stack = append(stack, v.Index(i))
				}
			}
		case reflect.Map:
			if v.IsNil() {
				continue
			}
			k := key{v.UnsafePointer(), v.Type()}
			if seen[k] {
				continue
			}
			seen[k] = true
			n += v.Len()
			pk, pv := pointery(v.Type().Key()), pointery(v.Type().Elem())
			if !pk && !pv {
				continue
			}
			it := v.MapRange()
			for it.Next() {
				if pk {
					stack = append(stack, it.Key())
				}
				if pv {
					stack = append(stack, it.Value())
				}
			}
		}
	}
	return n
}

var pointeryMemo = map[reflect.Type]bool{}

func pointery(t reflect.Type) bool {
	if b, ok := pointeryMemo[t]; ok {
		return b
	}
	pointeryMemo[t] = true // while deciding
	b := false
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice:
		b = true
		// types and files are not the interpreter's
		if t.PkgPath() == "reflect" || t.Kind() == reflect.Interface && t.PkgPath() == "reflect" {
			b = false
		}
		if t.Kind() == reflect.Ptr && (t.Elem().PkgPath() == "os" || t.Elem().PkgPath() == "sync" || t.Elem().PkgPath() == "reflect") {
			b = false
		}
	case reflect.Struct:
		if p := t.PkgPath(); p == "sync" || p == "os" || p == "reflect" || p == "time" {
			break
		}
		for i := 0; i < t.NumField(); i++ {
			if pointery(t.Field(i).Type) {
				b = true
			}
		}
	case reflect.Array:
		b = pointery(t.Elem())
	}
	pointeryMemo[t] = b
	return b
}
