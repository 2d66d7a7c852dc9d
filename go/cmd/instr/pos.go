package main

import (
	"go/ast"
	"go/token"
	"reflect"
)

var posType = reflect.TypeOf(token.Pos(0))

// zeroPos clears the token positions of a tree, except those whose presence
// carries meaning (ellipsis of calls, alias assignment, parenthesised decls).
func zeroPos(f *ast.File) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			t := v.Type()
			if t == reflect.TypeOf(ast.Object{}) || t == reflect.TypeOf(ast.Scope{}) {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				n := t.Field(i).Name
				if t.Field(i).Type == posType {
					keep := n == "Ellipsis" || n == "Assign" || n == "Lparen" && t == reflect.TypeOf(ast.GenDecl{}) || n == "Arrow" || n == "Begin"
					if v.Field(i).CanSet() {
						if keep && v.Field(i).Int() != 0 {
							v.Field(i).SetInt(1)
						} else {
							v.Field(i).SetInt(0)
						}
					}
					continue
				}
				walk(v.Field(i))
			}
		}
	}
	walk(reflect.ValueOf(f))
}
