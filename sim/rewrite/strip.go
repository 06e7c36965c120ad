package main

import (
	"go/ast"
	"go/token"
	"reflect"
)

var posType = reflect.TypeOf(token.Pos(0))

// stripPos zeroes the positions of a rewritten file so that the printer lays it
// out afresh. Positions that carry meaning (an ellipsis, the parentheses of a
// declaration group, an alias) are kept as non-zero.
func stripPos(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		v := reflect.ValueOf(n)
		if v.Kind() != reflect.Ptr || v.IsNil() {
			return true
		}
		v = v.Elem()
		if v.Kind() != reflect.Struct {
			return true
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Type() != posType || !v.Field(i).CanSet() {
				continue
			}
			name := v.Type().Field(i).Name
			switch name {
			case "Ellipsis", "Assign", "Lparen", "Arrow":
				if v.Field(i).Int() != 0 {
					v.Field(i).SetInt(1)
				}
			default:
				v.Field(i).SetInt(0)
			}
		}
		return true
	})
}
