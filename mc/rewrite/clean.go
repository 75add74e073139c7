package main

import (
	"go/ast"
	"go/token"
	"reflect"
)

// clean removes the positions of a file, so that the printer lays the rewritten tree out
// afresh instead of mixing old and new lines.
func clean(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			return true
		}
		v := reflect.ValueOf(n)
		if v.Kind() != reflect.Ptr || v.IsNil() {
			return true
		}
		e := v.Elem()
		if e.Kind() != reflect.Struct {
			return true
		}
		for i := 0; i < e.NumField(); i++ {
			fl := e.Field(i)
			if fl.Type() == reflect.TypeOf(token.Pos(0)) && fl.CanSet() {
				name := e.Type().Field(i).Name
				// positions that carry meaning
				switch name {
				case "Ellipsis":
					if fl.Int() != 0 {
						fl.SetInt(1)
					}
					continue
				case "Assign": // alias declarations
					if fl.Int() != 0 {
						fl.SetInt(1)
					}
					continue
				case "Lparen", "Rparen":
					if _, ok := n.(*ast.GenDecl); ok {
						if fl.Int() != 0 {
							fl.SetInt(1)
						}
						continue
					}
				case "Arrow":
				}
				fl.SetInt(0)
			}
			if fl.Type() == reflect.TypeOf((*ast.CommentGroup)(nil)) && fl.CanSet() {
				fl.Set(reflect.Zero(fl.Type()))
			}
		}
		return true
	})
}
