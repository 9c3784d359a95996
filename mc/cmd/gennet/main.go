// gennet prints re-exports of the whole API of package net for package vnet (run once: go run ./cmd/gennet > vnet/zz_net.go).
package main

import (
	"fmt"
	"go/constant"
	"go/importer"
	"go/token"
	"go/types"
)

func main() {
	p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import("net")
	if err != nil {
		panic(err)
	}
	fmt.Println("// Code generated by cmd/gennet; DO NOT EDIT.\n\npackage vnet\n\nimport \"net\"")
	skip := map[string]bool{"Listen": true, "ListenConfig": true}
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			fmt.Printf("type %s = net.%s\n", n, n)
		case *types.Const:
			_ = constant.Val(o.Val())
			fmt.Printf("const %s = net.%s\n", n, n)
		case *types.Var, *types.Func:
			fmt.Printf("var %s = net.%s\n", n, n)
		}
	}
}
