// Command gennet writes the shim for package net: every exported name of the
// installed package except those that shim/net/dial.go replaces.
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"sort"
)

var own = map[string]bool{"Dialer": true, "Dial": true, "DialTimeout": true, "Listen": true, "ListenConfig": true, "Pipe": true}

func main() {
	p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import("net")
	if err != nil {
		panic(err)
	}
	names := p.Scope().Names()
	sort.Strings(names)
	out := map[string][]string{}
	for _, n := range names {
		o := p.Scope().Lookup(n)
		if !o.Exported() || own[n] {
			continue
		}
		switch o.(type) {
		case *types.TypeName:
			out["type"] = append(out["type"], n)
		case *types.Const:
			out["const"] = append(out["const"], n)
		default:
			out["var"] = append(out["var"], n)
		}
	}
	f, err := os.Create(os.Args[1])
	if err != nil {
		panic(err)
	}
	fmt.Fprintln(f, "// Code generated by cmd/gennet. DO NOT EDIT.\n\n// Package net stands in for the standard package: dialling and listening go\n// to the simulator's network.\npackage net\n\nimport \"net\"")
	for _, k := range []string{"type", "const", "var"} {
		fmt.Fprintf(f, "\n%s (\n", k)
		for _, n := range out[k] {
			fmt.Fprintf(f, "\t%s = net.%s\n", n, n)
		}
		fmt.Fprintln(f, ")")
	}
	f.Close()
}
