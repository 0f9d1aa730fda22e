package main

import (
	"fmt"
	"os"
	"sort"
)

var dbgLeaf bool
var dbgClause = os.Getenv("ZCLAUSE")

func sortStrings(s []string) { sort.Strings(s) }

func dumpScene(o *Outcome, cl *clause, x *scene, items []item) {
	fmt.Println("=== unresolved", o.kind)
	if cl != nil {
		fmt.Println("  clause", cl.name, "guard", consStr(cl.guard), "then", consStr(cl.then))
	}
	fmt.Println("  facts", factsStr(x.f, newFacts()))
	for _, it := range items {
		fmt.Println("  item", it.what, "guard", consStr(it.guard), "then", consStr(it.then))
	}
}
