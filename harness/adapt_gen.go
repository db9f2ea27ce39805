//go:build gen

package main

// Adapters for the packages instantiated from the templates (C29). They mirror adapt_uint.go.

import (
	"net"

	gdomaintree16 "vharness/gen/domaintree16"
	gdomaintree32 "vharness/gen/domaintree32"
	gdomaintree64 "vharness/gen/domaintree64"
	gdomaintree8 "vharness/gen/domaintree8"
	giptree16 "vharness/gen/iptree16"
	giptree32 "vharness/gen/iptree32"
	giptree64 "vharness/gen/iptree64"
	giptree8 "vharness/gen/iptree8"
	gstrtree16 "vharness/gen/strtree16"
	gstrtree32 "vharness/gen/strtree32"
	gstrtree64 "vharness/gen/strtree64"
	gstrtree8 "vharness/gen/strtree8"
)

func init() {
	{
		c := conv[uint8]{func(v interface{}) uint8 { return v.(uint8) }, func(v uint8) interface{} { return v }}
		addStr[*gstrtree8.Tree, uint8, gstrtree8.Pair]("gen-strtree8", 8, c,
			func(p gstrtree8.Pair) (string, uint8) { return p.Key, p.Value },
			func(t *gstrtree8.Tree) bool { return t == nil },
			func(f cmpFn) *gstrtree8.Tree { return gstrtree8.NewTreeWithCustomComparison(gstrtree8.Compare(f)) },
			gstrtree8.NewTree)
		addIP[*giptree8.Tree, uint8, giptree8.Pair]("gen-iptree8", 8, c,
			func(p giptree8.Pair) (*net.IPNet, uint8) { return p.Key, p.Value },
			func(t *giptree8.Tree) bool { return t == nil }, giptree8.NewTree)
		addDom[*gdomaintree8.Node, uint8, gdomaintree8.Pair]("gen-domaintree8", 8, c,
			func(p gdomaintree8.Pair) (string, uint8) { return p.Key, p.Value },
			func(t *gdomaintree8.Node) bool { return t == nil }, func() *gdomaintree8.Node { return new(gdomaintree8.Node) })
	}
	{
		c := conv[uint16]{func(v interface{}) uint16 { return v.(uint16) }, func(v uint16) interface{} { return v }}
		addStr[*gstrtree16.Tree, uint16, gstrtree16.Pair]("gen-strtree16", 16, c,
			func(p gstrtree16.Pair) (string, uint16) { return p.Key, p.Value },
			func(t *gstrtree16.Tree) bool { return t == nil },
			func(f cmpFn) *gstrtree16.Tree { return gstrtree16.NewTreeWithCustomComparison(gstrtree16.Compare(f)) },
			gstrtree16.NewTree)
		addIP[*giptree16.Tree, uint16, giptree16.Pair]("gen-iptree16", 16, c,
			func(p giptree16.Pair) (*net.IPNet, uint16) { return p.Key, p.Value },
			func(t *giptree16.Tree) bool { return t == nil }, giptree16.NewTree)
		addDom[*gdomaintree16.Node, uint16, gdomaintree16.Pair]("gen-domaintree16", 16, c,
			func(p gdomaintree16.Pair) (string, uint16) { return p.Key, p.Value },
			func(t *gdomaintree16.Node) bool { return t == nil }, func() *gdomaintree16.Node { return new(gdomaintree16.Node) })
	}
	{
		c := conv[uint32]{func(v interface{}) uint32 { return v.(uint32) }, func(v uint32) interface{} { return v }}
		addStr[*gstrtree32.Tree, uint32, gstrtree32.Pair]("gen-strtree32", 32, c,
			func(p gstrtree32.Pair) (string, uint32) { return p.Key, p.Value },
			func(t *gstrtree32.Tree) bool { return t == nil },
			func(f cmpFn) *gstrtree32.Tree { return gstrtree32.NewTreeWithCustomComparison(gstrtree32.Compare(f)) },
			gstrtree32.NewTree)
		addIP[*giptree32.Tree, uint32, giptree32.Pair]("gen-iptree32", 32, c,
			func(p giptree32.Pair) (*net.IPNet, uint32) { return p.Key, p.Value },
			func(t *giptree32.Tree) bool { return t == nil }, giptree32.NewTree)
		addDom[*gdomaintree32.Node, uint32, gdomaintree32.Pair]("gen-domaintree32", 32, c,
			func(p gdomaintree32.Pair) (string, uint32) { return p.Key, p.Value },
			func(t *gdomaintree32.Node) bool { return t == nil }, func() *gdomaintree32.Node { return new(gdomaintree32.Node) })
	}
	{
		c := conv[uint64]{func(v interface{}) uint64 { return v.(uint64) }, func(v uint64) interface{} { return v }}
		addStr[*gstrtree64.Tree, uint64, gstrtree64.Pair]("gen-strtree64", 64, c,
			func(p gstrtree64.Pair) (string, uint64) { return p.Key, p.Value },
			func(t *gstrtree64.Tree) bool { return t == nil },
			func(f cmpFn) *gstrtree64.Tree { return gstrtree64.NewTreeWithCustomComparison(gstrtree64.Compare(f)) },
			gstrtree64.NewTree)
		addIP[*giptree64.Tree, uint64, giptree64.Pair]("gen-iptree64", 64, c,
			func(p giptree64.Pair) (*net.IPNet, uint64) { return p.Key, p.Value },
			func(t *giptree64.Tree) bool { return t == nil }, giptree64.NewTree)
		addDom[*gdomaintree64.Node, uint64, gdomaintree64.Pair]("gen-domaintree64", 64, c,
			func(p gdomaintree64.Pair) (string, uint64) { return p.Key, p.Value },
			func(t *gdomaintree64.Node) bool { return t == nil }, func() *gdomaintree64.Node { return new(gdomaintree64.Node) })
	}
}
