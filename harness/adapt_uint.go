package main

// Generated by tools/mkadapt.py. Adapters for fixed-width packages.

import (
	"net"

	domaintree16 "github.com/infobloxopen/go-trees/uintX/domaintree16"
	domaintree32 "github.com/infobloxopen/go-trees/uintX/domaintree32"
	domaintree64 "github.com/infobloxopen/go-trees/uintX/domaintree64"
	domaintree8 "github.com/infobloxopen/go-trees/uintX/domaintree8"
	iptree16 "github.com/infobloxopen/go-trees/uintX/iptree16"
	iptree32 "github.com/infobloxopen/go-trees/uintX/iptree32"
	iptree64 "github.com/infobloxopen/go-trees/uintX/iptree64"
	iptree8 "github.com/infobloxopen/go-trees/uintX/iptree8"
	strtree16 "github.com/infobloxopen/go-trees/uintX/strtree16"
	strtree32 "github.com/infobloxopen/go-trees/uintX/strtree32"
	strtree64 "github.com/infobloxopen/go-trees/uintX/strtree64"
	strtree8 "github.com/infobloxopen/go-trees/uintX/strtree8"
)

func init() {
	{
		c := conv[uint8]{func(v interface{}) uint8 { return v.(uint8) }, func(v uint8) interface{} { return v }}
		addStr[*strtree8.Tree, uint8, strtree8.Pair]("strtree8", 8, c,
			func(p strtree8.Pair) (string, uint8) { return p.Key, p.Value },
			func(t *strtree8.Tree) bool { return t == nil },
			func(f cmpFn) *strtree8.Tree { return strtree8.NewTreeWithCustomComparison(strtree8.Compare(f)) },
			strtree8.NewTree)
		addIP[*iptree8.Tree, uint8, iptree8.Pair]("iptree8", 8, c,
			func(p iptree8.Pair) (*net.IPNet, uint8) { return p.Key, p.Value },
			func(t *iptree8.Tree) bool { return t == nil }, iptree8.NewTree)
		addDom[*domaintree8.Node, uint8, domaintree8.Pair]("domaintree8", 8, c,
			func(p domaintree8.Pair) (string, uint8) { return p.Key, p.Value },
			func(t *domaintree8.Node) bool { return t == nil }, func() *domaintree8.Node { return new(domaintree8.Node) })
	}
	{
		c := conv[uint16]{func(v interface{}) uint16 { return v.(uint16) }, func(v uint16) interface{} { return v }}
		addStr[*strtree16.Tree, uint16, strtree16.Pair]("strtree16", 16, c,
			func(p strtree16.Pair) (string, uint16) { return p.Key, p.Value },
			func(t *strtree16.Tree) bool { return t == nil },
			func(f cmpFn) *strtree16.Tree { return strtree16.NewTreeWithCustomComparison(strtree16.Compare(f)) },
			strtree16.NewTree)
		addIP[*iptree16.Tree, uint16, iptree16.Pair]("iptree16", 16, c,
			func(p iptree16.Pair) (*net.IPNet, uint16) { return p.Key, p.Value },
			func(t *iptree16.Tree) bool { return t == nil }, iptree16.NewTree)
		addDom[*domaintree16.Node, uint16, domaintree16.Pair]("domaintree16", 16, c,
			func(p domaintree16.Pair) (string, uint16) { return p.Key, p.Value },
			func(t *domaintree16.Node) bool { return t == nil }, func() *domaintree16.Node { return new(domaintree16.Node) })
	}
	{
		c := conv[uint32]{func(v interface{}) uint32 { return v.(uint32) }, func(v uint32) interface{} { return v }}
		addStr[*strtree32.Tree, uint32, strtree32.Pair]("strtree32", 32, c,
			func(p strtree32.Pair) (string, uint32) { return p.Key, p.Value },
			func(t *strtree32.Tree) bool { return t == nil },
			func(f cmpFn) *strtree32.Tree { return strtree32.NewTreeWithCustomComparison(strtree32.Compare(f)) },
			strtree32.NewTree)
		addIP[*iptree32.Tree, uint32, iptree32.Pair]("iptree32", 32, c,
			func(p iptree32.Pair) (*net.IPNet, uint32) { return p.Key, p.Value },
			func(t *iptree32.Tree) bool { return t == nil }, iptree32.NewTree)
		addDom[*domaintree32.Node, uint32, domaintree32.Pair]("domaintree32", 32, c,
			func(p domaintree32.Pair) (string, uint32) { return p.Key, p.Value },
			func(t *domaintree32.Node) bool { return t == nil }, func() *domaintree32.Node { return new(domaintree32.Node) })
	}
	{
		c := conv[uint64]{func(v interface{}) uint64 { return v.(uint64) }, func(v uint64) interface{} { return v }}
		addStr[*strtree64.Tree, uint64, strtree64.Pair]("strtree64", 64, c,
			func(p strtree64.Pair) (string, uint64) { return p.Key, p.Value },
			func(t *strtree64.Tree) bool { return t == nil },
			func(f cmpFn) *strtree64.Tree { return strtree64.NewTreeWithCustomComparison(strtree64.Compare(f)) },
			strtree64.NewTree)
		addIP[*iptree64.Tree, uint64, iptree64.Pair]("iptree64", 64, c,
			func(p iptree64.Pair) (*net.IPNet, uint64) { return p.Key, p.Value },
			func(t *iptree64.Tree) bool { return t == nil }, iptree64.NewTree)
		addDom[*domaintree64.Node, uint64, domaintree64.Pair]("domaintree64", 64, c,
			func(p domaintree64.Pair) (string, uint64) { return p.Key, p.Value },
			func(t *domaintree64.Node) bool { return t == nil }, func() *domaintree64.Node { return new(domaintree64.Node) })
	}
}
