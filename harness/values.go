package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net"
	"reflect"
	"sync"
	"time"
	"unsafe"

	"github.com/infobloxopen/go-trees/dltree"
	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/domaintree"
	"github.com/infobloxopen/go-trees/iptree"
	"github.com/infobloxopen/go-trees/numtree"
	"github.com/infobloxopen/go-trees/strtree"
)

// widths of the fixed-width packages; 0 is the generic one.
var widths = []int{0, 8, 16, 32, 64}

// rawTok is the base of tokens which stand for the number above it; rawTop and rawMid are those of tokens
// for numbers just below 2^64 and around 2^63.
const (
	rawTok = 1 << 41
	rawTop = 1 << 61
	rawMid = 1<<61 + 1<<60
	rawWin = 1 << 40
)

// numTok gives the token of a number (or of its low bits).
func numTok(n uint64) int {
	switch {
	case ^n < rawWin:
		return rawTop + int(^n)
	case n-(1<<63-rawWin) < 2*rawWin:
		return rawMid + int(n-(1<<63-rawWin))
	}
	return rawTok + int(n&(1<<60-1))
}

// tokNum is the number a token above rawTok stands for.
func tokNum(tok int) uint64 {
	switch {
	case tok >= rawMid:
		return uint64(tok-rawMid) + (1<<63 - rawWin)
	case tok >= rawTop:
		return ^uint64(tok - rawTop)
	}
	return uint64(tok - rawTok)
}

// uval maps a value token to a value of the given width: the ends of the range, single bits,
// and spread values so that a truncated value differs.
func uval(tok, width int) uint64 {
	var max uint64 = math.MaxUint64
	if width < 64 {
		max = 1<<uint(width) - 1
	}
	if tok >= rawTok {
		return tokNum(tok) & max
	}
	switch tok {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return max
	case 3:
		return max>>1 + 1
	case 4:
		return max - 1
	case 5:
		return max &^ 0xff // low byte zero
	case 6:
		return max &^ (max >> uint(width/2)) // high half only
	case 7:
		return max >> 1
	}
	if tok%6 == 2 { // around a power of two
		r := mix(uint64(tok))
		return (1<<(r%uint64(width)) + (r>>8)%3 - 1) & max
	}
	return mix(uint64(tok)*0x9e3779b97f4a7c15) & max
}

// Weird values for the generic packages.
type pt struct{ A, B int }
type named []int

var (
	wvPtr    = &pt{1, 2}
	wvPtr2   = &pt{1, 2}
	wvSlice  = []int{1, 2, 3}
	wvSlice2 = []int{1, 2, 3}
	wvMap    = map[string]int{"a": 1}
	wvMap2   = map[string]int{"a": 1}
	wvFunc   = func() int { return 1 }
	wvFunc2  = func() string { return "x" }
	wvChan   = make(chan int)
	wvErr    = errors.New("e")
	wvN64    = &numtree.Node64{Leaf: true, Value: "n64"}
	wvN32    = &numtree.Node32{Leaf: true, Value: "n32"}
	wvDom    = new(domaintree.Node)
	wvIP     = iptree.NewTree()
	wvStr    = strtree.NewTree()
	wvDl     = dltree.NewTree()
)

// weirdTable holds uncommon values; index = value token modulo its length.
var weirdTable = []interface{}{
	nil,
	(*pt)(nil),
	wvSlice,
	wvMap,
	func() {},
	wvN64,
	(*numtree.Node64)(nil),
	wvDom,
	(*domaintree.Node)(nil),
	wvPtr,
	wvPtr2,
	wvSlice2,
	wvMap2,
	wvN32,
	(*numtree.Node32)(nil),
	wvIP,
	wvStr,
	(*strtree.Tree)(nil),
	wvDl,
	(*dltree.Tree)(nil),
	wvChan,
	wvErr,
	error(nil),
	[]int(nil),
	map[string]int(nil),
	(func())(nil),
	"",
	0,
	false,
	true,
	math.NaN(),
	math.Inf(-1),
	pt{},
	pt{3, 4},
	[0]int{},
	struct{}{},
	named{1},
	named(nil),
	[]byte("abc"),
	iptree.Pair{},
	domaintree.Pair{Key: "x", Value: nil},
	numtree.Node64{Leaf: true, Value: "n64"},
	[]interface{}{nil, wvN64},
	&net.IPNet{IP: net.IP{1, 2, 3, 4}, Mask: net.CIDRMask(8, 32)},
	reflect.ValueOf(3),
	int64(-1),
	uint8(0),
	complex(1, 2),
	unsafe.Pointer(nil),
	wvFunc,
	wvFunc2,
	"a\"b\\c\n\x00\xff",
	stringer{},
	goStringer{},
	panicky{},
	(*int)(nil),
	(*string)(nil),
	(*net.IPNet)(nil),
	net.IP(nil),
	net.IPv4(1, 2, 3, 4),
	[]string(nil),
	[]string{},
	[]interface{}(nil),
	map[string]interface{}(nil),
	(*interface{})(nil),
	(*error)(nil),
	(chan struct{})(nil),
	(<-chan numtree.Node32)(nil),
	(*iptree.Tree)(nil),
	(*iptree.Pair)(nil),
	&iptree.Pair{},
	strtree.Pair{},
	dltree.Pair{Key: "k", Value: 1},
	domain.Name{},
	(*domain.Name)(nil),
	uint64(1) << 63,
	math.MinInt64,
	int32(0),
	float32(0),
	0.0,
	math.Copysign(0, -1),
	'\x00',
	time.Duration(0),
	time.Time{},
	interface{}(nil),
	[3]interface{}{nil, 1, "x"},
	[1]func(){nil},
	struct{ F func() }{},
	struct{ error }{nil},
	context.Background(),
	sync.Mutex{},
	&sync.Mutex{},
	reflect.TypeOf(0),
	reflect.Value{},
	uintptr(0),
	json.Number(""),
	json.RawMessage(nil),
}

// growValues gives the radix trees used as values more than one node. Initialisers call nothing of the
// library, so that the first cases of a C25 process find it untouched.
func growValues() {
	*wvN64 = *(*numtree.Node64)(nil).Insert(0, 0, "n64").Insert(1<<63, 1, "n64b")
	*wvN32 = *(*numtree.Node32)(nil).Insert(0, 0, "n32")
}

type stringer struct{}

func (stringer) String() string { return "S" }

type goStringer struct{}

func (goStringer) GoString() string { return "G\"S\"" }

// panicky panics when compared or formatted by user methods: the trees must not do either in lookups.
type panicky struct{ f func() }

func (panicky) Error() string { panic("value interpreted") }

// same reports whether a and b are the very same value: same dynamic type and identical contents by
// reference for reference kinds.
func same(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch ta.Kind() {
	case reflect.Slice:
		return va.Pointer() == vb.Pointer() && va.Len() == vb.Len() && va.Cap() == vb.Cap() && va.IsNil() == vb.IsNil()
	case reflect.Map, reflect.Func, reflect.Chan, reflect.Ptr, reflect.UnsafePointer:
		return va.Pointer() == vb.Pointer()
	case reflect.Float64:
		return math.Float64bits(va.Float()) == math.Float64bits(vb.Float())
	case reflect.Struct:
		if ta.Comparable() {
			return safeEq(a, b)
		}
		for i := 0; i < va.NumField(); i++ {
			if !va.Type().Field(i).IsExported() {
				continue
			}
			if !same(va.Field(i).Interface(), vb.Field(i).Interface()) {
				return false
			}
		}
		return true
	}
	return safeEq(a, b)
}

func safeEq(a, b interface{}) (eq bool) {
	defer func() {
		if recover() != nil {
			eq = true // same type, uncomparable dynamic contents: nothing more to compare
		}
	}()
	return a == b
}

// val gives the concrete value for a token under a value mode: "" plain integers with a few odd low
// tokens, "weird" the table, "u8".."u64" fixed-width numbers.
func val(mode string, tok int) interface{} {
	switch mode {
	case "weird":
		return weirdTable[tok%len(weirdTable)]
	case "u8":
		return uint8(uval(tok, 8))
	case "u16":
		return uint16(uval(tok, 16))
	case "u32":
		return uint32(uval(tok, 32))
	case "u64":
		return uval(tok, 64)
	case "str":
		return strVals[tok%len(strVals)]
	}
	// The low tokens, which histories use now and then, stand for values a tree may mistake for
	// "no value" or for its own nodes.
	switch tok {
	case 3:
		return false
	case 4:
		return wvN64
	case 5:
		return wvSlice
	case 6:
		return (*pt)(nil)
	case 7:
		return nil
	}
	if tok >= rawTok {
		return int(tokNum(tok))
	}
	return tok
}

var strVals = []interface{}{"", "v", "a\"b", "\\", "\n", "\x00", "\xff\xfe", "] [", "\" v: \"", "->", "}\n", "N0 -> { N1 N2 }", nil, "é", "`", "%q %d", []string{"a", "\""}, map[string]int{"\"": 1}, pt{1, 2}, 3.5}

func show(v interface{}) (s string) {
	defer func() {
		if recover() != nil {
			s = fmt.Sprintf("(%T)", v)
		}
	}()
	if _, ok := v.(panicky); ok {
		return "panicky{}"
	}
	switch reflect.ValueOf(v).Kind() {
	case reflect.Ptr, reflect.Func, reflect.Map, reflect.Slice, reflect.Chan:
		return fmt.Sprintf("%T@%x", v, reflect.ValueOf(v).Pointer())
	}
	return fmt.Sprintf("%#v", v)
}
