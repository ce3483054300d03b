package main

import (
	"math"
	"math/bits"
	"strconv"

	"github.com/myyrakle/gost"
)

// Elements of every primitive type, spread over the type's whole range, with
// its least and greatest values and pairs of neighbours.

type anyInt interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

const spreadBy = 0x9E3779B97F4A7C15

// inverse of an odd number modulo 2^64.
func inverse(a uint64) uint64 {
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

// scatter is a bijection of the numbers of w bits: neighbours 2k and 2k+1 stay
// together, and small numbers include 0, the extremes and what lies beside them.
type scatter struct {
	w   uint
	swp [][2]uint64
}

func newScatter(w uint, signed bool) *scatter {
	s := &scatter{w: w}
	ones := s.mask(math.MaxUint64)
	want := []uint64{0, 1, ones, ones - 1}
	if signed {
		top := uint64(1) << (w - 1)
		want = []uint64{0, 1, ones, top, top - 1}
	}
	for i, x := range want {
		s.swp = append(s.swp, [2]uint64{uint64(i), s.back(x)})
	}
	return s
}

func (s *scatter) mask(x uint64) uint64 { return x & (math.MaxUint64 >> (64 - s.w)) }

func (s *scatter) fwd(v uint64) uint64 {
	for _, p := range s.swp {
		if v == p[0] {
			v = p[1]
		} else if v == p[1] {
			v = p[0]
		}
	}
	return s.mask(s.mask(v>>1*spreadBy)<<1 | v&1)
}

func (s *scatter) back(x uint64) uint64 {
	h := (x >> 1) * inverse(spreadBy) & (math.MaxUint64 >> (65 - s.w))
	v := h<<1 | x&1
	for i := len(s.swp) - 1; i >= 0; i-- {
		p := s.swp[i]
		if v == p[0] {
			v = p[1]
		} else if v == p[1] {
			v = p[0]
		}
	}
	return v
}

func natural[T anyInt | ~float32 | ~float64](mk func(int64) T) func(a, b int64) int {
	return func(a, b int64) int {
		switch x, y := mk(a), mk(b); {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	}
}

func wideInt[T anyInt](name string, w uint, signed bool) *elems[T] {
	s := newScatter(w, signed)
	mk := func(v int64) T { return T(s.fwd(s.mask(uint64(v)))) }
	e := &elems[T]{name: name, mk: mk, cmp: natural(mk),
		num: func(x T) int64 { return int64(s.back(s.mask(uint64(x)))) },
		str: func(v int64) string {
			if signed {
				return strconv.FormatInt(int64(mk(v)), 10)
			}
			return strconv.FormatUint(uint64(mk(v)), 10)
		}}
	e.zero = e.num(0)
	if w < 32 {
		e.lim = 1 << w
	}
	return e
}

// Floating-point numbers: whole multiples of a power of two, positive and negative.
func wideFloat[T ~float32 | ~float64](name string, w uint, unit T, bits int) *elems[T] {
	s := newScatter(w, true)
	mk := func(v int64) T { return T(int64(s.fwd(s.mask(uint64(v)))<<(64-w))>>(64-w)) * unit }
	e := &elems[T]{name: name, mk: mk, cmp: natural(mk), lim: 1 << w,
		num: func(x T) int64 { return int64(s.back(s.mask(uint64(int64(x / unit))))) },
		str: func(v int64) string { return strconv.FormatFloat(float64(mk(v)), 'f', -1, bits) }}
	e.zero = e.num(0)
	return e
}

var elBool = &elems[gost.Bool]{name: "Bool", zero: 0, lim: 2,
	mk: func(v int64) gost.Bool { return v != 0 },
	num: func(x gost.Bool) int64 {
		if x {
			return 1
		}
		return 0
	},
	cmp: sgn,
	str: func(v int64) string { return strconv.FormatBool(v != 0) }}

// Integers of 128 bits come from a table: they are only converted, never
// calculated with.
func table128[T comparable](name string, mk func(x uint64, neg bool) T, signed bool) *elems[T] {
	s := newScatter(64, signed)
	const n = 2048
	var ts [n]T
	var val [n]uint64
	code := map[T]int64{}
	sg := func(v int64) bool { return signed && v%4 != 1 && int64(val[v]) < 0 }
	for i := range ts {
		val[i] = s.fwd(uint64(i))
		ts[i] = mk(val[i], sg(int64(i)))
		code[ts[i]] = int64(i)
	}
	return &elems[T]{name: name, zero: code[ts[0]], lim: n, noClone: true,
		mk: func(v int64) T { return ts[v%n] },
		num: func(x T) int64 {
			if c, ok := code[x]; ok {
				return c
			}
			return -1
		},
		cmp: func(a, b int64) int {
			if sg(a) != sg(b) {
				if sg(a) {
					return -1
				}
				return 1
			}
			_, less := bits.Sub64(val[a], val[b], 0)
			if val[a] == val[b] {
				return 0
			}
			return 1 - 2*int(less)
		},
		str: func(v int64) string {
			if v < 0 || v >= n {
				return "?"
			}
			if sg(v) {
				return strconv.FormatInt(int64(val[v]), 10)
			}
			return strconv.FormatUint(val[v], 10)
		}}
}

// Texts with all kinds of bytes; every prefix makes another family.
var textHeads = []string{"s", "", "é", "{}", "\xff", " ", "世", "\x00", "%d", "S", "ss", "\"", ",", "-"}

var elText = func() *elems[gost.String] {
	mk := func(v int64) gost.String {
		if v == 0 {
			return ""
		}
		n := int64(len(textHeads))
		return gost.String(textHeads[v%n] + strconv.FormatInt(v/n, 10))
	}
	back := map[gost.String]int64{}
	for v := int64(0); v < 1<<13; v++ {
		back[mk(v)] = v
	}
	return &elems[gost.String]{name: "text", zero: 0, lim: 1 << 13, mk: mk,
		num: func(x gost.String) int64 {
			if v, ok := back[x]; ok {
				return v
			}
			return -1
		},
		cmp: func(a, b int64) int {
			switch x, y := string(mk(a)), string(mk(b)); {
			case x < y:
				return -1
			case x > y:
				return 1
			}
			return 0
		},
		str: func(v int64) string {
			if v < 0 {
				return "?"
			}
			return string(mk(v))
		}}
}()

var (
	elI8    = wideInt[gost.I8]("I8", 8, true)
	elI16   = wideInt[gost.I16]("I16", 16, true)
	elWide  = wideInt[gost.I32]("wide I32", 32, true)
	elI64   = wideInt[gost.I64]("I64", 64, true)
	elISize = wideInt[gost.ISize]("ISize", bits.UintSize, true)
	elU8    = wideInt[gost.U8]("U8", 8, false)
	elU16   = wideInt[gost.U16]("U16", 16, false)
	elU32   = wideInt[gost.U32]("U32", 32, false)
	elU64   = wideInt[gost.U64]("U64", 64, false)
	elUSize = wideInt[gost.USize]("USize", bits.UintSize, false)
	elByte  = wideInt[gost.Byte]("Byte", 8, false)
	elChar  = wideInt[gost.Char]("Char", 32, true)
	elF32   = wideFloat[gost.F32]("F32", 16, 0x1p-6, 32)
	elF64   = wideFloat[gost.F64]("F64", 32, 0x1p-20, 64)
	elI128  = table128("I128", func(x uint64, neg bool) gost.I128 {
		if neg {
			return gost.I128_FromI64(gost.I64(x))
		}
		return gost.I128_FromU64(gost.U64(x))
	}, true)
	elU128 = table128("U128", func(x uint64, _ bool) gost.U128 { return gost.U128_FromU64(gost.U64(x)) }, false)
)

func either[T comparable](e *elems[T]) func(r *Rand) (any, string) {
	return func(r *Rand) (any, string) {
		v := e.code(int64(r.N(2000)))
		return e.mk(v), e.str(v)
	}
}

var anyElems = []func(r *Rand) (any, string){either(elI8), either(elI16), either(elWide), either(elI64), either(elISize),
	either(elU8), either(elU16), either(elU32), either(elU64), either(elUSize), either(elByte), either(elChar),
	either(elF32), either(elF64), either(elBool), either(elI128), either(elU128), either(elText)}

// anyElem is a value of some primitive type and its text.
func anyElem(r *Rand) (any, string) { return anyElems[r.N(len(anyElems))](r) }
