package main

import (
	"fmt"
	"strings"

	"github.com/myyrakle/gost"
)

// P21: iterators. Every collection keeps its model from P15 to P19; here its
// iterators are taken apart, and several threads use their own iterators over
// one collection that nobody changes.

// chainSrc runs one chain over a fresh iterator.
type chainSrc struct {
	name string
	run  func(x *cx, op Op, what string)
}

// itC adds the operation "chain" to a collection.
type itC struct {
	coll
	srcs []chainSrc
}

func (c *itC) readOnly(k string) bool { return k == "chain" }

func (c *itC) kinds() []string {
	ks := []string{"chain", "chain", "chain", "chain", "chain", "chain", "chain", "chain", "chain", "chain", "chain", "chain", "chain", "chain", "chain", "chain"}
	for _, k := range c.coll.kinds() {
		if !c.coll.readOnly(k) {
			ks = append(ks, k)
		}
	}
	return ks
}

func (c *itC) do(x *cx, op Op, other coll) coll {
	if op.K != "chain" {
		var o coll
		if w, ok := other.(*itC); ok {
			o = w.coll
		}
		c.coll.do(x, op, o)
		return nil
	}
	s := c.srcs[int(op.a(4))%len(c.srcs)]
	s.run(x, op, s.name)
	c.verify(x, "after using "+s.name)
	return nil
}

// el converts the items of an iterator.
type el[T any] struct {
	num func(T) int64
	mk  func(int64) T
	str func(int64) string
}

func elOf[T comparable](e *elems[T]) el[T] { return el[T]{e.num, e.mk, e.str} }

const pairBase = 200000

func elPair[K comparable, V comparable](ek *elems[K], ev *elems[V]) el[gost.Pair[K, V]] {
	return el[gost.Pair[K, V]]{
		num: func(p gost.Pair[K, V]) int64 { return ek.num(p.Key)*pairBase + ev.num(p.Value) },
		mk: func(v int64) gost.Pair[K, V] {
			return gost.Pair[K, V]{Key: ek.mk(v / pairBase), Value: ev.mk(v % pairBase)}
		},
		str: func(v int64) string { return ek.str(v/pairBase) + ":" + ev.str(v%pairBase) },
	}
}

func (e el[T]) lazy(vs []int64) fmt.Stringer {
	return lazily(func() string { return e.list(vs) })
}

func (e el[T]) list(vs []int64) string {
	var s []string
	for i, v := range vs {
		if i == 30 {
			s = append(s, fmt.Sprintf("... (%d)", len(vs)))
			break
		}
		s = append(s, e.str(v))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func mapCode(v, m int64) int64 {
	switch m % 3 {
	case 0:
		return (v*7 + 3) % pairBase
	case 1:
		return v / 2
	}
	return 5
}

// without takes v out of the bag, rearranging it.
func without(bag []int64, v int64) ([]int64, bool) {
	for i, w := range bag {
		if w == v {
			bag[0], bag[i] = v, bag[0]
			return bag[1:], true
		}
	}
	return bag, false
}

// chain exercises it, an iterator over the items want (in that order if fixed).
func chain[T any](x *cx, op Op, what string, e el[T], fixed bool, mk func() gost.Iterator[T], want []int64) {
	r := NewRand(uint64(op.a(0))*1000003 + uint64(op.a(1)))
	rest := append([]int64(nil), want...)
	trace := what + " over " + e.list(want)
	step := func(it gost.Iterator[T], rest []int64, name string) []int64 {
		o := it.Next()
		if len(rest) == 0 {
			x.check(bool(o.IsNone()), "content", "%s: %s gave an element after the last one", trace, name)
			return rest
		}
		if o.IsNone() {
			x.check(false, "content", "%s: %s ended with %s left", trace, name, e.lazy(rest))
		}
		v := e.num(o.Unwrap())
		if fixed {
			x.check(v == rest[0], "content", "%s: %s gave %s, want %s", trace, name, e.str(v), e.str(rest[0]))
			return rest[1:]
		}
		left, ok := without(rest, v)
		x.check(ok, "content", "%s: %s gave %s, which is not in what is left, %s", trace, name, e.str(v), e.lazy(rest))
		return left
	}
	same := func(got, want []int64, name string) {
		ok := sameList(got, want)
		if !fixed {
			ok = sameBag(got, want)
		}
		x.check(ok, "content", "%s: %s gave %s, want %s", trace, name, e.lazy(got), e.lazy(want))
	}
	nums := func(ts []T) []int64 {
		var o []int64
		for _, t := range ts {
			o = append(o, e.num(t))
		}
		return o
	}

	if r.P(1, 6) { // two iterators side by side
		a, b := mk(), mk()
		ra, rb := rest, append([]int64(nil), want...)
		for i := 0; i < 2*len(want)+4; i++ {
			if r.P(1, 2) {
				ra = step(a, ra, "the first iterator")
			} else {
				rb = step(b, rb, "the second iterator")
			}
		}
		return
	}
	it := mk()
	type source struct {
		it   gost.Iterator[T]
		rest []int64
		name string
	}
	var used []source // iterators that adaptors were made from
	use := func() {
		if r.P(1, 2) {
			used = append(used, source{it, append([]int64(nil), rest...), trace})
		}
	}
	x.call(func() {
		for stage, n := 0, r.Pick(0, 1, 1, 2, 3); ; stage++ {
			k := 0
			if r.P(2, 3) {
				k = r.N(len(rest) + 2)
				if r.P(1, 2) {
					k = r.N(3)
				}
			}
			for i := 0; i < k; i++ {
				rest = step(it, rest, "Next")
			}
			trace += fmt.Sprintf("; %d taken", k)
			if stage == n {
				break
			}
			m := int64(r.N(100))
			use()
			switch r.N(3) {
			case 0:
				trace += fmt.Sprintf("; Map %d", m%3)
				it = it.Map(func(t T) T { x.callback(); return e.mk(mapCode(e.num(t), m)) })
				var o []int64
				for _, v := range rest {
					o = append(o, mapCode(v, m))
				}
				rest = o
			case 1:
				trace += fmt.Sprintf("; Filter %d", m%5)
				it = it.Filter(func(t T) gost.Bool { x.callback(); return gost.Bool(pred(e.num(t), m)) })
				var o []int64
				for _, v := range rest {
					if pred(v, m) {
						o = append(o, v)
					}
				}
				rest = o
			case 2:
				trace += "; Rev"
				it = it.Rev()
				o := append([]int64(nil), rest...)
				for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
					o[i], o[j] = o[j], o[i]
				}
				rest = o
			}
		}
		last := r.N(4)
		if last > 0 {
			use()
		}
		switch last {
		case 0:
			for i, n := 0, len(rest)+2; i < n; i++ {
				rest = step(it, rest, "Next")
			}
		case 1:
			v := it.CollectToVec()
			same(nums(v.AsSlice()), rest, "CollectToVec")
			x.check(int(v.Len()) == len(rest), "length", "%s: the collected vector has length %d", trace, v.Len())
			v.Push(e.mk(3)) // the result is an object of its own
			v.Pop()
			if v.Len() > 0 {
				v.SetUnchecked(0, e.mk(4))
			}
		case 2:
			l := it.CollectToLinkedList()
			x.check(int(l.Len()) == len(rest), "length", "%s: the collected list has length %d", trace, l.Len())
			var got []int64
			for !bool(l.IsEmpty()) {
				got = append(got, e.num(l.PopFront().Unwrap()))
			}
			same(got, rest, "CollectToLinkedList")
		case 3:
			var seen []int64
			acc := int64(1)
			next := func(v int64) int64 { return (acc*31 + v) % pairBase }
			got := it.Fold(e.mk(1), func(a, t T) T {
				x.callback()
				x.check(e.num(a) == acc, "value", "%s: Fold passed %s as the accumulator, want %s", trace, e.str(e.num(a)), e.str(acc))
				v := e.num(t)
				seen = append(seen, v)
				acc = next(v)
				return e.mk(acc)
			})
			same(seen, rest, "Fold")
			x.check(e.num(got) == acc, "value", "%s: Fold returned %s, want %s", trace, e.str(e.num(got)), e.str(acc))
		}
		// An adaptor may use up what it was made from, or leave it alone, but
		// it cannot make it give anything else
		for _, u := range used {
			var got []int64
			for i := 0; i <= len(u.rest); i++ {
				o := u.it.Next()
				if o.IsNone() {
					break
				}
				got = append(got, e.num(o.Unwrap()))
			}
			ok := len(got) <= len(u.rest)
			if ok && fixed {
				ok = sameList(got, u.rest[len(u.rest)-len(got):])
			}
			left := u.rest
			for _, v := range got {
				if ok {
					left, ok = without(left, v)
				}
			}
			x.check(ok, "content", "%s: the iterator of %q, which an adaptor was made from, then gave %s, and had %s left", trace, u.name, e.lazy(got), e.lazy(u.rest))
		}
	})
}

func withChains(f collFactory, srcs func(c coll) []chainSrc) collFactory {
	return collFactory{f.name, func(x *cx, v int64) coll {
		c := f.mk(x, v)
		return &itC{c, srcs(c)}
	}}
}

func vecIt[T comparable](e *elems[T]) collFactory {
	return withChains(mkVec(e), func(c coll) []chainSrc {
		v := c.(*vecC[T])
		return []chainSrc{{"Vec.IntoIter", func(x *cx, op Op, w string) { chain(x, op, w, elOf(e), true, v.v.IntoIter, v.m) }}}
	})
}

func deqIt[T comparable](e *elems[T]) collFactory {
	return withChains(mkDeq(e), func(c coll) []chainSrc {
		v := c.(*deqC[T])
		return []chainSrc{{"VecDeque.IntoIter", func(x *cx, op Op, w string) {
			chain(x, op, w, elOf(e), true, func() gost.Iterator[T] { return v.v.IntoIter() }, v.m)
		}}}
	})
}

func listIt[T comparable](e *elems[T]) collFactory {
	return withChains(mkList(e), func(c coll) []chainSrc {
		v := c.(*listC[T])
		return []chainSrc{{"LinkedList.IntoIter", func(x *cx, op Op, w string) {
			chain(x, op, w, elOf(e), true, func() gost.Iterator[T] { return v.v.IntoIter() }, v.m)
		}}}
	})
}

func pairCodes(ks, vs []int64) []int64 {
	var o []int64
	for i := range ks {
		o = append(o, ks[i]*pairBase+vs[i])
	}
	return o
}

func bmapIt[K ordered[K], V comparable](ek *elems[K], ev *elems[V]) collFactory {
	return withChains(mkBMap(ek, ev), func(c coll) []chainSrc {
		v := c.(*bmapC[K, V])
		return []chainSrc{
			{"BTreeMap.IntoIter", func(x *cx, op Op, w string) {
				chain(x, op, w, elPair(ek, ev), true, func() gost.Iterator[gost.Pair[K, V]] { return v.v.IntoIter() }, pairCodes(v.ks, v.vs))
			}},
			{"BTreeMap.Keys", func(x *cx, op Op, w string) {
				chain(x, op, w, elOf(ek), true, func() gost.Iterator[K] { return v.v.Keys() }, v.ks)
			}},
			{"BTreeMap.Values", func(x *cx, op Op, w string) {
				chain(x, op, w, elOf(ev), true, func() gost.Iterator[V] { return v.v.Values() }, v.vs)
			}},
		}
	})
}

func bsetIt[K ordered[K]](e *elems[K]) collFactory {
	return withChains(mkBSet(e), func(c coll) []chainSrc {
		v := c.(*bsetC[K])
		return []chainSrc{{"BTreeSet.IntoIter", func(x *cx, op Op, w string) {
			chain(x, op, w, elOf(e), true, func() gost.Iterator[K] { return v.v.IntoIter() }, v.ks)
		}}}
	})
}

func hmapIt[K comparable, V comparable](ek *elems[K], ev *elems[V]) collFactory {
	return withChains(mkHMap(ek, ev), func(c coll) []chainSrc {
		v := c.(*hmapC[K, V])
		vals := func() (o []int64) {
			for _, k := range keysOf(v.m) {
				o = append(o, v.m[k])
			}
			return
		}
		return []chainSrc{
			{"HashMap.IntoIter", func(x *cx, op Op, w string) {
				chain(x, op, w, elPair(ek, ev), false, func() gost.Iterator[gost.Pair[K, V]] { return v.v.IntoIter() }, pairCodes(keysOf(v.m), vals()))
			}},
			{"HashMap.Keys", func(x *cx, op Op, w string) {
				chain(x, op, w, elOf(ek), false, func() gost.Iterator[K] { return v.v.Keys() }, keysOf(v.m))
			}},
			{"HashMap.Values", func(x *cx, op Op, w string) {
				chain(x, op, w, elOf(ev), false, func() gost.Iterator[V] { return v.v.Values() }, vals())
			}},
		}
	})
}

func hsetIt[K comparable](e *elems[K]) collFactory {
	return withChains(mkHSet(e), func(c coll) []chainSrc {
		v := c.(*hsetC[K])
		return []chainSrc{{"HashSet.IntoIter", func(x *cx, op Op, w string) {
			chain(x, op, w, elOf(e), false, func() gost.Iterator[K] { return v.v.IntoIter() }, keysOf(v.m))
		}}}
	})
}

func init() {
	regColl("P21", false, []collFactory{vecIt(elI32), deqIt(elI32), listIt(elStr), bmapIt(elI32, elStr), bsetIt(elStr), hmapIt(elStr, elI32), hsetIt(elI32),
		vecIt(elRec), deqIt(elRec), listIt(elI32), bmapIt(elStr, elRec), bsetIt(elI32), hmapIt(elRec, elStr), hsetIt(elRec)},
		[]collFactory{vecIt(elI64), deqIt(elU64), listIt(elF64), bmapIt(elF64, elU32), bsetIt(elChar), hmapIt(elU64, elI64), hsetIt(elF64)})
}
