package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/myyrakle/gost"
)

// ---- P17: Vec ----

type vecC[T comparable] struct {
	e *elems[T]
	v gost.Vec[T]
	m []int64
}

func (c *vecC[T]) size() int { return len(c.m) }

func (c *vecC[T]) readOnly(k string) bool {
	switch k {
	case "get", "len", "contains", "bsearch", "slice", "clone", "eq", "display", "iter":
		return true
	}
	return false
}

func (c *vecC[T]) kinds() []string {
	return []string{"push", "push", "push", "pop", "append", "clear", "insert", "insert", "retain", "dedup", "dedupby", "get", "len", "contains", "bsearch",
		"slice", "clone", "eq", "display", "iter", "set", "set", "swap", "reverse", "fill", "fillwith", "sort", "sortby", "sortun", "sortunby", "reserve", "new"}
}

func (c *vecC[T]) verify(x *cx, what string) {
	x.check(int(c.v.Len()) == len(c.m) && bool(c.v.IsEmpty()) == (len(c.m) == 0), "length", "%s: the vector has length %d (empty=%v), want %d: %s", what, c.v.Len(), c.v.IsEmpty(), len(c.m), c.e.lazy(c.m))
	x.check(c.v.Capacity() >= c.v.Len(), "length", "%s: capacity %d is below length %d", what, c.v.Capacity(), c.v.Len())
	got := c.e.nums(c.v.AsSlice())
	x.check(sameList(got, c.m), "content", "%s: the vector holds %s, want %s", what, c.e.lazy(got), c.e.lazy(c.m))
}

func (c *vecC[T]) do(x *cx, op Op, other coll) (out coll) {
	op = c.e.fit(op)
	e, a, b := c.e, op.a(0), op.a(1)
	what := fmt.Sprintf("%s(%s,%s) on %s", op.K, e.str(a), e.str(b), e.list(c.m))
	o, _ := other.(*vecC[T])
	idx := func(v int64) gost.USize { return gost.USize(v) % gost.USize(len(c.m)+2) }
	opt := func(got gost.Option[T], v int64, ok bool) {
		x.check(bool(got.IsSome()) == ok && (!ok || e.is(got.Unwrap(), v)), "value", "%s returned %s, want %s", what, optStr(e, got), wantStr(e, v, ok))
	}
	if c.e.lacks(op) {
		return
	}
	switch op.K {
	case "new":
		switch a % 4 {
		case 0:
			c.v, c.m = gost.VecNew[T](), nil
		case 1:
			c.v, c.m = gost.VecWithCapacity[T](gost.USize(b%20)), nil
		case 2:
			c.v, c.m = gost.VecWithLen[T](gost.USize(b%20)), nil
			for i := int64(0); i < b%20; i++ {
				c.m = append(c.m, e.zero)
			}
		case 3:
			c.v, c.m = gost.Vec[T]{}, nil
		}
	case "bulk":
		for _, v := range e.bulk(op) {
			c.v.Push(e.mk(v))
			c.m = append(c.m, v)
		}
	case "push":
		c.v.Push(e.mk(a))
		c.m = append(c.m, a)
	case "drain":
		for i := a; i > 0 && len(c.m) > 0; i-- {
			opt(c.v.Pop(), c.m[len(c.m)-1], true)
			c.m = c.m[:len(c.m)-1]
		}
	case "pop":
		got := c.v.Pop()
		if n := len(c.m); n > 0 {
			opt(got, c.m[n-1], true)
			c.m = c.m[:n-1]
		} else {
			opt(got, 0, false)
		}
	case "append":
		if o == nil {
			break
		}
		c.v.Append(&o.v)
		c.m = append(c.m, o.m...)
		o.m = nil
		o.verify(x, "the other vector after "+what)
	case "clear":
		c.v.Clear()
		c.m = nil
	case "insert":
		i := gost.USize(b) % gost.USize(len(c.m)+1)
		c.v.Insert(i, e.mk(a))
		c.m = append(c.m, 0)
		copy(c.m[i+1:], c.m[i:])
		c.m[i] = a
	case "retain":
		var calls []int64
		if !x.call(func() {
			c.v.Retain(func(t T) gost.Bool {
				x.callback()
				calls = append(calls, e.num(t))
				return gost.Bool(pred(e.num(t), a))
			})
		}) {
			x.check(sameList(calls, c.m), "callback", "%s called its predicate on %s", what, e.lazy(calls))
			var m []int64
			for _, v := range c.m {
				if pred(v, a) {
					m = append(m, v)
				}
			}
			c.m = m
		}
	case "dedup":
		c.v.Dedup()
		c.m = dedup(c.m, 0)
	case "dedupby":
		if !x.call(func() {
			c.v.DedupByKey(func(t T) any { x.callback(); return dedupKey(e.num(t), a) })
		}) {
			c.m = dedup(c.m, a)
		}
	case "get":
		i := idx(a)
		in := int(i) < len(c.m)
		v := int64(0)
		if in {
			v = c.m[i]
			got := c.v.GetUnchecked(i)
			x.check(e.is(got, v), "value", "GetUnchecked(%d) on %s returned %s", i, e.lazy(c.m), e.str(e.num(got)))
		}
		opt(c.v.Get(i), v, in)
	case "len":
		x.check(int(c.v.Len()) == len(c.m) && bool(c.v.IsEmpty()) == (len(c.m) == 0), "length", "%s: length %d, empty=%v", what, c.v.Len(), c.v.IsEmpty())
	case "set":
		i := idx(a)
		in := int(i) < len(c.m)
		if in && b%2 == 0 {
			c.v.SetUnchecked(i, e.mk(b))
			c.m[i] = b
			break
		}
		opt(c.v.Set(i, e.mk(b)), b, !in)
		if in {
			c.m[i] = b
		}
	case "swap":
		if n := int64(len(c.m)); n > 0 {
			c.v.Swap(gost.USize(a%n), gost.USize(b%n))
			c.m[a%n], c.m[b%n] = c.m[b%n], c.m[a%n]
		}
	case "reverse":
		c.v.Reverse()
		for i, j := 0, len(c.m)-1; i < j; i, j = i+1, j-1 {
			c.m[i], c.m[j] = c.m[j], c.m[i]
		}
	case "contains":
		got := bool(c.v.Contains(e.mk(a)))
		x.check(got == has(c.m, a), "value", "Contains(%s) on %s returned %v", e.str(a), e.lazy(c.m), got)
	case "bsearch":
		cmp := e.cmp
		var got gost.Option[gost.USize]
		if b%2 == 0 {
			if !isSorted(c.m, cmp) {
				break
			}
			got = c.v.BinarySearch(e.mk(a))
		} else {
			cmp = orderBy(e, b)
			if !isSorted(c.m, cmp) {
				break
			}
			if x.call(func() {
				got = c.v.BinarySearchBy(func(t T) gost.Ordering { x.callback(); return toOrd(cmp(e.num(t), a)) })
			}) {
				break
			}
		}
		checkSearch(x, e, what, c.m, a, cmp, got)
	case "fill":
		value := e.mk(a)
		c.v.Fill(value)
		for i := range c.m {
			c.m[i] = a
		}
		e.copies(x, what, c.v.AsSlice())
	case "fillwith":
		fillWith(x, e, what, &c.m, a, func(f func() T) { c.v.FillWith(f) }, func() []T { return c.v.AsSlice() })
	case "sort":
		sort.SliceStable(c.m, func(i, j int) bool { return e.cmp(c.m[i], c.m[j]) < 0 })
		c.v.Sort()
	case "sortun":
		c.v.SortUnstable()
		c.m = checkUnstable(x, e, what, c.m, e.nums(c.v.AsSlice()), e.cmp)
	case "sortby":
		cmp := orderBy(e, a)
		if x.call(func() {
			c.v.SortBy(func(s, t T) gost.Ordering { x.callback(); return toOrd(cmp(e.num(s), e.num(t))) })
		}) {
			c.m = checkBag(x, e, what, c.m, e.nums(c.v.AsSlice()))
		} else {
			sort.SliceStable(c.m, func(i, j int) bool { return cmp(c.m[i], c.m[j]) < 0 })
		}
	case "sortunby":
		cmp := orderBy(e, a)
		if x.call(func() {
			c.v.SortUnstableBy(func(s, t T) gost.Ordering { x.callback(); return toOrd(cmp(e.num(s), e.num(t))) })
		}) {
			c.m = checkBag(x, e, what, c.m, e.nums(c.v.AsSlice()))
		} else {
			c.m = checkUnstable(x, e, what, c.m, e.nums(c.v.AsSlice()), cmp)
		}
	case "reserve":
		n := gost.USize(a % 50)
		c.v.Reserve(n)
		x.check(c.v.Capacity() >= c.v.Len()+n, "length", "%s: after Reserve(%d) the capacity is %d", what, n, c.v.Capacity())
	case "slice":
		got := e.nums(c.v.AsSlice())
		x.check(sameList(got, c.m), "content", "%s returned %s", what, e.lazy(got))
	case "clone":
		n := &vecC[T]{e, c.v.Clone(), append([]int64(nil), c.m...)}
		e.apart(x, what, c.v.AsSlice(), n.v.AsSlice())
		out = n
		out.verify(x, "the clone of "+e.list(c.m))
	case "eq":
		if op.a(4)%2 == 0 {
			o = &vecC[T]{e, gost.VecNew[T](), nearly(c.m, op, e.zero)}
			for _, v := range o.m {
				o.v.Push(e.mk(v))
			}
		}
		if o != nil {
			want := sameList(c.m, o.m)
			x.check(bool(c.v.Eq(o.v)) == want && bool(o.v.Eq(c.v)) == want && bool(c.v.Eq(*c.v.AsRef())), "value", "Eq of %s and %s returned %v", e.lazy(c.m), e.lazy(o.m), !want)
		}
	case "display":
		if len(c.m) > displayBelow {
			break
		}
		checkDisplay(x, e, "Vec", textOf(b, c.v), c.m)
	case "iter":
		got := e.nums(drain(x, c.v.IntoIter(), len(c.m)))
		x.check(sameList(got, c.m), "content", "iterating %s gave %s", e.lazy(c.m), e.lazy(got))
	}
	c.verify(x, "after "+what)
	return out
}

func has(m []int64, v int64) bool {
	for _, w := range m {
		if w == v {
			return true
		}
	}
	return false
}

func dedup(m []int64, key int64) []int64 {
	var o []int64
	for i, v := range m {
		if i == 0 || dedupKey(v, key) != dedupKey(m[i-1], key) {
			o = append(o, v)
		}
	}
	return o
}

// drain takes everything from an iterator, and a little more than that.
func drain[T any](x *cx, it gost.Iterator[T], max int) []T {
	var o []T
	for {
		n := it.Next()
		if bool(n.IsNone()) {
			break
		}
		o = append(o, n.Unwrap())
		x.check(len(o) <= max, "content", "an iterator over %d elements gave more than that", max)
	}
	x.check(bool(it.Next().IsNone()), "content", "an exhausted iterator gave another element")
	return o
}

func checkSearch[T comparable](x *cx, e *elems[T], what string, m []int64, v int64, cmp func(a, b int64) int, got gost.Option[gost.USize]) {
	found := false
	for _, w := range m {
		found = found || cmp(w, v) == 0
	}
	if bool(got.IsNone()) {
		x.check(!found, "value", "%s: a binary search did not find %s", what, e.str(v))
		return
	}
	i := got.Unwrap()
	x.check(int(i) < len(m) && cmp(m[i], v) == 0, "value", "%s: a binary search for %s returned index %d", what, e.str(v), i)
}

func checkBag[T comparable](x *cx, e *elems[T], what string, m, got []int64) []int64 {
	x.check(sameBag(m, got), "content", "%s: elements were lost or duplicated: %s", what, e.lazy(got))
	return got
}

func checkUnstable[T comparable](x *cx, e *elems[T], what string, m, got []int64, cmp func(a, b int64) int) []int64 {
	x.check(sameBag(m, got) && isSorted(got, cmp), "content", "%s gave %s", what, e.lazy(got))
	return got
}

func fillWith[T comparable](x *cx, e *elems[T], what string, m *[]int64, a int64, fill func(func() T), get func() []T) {
	var made []int64
	stopped := x.call(func() {
		fill(func() T {
			x.callback()
			made = append(made, e.code(a+int64(len(made))))
			return e.mk(made[len(made)-1])
		})
	})
	got := e.nums(get())
	if !stopped {
		x.check(sameList(got, made) && len(made) == len(*m), "content", "%s gave %s from produced %s", what, e.lazy(got), e.lazy(made))
		*m = made
		return
	}
	x.check(len(got) == len(*m), "length", "%s, whose function panicked, changed the length to %d", what, len(got))
	for i, v := range got {
		x.check(v == (*m)[i] || has(made, v), "content", "%s, whose function panicked, put %s at %d", what, e.str(v), i)
	}
	*m = got
}

func checkDisplay[T comparable](x *cx, e *elems[T], name, got string, m []int64) {
	var s []string
	for _, v := range m {
		s = append(s, e.str(v))
	}
	want := name + "[" + strings.Join(s, ", ") + "]"
	x.check(got == want, "value", "it displays as %q, want %q", got, want)
}

// ---- P18: VecDeque ----

type deqC[T comparable] struct {
	e *elems[T]
	v gost.VecDeque[T]
	m []int64
}

func (c *deqC[T]) size() int { return len(c.m) }

func (c *deqC[T]) readOnly(k string) bool {
	switch k {
	case "get", "len", "ends", "contains", "bsearch", "slice", "clone", "eq", "display", "iter":
		return true
	}
	return false
}

func (c *deqC[T]) kinds() []string {
	return []string{"pushb", "pushb", "pushb", "pushf", "pushf", "popb", "popf", "popf", "append", "clear", "retain", "dedup", "get", "len", "ends", "contains", "bsearch",
		"slice", "clone", "eq", "display", "iter", "set", "set", "swap", "fill", "fillwith", "sort", "sortby", "sortun", "sortunby", "reserve", "new"}
}

func (c *deqC[T]) verify(x *cx, what string) {
	x.check(int(c.v.Len()) == len(c.m) && bool(c.v.IsEmpty()) == (len(c.m) == 0), "length", "%s: the deque has length %d (empty=%v), want %d: %s", what, c.v.Len(), c.v.IsEmpty(), len(c.m), c.e.lazy(c.m))
	x.check(c.v.Capacity() >= c.v.Len(), "length", "%s: capacity %d is below length %d", what, c.v.Capacity(), c.v.Len())
	var got []int64
	for i := range c.m {
		g := c.v.Get(gost.USize(i))
		x.check(bool(g.IsSome()), "content", "%s: Get(%d) is None in a deque of %d", what, i, len(c.m))
		got = append(got, c.e.num(g.Unwrap()))
	}
	x.check(sameList(got, c.m), "content", "%s: the deque holds %s, want %s", what, c.e.lazy(got), c.e.lazy(c.m))
}

func (c *deqC[T]) do(x *cx, op Op, other coll) (out coll) {
	op = c.e.fit(op)
	e, a, b := c.e, op.a(0), op.a(1)
	what := fmt.Sprintf("%s(%s,%s) on %s", op.K, e.str(a), e.str(b), e.list(c.m))
	o, _ := other.(*deqC[T])
	idx := func(v int64) gost.USize { return gost.USize(v) % gost.USize(len(c.m)+2) }
	opt := func(got gost.Option[T], v int64, ok bool) {
		x.check(bool(got.IsSome()) == ok && (!ok || e.is(got.Unwrap(), v)), "value", "%s returned %s, want %s", what, optStr(e, got), wantStr(e, v, ok))
	}
	slice := func() []T { return c.v.AsSlice() }
	if c.e.lacks(op) {
		return
	}
	switch op.K {
	case "new":
		switch a % 3 {
		case 0:
			c.v, c.m = gost.VecDequeNew[T](), nil
		case 1:
			c.v, c.m = gost.VecDequeWithCapacity[T](gost.USize(b%20)), nil
			x.check(c.v.Capacity() >= gost.USize(b%20), "length", "VecDequeWithCapacity(%d) has capacity %d", b%20, c.v.Capacity())
		case 2:
			c.v, c.m = gost.VecDequeWithLen[T](gost.USize(b%20)), nil
			for i := int64(0); i < b%20; i++ {
				c.m = append(c.m, e.zero)
			}
		}
	case "bulk":
		for _, v := range e.bulk(op) {
			if op.a(3) == 3 && v%3 == 0 {
				c.v.PushFront(e.mk(v))
				c.m = append([]int64{v}, c.m...)
			} else {
				c.v.PushBack(e.mk(v))
				c.m = append(c.m, v)
			}
		}
	case "drain": // from one end, or round and round
		for i := a; i > 0 && len(c.m) > 0; i-- {
			if op.a(3) == 1 {
				opt(c.v.PopBack(), c.m[len(c.m)-1], true)
				c.m = c.m[:len(c.m)-1]
				continue
			}
			f := c.m[0]
			opt(c.v.PopFront(), f, true)
			c.m = c.m[1:]
			if op.a(3) == 2 {
				c.v.PushBack(e.mk(f))
				c.m = append(c.m, f)
			}
		}
	case "pushb":
		c.v.PushBack(e.mk(a))
		c.m = append(c.m, a)
	case "pushf":
		c.v.PushFront(e.mk(a))
		c.m = append([]int64{a}, c.m...)
	case "popb":
		got := c.v.PopBack()
		if n := len(c.m); n > 0 {
			opt(got, c.m[n-1], true)
			c.m = c.m[:n-1]
		} else {
			opt(got, 0, false)
		}
	case "popf":
		got := c.v.PopFront()
		if len(c.m) > 0 {
			opt(got, c.m[0], true)
			c.m = c.m[1:]
		} else {
			opt(got, 0, false)
		}
	case "ends":
		f, k := c.v.Front(), c.v.Back()
		if n := len(c.m); n > 0 {
			opt(f, c.m[0], true)
			opt(k, c.m[n-1], true)
		} else {
			opt(f, 0, false)
			opt(k, 0, false)
		}
	case "append":
		if o == nil {
			break
		}
		c.v.Append(&o.v)
		c.m = append(c.m, o.m...)
		o.m = nil
		o.verify(x, "the other deque after "+what)
	case "clear":
		c.v.Clear()
		c.m = nil
	case "retain":
		var calls []int64
		if !x.call(func() {
			c.v.Retain(func(t T) gost.Bool {
				x.callback()
				calls = append(calls, e.num(t))
				return gost.Bool(pred(e.num(t), a))
			})
		}) {
			x.check(sameList(calls, c.m), "callback", "%s called its predicate on %s", what, e.lazy(calls))
			var m []int64
			for _, v := range c.m {
				if pred(v, a) {
					m = append(m, v)
				}
			}
			c.m = m
		}
	case "dedup":
		c.v.Dedup(func(t T) any { return e.num(t) })
		c.m = dedup(c.m, 0)
	case "get":
		i := idx(a)
		in := int(i) < len(c.m)
		v := int64(0)
		if in {
			v = c.m[i]
			got := c.v.GetUnchecked(i)
			x.check(e.is(got, v), "value", "GetUnchecked(%d) on %s returned %s", i, e.lazy(c.m), e.str(e.num(got)))
		}
		opt(c.v.Get(i), v, in)
	case "len":
		x.check(int(c.v.Len()) == len(c.m) && bool(c.v.IsEmpty()) == (len(c.m) == 0), "length", "%s: length %d, empty=%v", what, c.v.Len(), c.v.IsEmpty())
	case "set":
		i := idx(a)
		in := int(i) < len(c.m)
		if in && b%2 == 0 {
			c.v.SetUnchecked(i, e.mk(b))
			c.m[i] = b
			break
		}
		opt(c.v.Set(i, e.mk(b)), b, !in)
		if in {
			c.m[i] = b
		}
	case "swap":
		if n := int64(len(c.m)); n > 0 {
			c.v.Swap(gost.USize(a%n), gost.USize(b%n))
			c.m = append([]int64(nil), c.m...)
			c.m[a%n], c.m[b%n] = c.m[b%n], c.m[a%n]
		}
	case "contains":
		got := bool(c.v.Contains(e.mk(a)))
		x.check(got == has(c.m, a), "value", "Contains(%s) on %s returned %v", e.str(a), e.lazy(c.m), got)
	case "bsearch":
		cmp := e.cmp
		var got gost.Option[gost.USize]
		if b%2 == 0 {
			if !isSorted(c.m, cmp) {
				break
			}
			got = c.v.BinarySearch(e.mk(a))
		} else {
			cmp = orderBy(e, b)
			if !isSorted(c.m, cmp) {
				break
			}
			if x.call(func() {
				got = c.v.BinarySearchBy(func(t T) gost.Ordering { x.callback(); return toOrd(cmp(e.num(t), a)) })
			}) {
				break
			}
		}
		checkSearch(x, e, what, c.m, a, cmp, got)
	case "fill":
		value := e.mk(a)
		c.v.Fill(value)
		c.m = append([]int64(nil), c.m...)
		for i := range c.m {
			c.m[i] = a
		}
		if b%2 == 0 {
			e.copies(x, what, slice())
		} else {
			e.copies(x, what, drain(x, c.v.IntoIter(), len(c.m)))
		}
	case "fillwith":
		fillWith(x, e, what, &c.m, a, func(f func() T) { c.v.FillWith(f) }, slice)
	case "sort":
		c.m = append([]int64(nil), c.m...)
		sort.SliceStable(c.m, func(i, j int) bool { return e.cmp(c.m[i], c.m[j]) < 0 })
		c.v.Sort()
	case "sortun":
		c.v.SortUnstable()
		c.m = checkUnstable(x, e, what, c.m, e.nums(c.v.AsSlice()), e.cmp)
	case "sortby":
		cmp := orderBy(e, a)
		if x.call(func() {
			c.v.SortBy(func(s, t T) gost.Ordering { x.callback(); return toOrd(cmp(e.num(s), e.num(t))) })
		}) {
			c.m = checkBag(x, e, what, c.m, e.nums(c.v.AsSlice()))
		} else {
			c.m = append([]int64(nil), c.m...)
			sort.SliceStable(c.m, func(i, j int) bool { return cmp(c.m[i], c.m[j]) < 0 })
		}
	case "sortunby":
		cmp := orderBy(e, a)
		if x.call(func() {
			c.v.SortUnstableBy(func(s, t T) gost.Ordering { x.callback(); return toOrd(cmp(e.num(s), e.num(t))) })
		}) {
			c.m = checkBag(x, e, what, c.m, e.nums(c.v.AsSlice()))
		} else {
			c.m = checkUnstable(x, e, what, c.m, e.nums(c.v.AsSlice()), cmp)
		}
	case "reserve":
		n := gost.USize(a % 50)
		c.v.Reserve(n)
		x.check(c.v.Capacity() >= c.v.Len()+n, "length", "%s: after Reserve(%d) the capacity is %d", what, n, c.v.Capacity())
	case "slice":
		got := e.nums(c.v.AsSlice())
		x.check(sameList(got, c.m), "content", "%s returned %s", what, e.lazy(got))
	case "clone":
		n := &deqC[T]{e, *c.v.Clone(), append([]int64(nil), c.m...)}
		e.apart(x, what, drain(x, c.v.IntoIter(), len(c.m)), drain(x, n.v.IntoIter(), len(c.m)))
		out = n
		out.verify(x, "the clone of "+e.list(c.m))
	case "eq":
		if op.a(4)%2 == 0 {
			o = &deqC[T]{e, gost.VecDequeNew[T](), nearly(c.m, op, e.zero)}
			f := int(b) % (len(o.m) + 1)
			for _, v := range o.m[f:] {
				o.v.PushBack(e.mk(v))
			}
			for i := f - 1; i >= 0; i-- {
				o.v.PushFront(e.mk(o.m[i]))
			}
		}
		if o != nil {
			want := sameList(c.m, o.m)
			x.check(bool(c.v.Eq(o.v)) == want && bool(o.v.Eq(c.v)) == want && bool(c.v.Eq(*c.v.AsRef())), "value", "Eq of %s and %s returned %v", e.lazy(c.m), e.lazy(o.m), !want)
		}
	case "display":
		if len(c.m) > displayBelow {
			break
		}
		checkDisplay(x, e, "VecDeque", textOf(b, c.v), c.m)
	case "iter":
		got := e.nums(drain(x, c.v.IntoIter(), len(c.m)))
		x.check(sameList(got, c.m), "content", "iterating %s gave %s", e.lazy(c.m), e.lazy(got))
	}
	c.verify(x, "after "+what)
	return out
}

// ---- P19: LinkedList ----

type listC[T comparable] struct {
	e *elems[T]
	v gost.LinkedList[T]
	m []int64
}

func (c *listC[T]) size() int { return len(c.m) }

func (c *listC[T]) readOnly(k string) bool {
	switch k {
	case "len", "ends", "clone", "eq", "display", "iter", "rev":
		return true
	}
	return false
}

func (c *listC[T]) kinds() []string {
	return []string{"pushb", "pushb", "pushb", "pushf", "pushf", "popb", "popf", "append", "clear", "len", "ends", "clone", "eq", "display", "iter", "rev", "setb", "setf", "new"}
}

func (c *listC[T]) verify(x *cx, what string) {
	e := c.e
	x.check(int(c.v.Len()) == len(c.m) && bool(c.v.IsEmpty()) == (len(c.m) == 0), "length", "%s: the list has length %d (empty=%v), want %d: %s", what, c.v.Len(), c.v.IsEmpty(), len(c.m), e.lazy(c.m))
	got := e.nums(drain(x, c.v.IntoIter(), len(c.m)))
	x.check(sameList(got, c.m), "content", "%s: the list holds %s, want %s", what, e.lazy(got), e.lazy(c.m))
	c.ends(x, what)
}

func (c *listC[T]) ends(x *cx, what string) {
	e := c.e
	f, k := c.v.Front(), c.v.Back()
	if n := len(c.m); n > 0 {
		x.check(bool(f.IsSome()) && e.is(*f.Unwrap(), c.m[0]), "value", "%s: wrong front, want %s", what, e.str(c.m[0]))
		x.check(bool(k.IsSome()) && e.is(*k.Unwrap(), c.m[n-1]), "value", "%s: wrong back, want %s", what, e.str(c.m[n-1]))
	} else {
		x.check(bool(f.IsNone()) && bool(k.IsNone()), "value", "%s: an empty list has a front or a back", what)
	}
}

func (c *listC[T]) do(x *cx, op Op, other coll) (out coll) {
	op = c.e.fit(op)
	e, a := c.e, op.a(0)
	what := fmt.Sprintf("%s(%s) on %s", op.K, e.str(a), e.list(c.m))
	o, _ := other.(*listC[T])
	opt := func(got gost.Option[T], v int64, ok bool) {
		x.check(bool(got.IsSome()) == ok && (!ok || e.is(got.Unwrap(), v)), "value", "%s returned %s, want %s", what, optStr(e, got), wantStr(e, v, ok))
	}
	if c.e.lacks(op) {
		return
	}
	switch op.K {
	case "new":
		c.v, c.m = gost.LinkedListNew[T](), nil
		if a%2 == 0 {
			c.v = gost.LinkedList[T]{}
		}
	case "bulk":
		for _, v := range e.bulk(op) {
			c.v.PushBack(e.mk(v))
			c.m = append(c.m, v)
		}
	case "drain": // from one end, or round and round
		for i := a; i > 0 && len(c.m) > 0; i-- {
			if op.a(3) == 1 {
				opt(c.v.PopBack(), c.m[len(c.m)-1], true)
				c.m = c.m[:len(c.m)-1]
				continue
			}
			f := c.m[0]
			opt(c.v.PopFront(), f, true)
			c.m = c.m[1:]
			if op.a(3) == 2 {
				c.v.PushBack(e.mk(f))
				c.m = append(c.m, f)
			}
		}
	case "pushb":
		c.v.PushBack(e.mk(a))
		c.m = append(c.m, a)
	case "pushf":
		c.v.PushFront(e.mk(a))
		c.m = append([]int64{a}, c.m...)
	case "popb":
		got := c.v.PopBack()
		if n := len(c.m); n > 0 {
			opt(got, c.m[n-1], true)
			c.m = c.m[:n-1]
		} else {
			opt(got, 0, false)
		}
	case "popf":
		got := c.v.PopFront()
		if len(c.m) > 0 {
			opt(got, c.m[0], true)
			c.m = c.m[1:]
		} else {
			opt(got, 0, false)
		}
	case "append":
		if o == nil {
			break
		}
		c.v.Append(&o.v)
		c.m = append(append([]int64(nil), c.m...), o.m...)
		o.m = nil
		o.verify(x, "the other list after "+what)
	case "clear":
		c.v.Clear()
		c.m = nil
	case "len":
		x.check(int(c.v.Len()) == len(c.m) && bool(c.v.IsEmpty()) == (len(c.m) == 0), "length", "%s: length %d, empty=%v", what, c.v.Len(), c.v.IsEmpty())
	case "ends":
		c.ends(x, what)
	case "setb", "setf":
		p := c.v.Front()
		i := 0
		if op.K == "setb" {
			p = c.v.Back()
			i = len(c.m) - 1
		}
		if len(c.m) > 0 {
			*p.Unwrap() = e.mk(a)
			c.m = append([]int64(nil), c.m...)
			c.m[i] = a
		}
	case "clone":
		n := &listC[T]{e, c.v.Clone(), append([]int64(nil), c.m...)}
		e.apart(x, what, drain(x, c.v.IntoIter(), len(c.m)), drain(x, n.v.IntoIter(), len(c.m)))
		out = n
		out.verify(x, "the clone of "+e.list(c.m))
	case "eq":
		if op.a(4)%2 == 0 {
			o = &listC[T]{e, gost.LinkedListNew[T](), nearly(c.m, op, e.zero)}
			for _, v := range o.m {
				o.v.PushBack(e.mk(v))
			}
		}
		if o != nil {
			want := sameList(c.m, o.m)
			x.check(bool(c.v.Eq(o.v)) == want && bool(o.v.Eq(c.v)) == want && bool(c.v.Eq(*c.v.AsRef())), "value", "Eq of %s and %s returned %v", e.lazy(c.m), e.lazy(o.m), !want)
		}
	case "display":
		if len(c.m) > displayBelow {
			break
		}
		checkDisplay(x, e, "LinkedList", textOf(op.a(1), c.v), c.m)
	case "iter":
		got := e.nums(drain(x, c.v.IntoIter(), len(c.m)))
		x.check(sameList(got, c.m), "content", "iterating %s gave %s", e.lazy(c.m), e.lazy(got))
	case "rev":
		got := e.nums(drain(x, c.v.IntoIter().Rev(), len(c.m)))
		for i, j := 0, len(got)-1; i < j; i, j = i+1, j-1 {
			got[i], got[j] = got[j], got[i]
		}
		x.check(sameList(got, c.m), "content", "iterating %s in reverse gave the reverse of %s", e.lazy(c.m), e.lazy(got))
	}
	c.verify(x, "after "+what)
	return out
}

// ---- P20: BinaryHeap ----

type heapC[T ordered[T]] struct {
	e *elems[T]
	v gost.BinaryHeap[T]
	m []int64 // in no particular order
}

func (c *heapC[T]) size() int { return len(c.m) }

func (c *heapC[T]) readOnly(k string) bool { return k == "len" || k == "slice" }

func (c *heapC[T]) kinds() []string {
	return []string{"push", "push", "push", "push", "pop", "pop", "append", "clear", "len", "slice", "intovec", "intosorted", "popall", "reserve", "new"}
}

func (c *heapC[T]) verify(x *cx, what string) {
	e := c.e
	x.check(int(c.v.Len()) == len(c.m) && bool(c.v.IsEmpty()) == (len(c.m) == 0), "length", "%s: the heap has length %d (empty=%v), want %d: %s", what, c.v.Len(), c.v.IsEmpty(), len(c.m), e.lazy(c.m))
	x.check(c.v.Capacity() >= c.v.Len(), "length", "%s: capacity %d is below length %d", what, c.v.Capacity(), c.v.Len())
	got := e.nums(c.v.AsSlice())
	x.check(sameBag(got, c.m), "content", "%s: the heap holds %s, want %s in some order", what, e.lazy(got), e.lazy(c.m))
}

// pop removes the expected maximum, or any of several equal ones.
func (c *heapC[T]) pop(x *cx, what string) (int64, bool) {
	e := c.e
	got := c.v.Pop()
	if len(c.m) == 0 {
		x.check(bool(got.IsNone()), "value", "%s: Pop on an empty heap returned %s", what, optStr(e, got))
		return 0, false
	}
	x.check(bool(got.IsSome()), "value", "%s: Pop on a heap of %d returned None", what, len(c.m))
	v := e.num(got.Unwrap())
	at := -1
	for i, w := range c.m {
		if e.cmp(w, v) <= 0 {
			if w == v {
				at = i
			}
			continue
		}
		x.check(false, "order", "%s: Pop returned %s although %s is in the heap: %s", what, e.str(v), e.str(w), e.lazy(c.m))
	}
	if at < 0 {
		x.check(false, "value", "%s: Pop returned %s, which is not in the heap %s", what, e.str(v), e.lazy(c.m))
	}
	c.m = append(c.m[:at], c.m[at+1:]...)
	return v, true
}

func (c *heapC[T]) do(x *cx, op Op, other coll) (out coll) {
	op = c.e.fit(op)
	e, a, b := c.e, op.a(0), op.a(1)
	what := fmt.Sprintf("%s(%s) on %s", op.K, e.str(a), e.list(c.m))
	o, _ := other.(*heapC[T])
	switch op.K {
	case "new":
		switch a % 3 {
		case 0:
			c.v, c.m = gost.BinaryHeapNew[T](), nil
		case 1:
			c.v, c.m = gost.BinaryHeapWithCapacity[T](gost.USize(b%20)), nil
		case 2:
			c.v, c.m = gost.BinaryHeapWithLen[T](gost.USize(b%20)), nil
			for i := int64(0); i < b%20; i++ {
				c.m = append(c.m, e.zero)
			}
		}
	case "bulk":
		for _, v := range e.bulk(op) {
			c.v.Push(e.mk(v))
			c.m = append(c.m, v)
		}
	case "push":
		c.v.Push(e.mk(a))
		c.m = append(c.m, a)
	case "drain":
		for i := a; i > 0 && len(c.m) > 0; i-- {
			c.pop(x, what)
		}
	case "pop":
		c.pop(x, what)
	case "popall":
		n := int(b % 12)
		for i := 0; i < n && len(c.m) > 0; i++ {
			c.pop(x, what)
		}
	case "append":
		if o == nil {
			break
		}
		c.v.Append(&o.v)
		c.m = append(append([]int64(nil), c.m...), o.m...)
		o.m = nil
		o.verify(x, "the other heap after "+what)
	case "clear":
		c.v.Clear()
		c.m = nil
	case "len":
		x.check(int(c.v.Len()) == len(c.m) && bool(c.v.IsEmpty()) == (len(c.m) == 0), "length", "%s: length %d, empty=%v", what, c.v.Len(), c.v.IsEmpty())
	case "slice":
		got := e.nums(c.v.AsSlice())
		x.check(sameBag(got, c.m), "content", "%s returned %s", what, e.lazy(got))
	case "intovec":
		v := c.v.IntoVec()
		got := e.nums(v.AsSlice())
		x.check(sameBag(got, c.m), "content", "%s returned %s", what, e.lazy(got))
		c.v, c.m = gost.BinaryHeapNew[T](), nil // consumed
	case "intosorted":
		v := c.v.IntoSortedVec()
		got := e.nums(v.AsSlice())
		x.check(sameBag(got, c.m) && isSorted(got, e.cmp), "order", "%s returned %s", what, e.lazy(got))
		c.v, c.m = gost.BinaryHeapNew[T](), nil
	case "reserve":
		n := gost.USize(a % 50)
		c.v.Reserve(n)
		x.check(c.v.Capacity() >= c.v.Len()+n, "length", "%s: after Reserve(%d) the capacity is %d", what, n, c.v.Capacity())
	}
	c.verify(x, "after "+what)
	return nil
}

func mkVec[T comparable](e *elems[T]) collFactory {
	return collFactory{"Vec of " + e.name, func(x *cx, v int64) coll {
		c := &vecC[T]{e: e, v: gost.VecNew[T]()}
		return c
	}}
}

func mkDeq[T comparable](e *elems[T]) collFactory {
	return collFactory{"VecDeque of " + e.name, func(x *cx, v int64) coll {
		c := &deqC[T]{e: e, v: gost.VecDequeNew[T]()}
		if v > 3 {
			c.v = gost.VecDequeWithCapacity[T](gost.USize(v - 3))
		}
		return c
	}}
}

func mkList[T comparable](e *elems[T]) collFactory {
	return collFactory{"LinkedList of " + e.name, func(x *cx, v int64) coll { return &listC[T]{e: e, v: gost.LinkedListNew[T]()} }}
}

func mkHeap[T ordered[T]](e *elems[T]) collFactory {
	return collFactory{"BinaryHeap of " + e.name, func(x *cx, v int64) coll { return &heapC[T]{e: e, v: gost.BinaryHeapNew[T]()} }}
}

func init() {
	regColl("P17", false, []collFactory{mkVec(elI32), mkVec(elStr), mkVec(elRec), mkVec(elCell), mkVec(elBare)}, []collFactory{mkVec(elI8), mkVec(elI16), mkVec(elWide), mkVec(elI64), mkVec(elISize), mkVec(elU8), mkVec(elU16), mkVec(elU32), mkVec(elU64), mkVec(elUSize), mkVec(elByte), mkVec(elChar), mkVec(elF32), mkVec(elF64), mkVec(elBool), mkVec(elI128), mkVec(elU128), mkVec(elText)})
	regColl("P18", false, []collFactory{mkDeq(elI32), mkDeq(elStr), mkDeq(elRec), mkDeq(elCell), mkDeq(elBare)}, []collFactory{mkDeq(elI8), mkDeq(elWide), mkDeq(elI64), mkDeq(elU16), mkDeq(elU64), mkDeq(elUSize), mkDeq(elByte), mkDeq(elChar), mkDeq(elF32), mkDeq(elF64), mkDeq(elI128), mkDeq(elText)})
	regColl("P19", false, []collFactory{mkList(elI32), mkList(elStr), mkList(elRec), mkList(elCell), mkList(elBare)}, []collFactory{mkList(elI64), mkList(elU64), mkList(elByte), mkList(elF64), mkList(elBool), mkList(elI128), mkList(elText)})
	regColl("P20", false, []collFactory{mkHeap(elI32), mkHeap(elStr), mkHeap(elRec), mkHeap(elCell)}, []collFactory{mkHeap(elI8), mkHeap(elI16), mkHeap(elWide), mkHeap(elI64), mkHeap(elISize), mkHeap(elU8), mkHeap(elU16), mkHeap(elU32), mkHeap(elU64), mkHeap(elUSize), mkHeap(elByte), mkHeap(elChar), mkHeap(elF32), mkHeap(elF64), mkHeap(elBool), mkHeap(elI128), mkHeap(elU128), mkHeap(elText)})
}
