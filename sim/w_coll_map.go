package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/myyrakle/gost"
)

const fullBelow = 120     // larger collections are compared in full only now and then
const displayBelow = 1500 // larger ones are not printed: the text grows by concatenation

// ---- P15: BTreeMap ----

type bmapC[K ordered[K], V comparable] struct {
	ek *elems[K]
	ev *elems[V]
	v  gost.BTreeMap[K, V]
	ks []int64 // ascending
	vs []int64
	n  int
}

func (c *bmapC[K, V]) size() int { return len(c.ks) }

func (c *bmapC[K, V]) readOnly(k string) bool {
	switch k {
	case "get", "has", "len", "eq", "display", "iter", "keys", "values":
		return true
	}
	return false
}

func (c *bmapC[K, V]) kinds() []string {
	return []string{"insert", "insert", "insert", "insert", "remove", "remove", "remove", "clear", "get", "has", "len", "eq", "display", "iter", "keys", "values", "new"}
}

func searchKey(ks []int64, k int64, cmp func(a, b int64) int) (int, bool) {
	i := sort.Search(len(ks), func(i int) bool { return cmp(ks[i], k) >= 0 })
	return i, i < len(ks) && cmp(ks[i], k) == 0
}

func insertAt(s []int64, i int, v int64) []int64 {
	s = append(s, 0)
	copy(s[i+1:], s[i:])
	s[i] = v
	return s
}

func removeAt(s []int64, i int) []int64 { return append(s[:i], s[i+1:]...) }

func (c *bmapC[K, V]) verify(x *cx, what string) {
	x.check(int(c.v.Len()) == len(c.ks) && bool(c.v.IsEmpty()) == (len(c.ks) == 0), "length", "%s: the map has length %d (empty=%v), want %d", what, c.v.Len(), c.v.IsEmpty(), len(c.ks))
	c.n++
	if len(c.ks) > fullBelow && c.n%32 != 0 && !strings.HasPrefix(what, "at the end") {
		return
	}
	ps := drain(x, c.v.IntoIter(), len(c.ks))
	var ks, vs []int64
	for _, p := range ps {
		ks, vs = append(ks, c.ek.num(p.Key)), append(vs, c.ev.num(p.Value))
	}
	x.check(sameList(ks, c.ks), "content", "%s: the map has keys %s, want %s", what, c.ek.lazy(ks), c.ek.lazy(c.ks))
	x.check(sameList(vs, c.vs), "content", "%s: the map with keys %s has values %s, want %s", what, c.ek.lazy(ks), c.ev.lazy(vs), c.ev.lazy(c.vs))
	for i, k := range c.ks {
		g := c.v.Get(c.ek.mk(k))
		x.check(bool(g.IsSome()) && c.ev.num(g.Unwrap()) == c.vs[i], "content", "%s: Get(%s) returned %s, want %s; keys %s", what, c.ek.str(k), optStr(c.ev, g), c.ev.str(c.vs[i]), c.ek.lazy(c.ks))
	}
}

func (c *bmapC[K, V]) insert(x *cx, k, v int64, what string) {
	k, v = c.ek.code(k), c.ev.code(v)
	i, ok := searchKey(c.ks, k, c.ek.cmp)
	old := int64(0)
	if ok {
		old = c.vs[i]
	}
	got := c.v.Insert(c.ek.mk(k), c.ev.mk(v))
	x.check(bool(got.IsSome()) == ok && (!ok || c.ev.is(got.Unwrap(), old)), "value", "%s: Insert(%s) returned %s, want %s", what, c.ek.str(k), optStr(c.ev, got), wantStr(c.ev, old, ok))
	if ok {
		c.vs[i] = v // the key is not updated
	} else {
		c.ks, c.vs = insertAt(c.ks, i, k), insertAt(c.vs, i, v)
	}
}

func (c *bmapC[K, V]) remove(x *cx, k int64, what string) {
	k = c.ek.code(k)
	i, ok := searchKey(c.ks, k, c.ek.cmp)
	old := int64(0)
	if ok {
		old = c.vs[i]
	}
	got := c.v.Remove(c.ek.mk(k))
	x.check(bool(got.IsSome()) == ok && (!ok || c.ev.is(got.Unwrap(), old)), "value", "%s: Remove(%s) returned %s, want %s", what, c.ek.str(k), optStr(c.ev, got), wantStr(c.ev, old, ok))
	if ok {
		c.ks, c.vs = removeAt(c.ks, i), removeAt(c.vs, i)
	}
}

func drainOrder(op Op, ks []int64) []int64 {
	n := int(op.a(0))
	if n > len(ks) {
		n = len(ks)
	}
	o := append([]int64(nil), ks...)
	switch op.a(3) {
	case 0:
	case 1:
		for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
			o[i], o[j] = o[j], o[i]
		}
	default:
		r := NewRand(uint64(op.a(1)))
		for i := len(o) - 1; i > 0; i-- {
			j := r.N(i + 1)
			o[i], o[j] = o[j], o[i]
		}
	}
	return o[:n]
}

// twin is a map of its own that differs from c's in one place at most.
func (c *bmapC[K, V]) twin(x *cx, op Op, what string) *bmapC[K, V] {
	o := &bmapC[K, V]{ek: c.ek, ev: c.ev, v: gost.BTreeMapNew[K, V]()}
	ks, vs := c.ks, c.vs
	if op.a(4)%4 == 0 {
		ks = nearly(ks, op, c.ek.zero)
	} else {
		vs = nearly(vs, op, c.ev.zero)
	}
	for i, k := range ks {
		v := int64(3)
		if i < len(vs) {
			v = vs[i]
		}
		o.insert(x, k, v, "building a twin for "+what)
	}
	return o
}

func (c *bmapC[K, V]) do(x *cx, op Op, other coll) coll {
	op = fit2(c.ek, c.ev, op)
	a, b := op.a(0), op.a(1)
	what := fmt.Sprintf("%s(%s,%s) on keys %s", op.K, c.ek.str(a), c.ev.str(b), c.ek.list(c.ks))
	o, _ := other.(*bmapC[K, V])
	if c.ev.lacks(op) {
		return nil
	}
	switch op.K {
	case "new":
		c.v, c.ks, c.vs = gost.BTreeMapNew[K, V](), nil, nil
	case "clear":
		c.v.Clear()
		c.ks, c.vs = nil, nil
	case "bulk":
		for i, k := range bulkValues(op) {
			c.insert(x, k, int64(i), what)
		}
	case "drain":
		for _, k := range drainOrder(op, c.ks) {
			c.remove(x, k, what)
		}
	case "insert":
		c.insert(x, a, b, what)
	case "remove":
		if b%3 != 0 && len(c.ks) > 0 {
			a = c.ks[int(a)%len(c.ks)]
		}
		c.remove(x, a, what)
	case "get", "has":
		if b%3 == 0 && len(c.ks) > 0 {
			a = c.ks[int(a)%len(c.ks)]
		}
		i, ok := searchKey(c.ks, a, c.ek.cmp)
		if op.K == "has" {
			x.check(bool(c.v.ContainsKey(c.ek.mk(a))) == ok, "value", "%s: ContainsKey(%s) is %v", what, c.ek.str(a), !ok)
			break
		}
		got := c.v.Get(c.ek.mk(a))
		x.check(bool(got.IsSome()) == ok && (!ok || c.ev.num(got.Unwrap()) == c.vs[i]), "value", "%s: Get(%s) returned %s", what, c.ek.str(a), optStr(c.ev, got))
	case "len":
	case "eq":
		if op.a(4)%2 == 0 {
			o = c.twin(x, op, what)
		}
		if o != nil {
			want := len(c.ks) == len(o.ks) && sameList(c.vs, o.vs)
			for i := range c.ks {
				want = want && c.ek.cmp(c.ks[i], o.ks[i]) == 0
			}
			x.check(bool(c.v.Eq(&o.v)) == want && bool(o.v.Eq(&c.v)) == want && bool(c.v.Eq(c.v.AsRef())), "value", "%s: Eq with keys %s returned %v", what, c.ek.lazy(o.ks), !want)
		}
	case "display":
		if len(c.ks) > fullBelow {
			break
		}
		var s []string
		for i, k := range c.ks {
			s = append(s, c.ek.str(k)+": "+c.ev.str(c.vs[i]))
		}
		want := "BTreeMap{" + strings.Join(s, ", ") + "}"
		got := textOf(b, c.v)
		x.check(got == want, "value", "it displays as %q, want %q", got, want)
	case "iter":
		// part of every full comparison; here also with a limit
		it := c.v.IntoIter()
		for i, n := 0, int(b)%(len(c.ks)+1); i < n; i++ {
			p := it.Next()
			x.check(bool(p.IsSome()), "content", "%s: the iterator ended after %d of %d entries", what, i, len(c.ks))
			x.check(c.ek.num(p.Unwrap().Key) == c.ks[i] && c.ev.num(p.Unwrap().Value) == c.vs[i], "content", "%s: entry %d is %s", what, i, c.ek.str(c.ek.num(p.Unwrap().Key)))
		}
	case "keys":
		got := c.ek.nums(drain(x, c.v.Keys(), len(c.ks)))
		x.check(sameList(got, c.ks), "content", "%s gave %s", what, c.ek.lazy(got))
	case "values":
		got := c.ev.nums(drain(x, c.v.Values(), len(c.vs)))
		x.check(sameList(got, c.vs), "content", "%s gave %s, want %s", what, c.ev.lazy(got), c.ev.lazy(c.vs))
	}
	c.verify(x, "after "+what)
	return nil
}

// ---- P15: BTreeSet ----

type bsetC[K ordered[K]] struct {
	e  *elems[K]
	v  gost.BTreeSet[K]
	ks []int64
	n  int
}

func (c *bsetC[K]) size() int { return len(c.ks) }

func (c *bsetC[K]) readOnly(k string) bool {
	switch k {
	case "has", "len", "eq", "display", "iter", "clone", "subset", "disjoint", "inter", "union", "symdiff":
		return true
	}
	return false
}

func (c *bsetC[K]) kinds() []string {
	return []string{"insert", "insert", "insert", "insert", "remove", "remove", "remove", "clear", "has", "len", "eq", "display", "iter", "clone", "clone", "subset", "disjoint", "inter", "union", "symdiff", "new"}
}

func (c *bsetC[K]) verify(x *cx, what string) {
	x.check(int(c.v.Len()) == len(c.ks) && bool(c.v.IsEmpty()) == (len(c.ks) == 0), "length", "%s: the set has length %d (empty=%v), want %d", what, c.v.Len(), c.v.IsEmpty(), len(c.ks))
	c.n++
	if len(c.ks) > fullBelow && c.n%32 != 0 && !strings.HasPrefix(what, "at the end") {
		return
	}
	ks := c.e.nums(drain(x, c.v.IntoIter(), len(c.ks)))
	x.check(sameList(ks, c.ks), "content", "%s: the set holds %s, want %s", what, c.e.lazy(ks), c.e.lazy(c.ks))
	for _, k := range c.ks {
		x.check(bool(c.v.Contains(c.e.mk(k))), "content", "%s: the set does not contain %s; it holds %s", what, c.e.str(k), c.e.lazy(c.ks))
	}
}

// result makes an object of a set operation's result. Which of two equal
// elements it took is its own choice.
func (c *bsetC[K]) result(x *cx, what string, v gost.BTreeSet[K], want []int64, from ...[]int64) *bsetC[K] {
	got := c.e.nums(drain(x, v.IntoIter(), len(want)+2))
	ok := len(got) == len(want)
	for i := range want {
		ok = ok && c.e.cmp(got[i], want[i]) == 0
	}
	x.check(ok, "content", "%s gave %s, want %s", what, c.e.lazy(got), c.e.lazy(want))
	for _, g := range got {
		in := false
		for _, f := range from {
			i, ok := searchKey(f, g, c.e.cmp)
			in = in || ok && f[i] == g
		}
		x.check(in, "content", "%s gave %s, which is in neither set", what, c.e.str(g))
	}
	n := &bsetC[K]{e: c.e, v: v, ks: got}
	n.verify(x, "the result of "+what)
	return n
}

func (c *bsetC[K]) insert(x *cx, k int64, what string) {
	k = c.e.code(k)
	i, ok := searchKey(c.ks, k, c.e.cmp)
	x.check(bool(c.v.Insert(c.e.mk(k))) == !ok, "value", "%s: Insert(%s) returned %v", what, c.e.str(k), ok)
	if !ok {
		c.ks = insertAt(c.ks, i, k)
	}
}

func (c *bsetC[K]) remove(x *cx, k int64, what string) {
	i, ok := searchKey(c.ks, k, c.e.cmp)
	x.check(bool(c.v.Remove(c.e.mk(k))) == ok, "value", "%s: Remove(%s) returned %v", what, c.e.str(k), !ok)
	if ok {
		c.ks = removeAt(c.ks, i)
	}
}

// split returns the members of a that are (in) or are not (!in) in b.
func split(a, b []int64, cmp func(a, b int64) int, in bool) (o []int64) {
	for _, v := range a {
		if _, ok := searchKey(b, v, cmp); ok == in {
			o = append(o, v)
		}
	}
	return
}

func (c *bsetC[K]) do(x *cx, op Op, other coll) coll {
	op = c.e.fit(op)
	a, b := op.a(0), op.a(1)
	o, _ := other.(*bsetC[K])
	what := fmt.Sprintf("%s(%s) on %s", op.K, c.e.str(a), c.e.list(c.ks))
	cmp := c.e.cmp
	var out coll
	if c.e.lacks(op) {
		return nil
	}
	switch op.K {
	case "subset", "disjoint", "inter", "union", "symdiff", "eq":
		if op.a(4)%4 == 0 {
			o = &bsetC[K]{e: c.e, v: gost.BTreeSetNew[K]()}
			for _, k := range nearly(c.ks, op, c.e.zero) {
				o.insert(x, k, "building a twin for "+what)
			}
		}
		if o == nil {
			return nil
		}
		what = fmt.Sprintf("%s of %s and %s", op.K, c.e.list(c.ks), c.e.list(o.ks))
		both := split(c.ks, o.ks, cmp, true)
		onlyC, onlyO := split(c.ks, o.ks, cmp, false), split(o.ks, c.ks, cmp, false)
		merge := func(l ...[]int64) []int64 {
			var m []int64
			for _, s := range l {
				m = append(m, s...)
			}
			sort.Slice(m, func(i, j int) bool { return cmp(m[i], m[j]) < 0 })
			return m
		}
		switch op.K {
		case "subset":
			x.check(bool(c.v.IsSubset(o.v)) == (len(onlyC) == 0) && bool(c.v.IsSuperset(o.v)) == (len(onlyO) == 0), "value", "%s: subset %v, superset %v", what, c.v.IsSubset(o.v), c.v.IsSuperset(o.v))
		case "disjoint":
			x.check(bool(c.v.IsDisjoint(o.v)) == (len(both) == 0), "value", "%s: IsDisjoint is %v", what, len(both) != 0)
		case "eq":
			want := len(onlyC) == 0 && len(onlyO) == 0
			x.check(bool(c.v.Eq(o.v)) == want && bool(o.v.Eq(c.v)) == want && bool(c.v.Eq(*c.v.AsRef())), "value", "%s: Eq is %v", what, !want)
		case "inter":
			out = c.result(x, what, c.v.Intersection(o.v), both, c.ks, o.ks)
		case "union":
			out = c.result(x, what, c.v.Union(o.v), merge(c.ks, onlyO), c.ks, o.ks)
		case "symdiff":
			out = c.result(x, what, c.v.SymmetricDifference(o.v), merge(onlyC, onlyO), c.ks, o.ks)
		}
		o.verify(x, "the other set after "+what)
	case "new":
		c.v, c.ks = gost.BTreeSetNew[K](), nil
	case "clear":
		c.v.Clear()
		c.ks = nil
	case "bulk":
		for _, k := range bulkValues(op) {
			c.insert(x, k, what)
		}
	case "drain":
		for _, k := range drainOrder(op, c.ks) {
			c.remove(x, k, what)
		}
	case "insert":
		c.insert(x, a, what)
	case "remove":
		if b%3 != 0 && len(c.ks) > 0 {
			a = c.ks[int(a)%len(c.ks)]
		}
		c.remove(x, a, what)
	case "has":
		_, ok := searchKey(c.ks, a, cmp)
		x.check(bool(c.v.Contains(c.e.mk(a))) == ok, "value", "%s is %v", what, !ok)
	case "clone":
		n := &bsetC[K]{e: c.e, v: c.v.Clone(), ks: append([]int64(nil), c.ks...)}
		c.e.apart(x, what, drain(x, c.v.IntoIter(), len(c.ks)), drain(x, n.v.IntoIter(), len(c.ks)))
		n.verify(x, "the clone of "+c.e.list(c.ks))
		out = n
	case "display":
		if len(c.ks) > fullBelow {
			break
		}
		var s []string
		for _, k := range c.ks {
			s = append(s, c.e.str(k))
		}
		want := "BTreeSet{" + strings.Join(s, ", ") + "}"
		got := textOf(b, c.v)
		x.check(got == want, "value", "it displays as %q, want %q", got, want)
	case "iter":
		it := c.v.IntoIter()
		for i, n := 0, int(b)%(len(c.ks)+1); i < n; i++ {
			p := it.Next()
			x.check(bool(p.IsSome()) && c.e.num(p.Unwrap()) == c.ks[i], "content", "%s: element %d is %s", what, i, optStr(c.e, p))
		}
	}
	c.verify(x, "after "+what)
	return out
}

// ---- P16: HashMap ----

type hmapC[K comparable, V comparable] struct {
	ek *elems[K]
	ev *elems[V]
	v  gost.HashMap[K, V]
	m  map[int64]int64
	n  int
}

func (c *hmapC[K, V]) size() int { return len(c.m) }

func (c *hmapC[K, V]) readOnly(k string) bool {
	switch k {
	case "get", "has", "len", "eq", "display", "iter", "keys", "values", "asmap", "clone":
		return true
	}
	return false
}

func (c *hmapC[K, V]) kinds() []string {
	return []string{"insert", "insert", "insert", "insert", "remove", "remove", "clear", "get", "has", "len", "eq", "display", "iter", "keys", "values", "asmap", "clone", "clone", "new"}
}

func keysOf(m map[int64]int64) []int64 {
	ks := make([]int64, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func (c *hmapC[K, V]) checkPairs(x *cx, what string, ps []gost.Pair[K, V]) {
	seen := map[int64]bool{}
	for _, p := range ps {
		k := c.ek.num(p.Key)
		v, ok := c.m[k]
		x.check(ok && !seen[k] && c.ev.num(p.Value) == v, "content", "%s: entry %s: %s is not in the map, repeated or wrong; the keys are %s", what, c.ek.str(k), c.ev.str(c.ev.num(p.Value)), lazily(func() string { return c.ek.list(keysOf(c.m)) }))
		seen[k] = true
	}
	x.check(len(ps) == len(c.m), "content", "%s: %d entries, want %d", what, len(ps), len(c.m))
}

func (c *hmapC[K, V]) verify(x *cx, what string) {
	x.check(int(c.v.Len()) == len(c.m) && bool(c.v.IsEmpty()) == (len(c.m) == 0), "length", "%s: the map has length %d (empty=%v), want %d", what, c.v.Len(), c.v.IsEmpty(), len(c.m))
	c.n++
	if len(c.m) > fullBelow && c.n%32 != 0 && !strings.HasPrefix(what, "at the end") {
		return
	}
	for _, k := range keysOf(c.m) {
		g := c.v.Get(c.ek.mk(k))
		x.check(bool(g.IsSome()) && c.ev.num(g.Unwrap()) == c.m[k], "content", "%s: Get(%s) returned %s, want %s", what, c.ek.str(k), optStr(c.ev, g), c.ev.str(c.m[k]))
	}
}

// twin is a map of its own that differs from c's in one place at most.
func (c *hmapC[K, V]) twin(op Op) *hmapC[K, V] {
	o := &hmapC[K, V]{ek: c.ek, ev: c.ev, v: gost.HashMapNew[K, V](), m: map[int64]int64{}}
	ks := keysOf(c.m)
	var vs []int64
	for _, k := range ks {
		vs = append(vs, c.m[k])
	}
	switch op.a(4) % 8 {
	case 0:
		ks = nearly(ks, op, c.ek.zero)
	case 2: // another key with the value that a missing one would seem to have
		if len(ks) > 0 {
			i := int(op.a(0)) % len(ks)
			ks[i], vs[i] = op.a(1), c.ev.zero
		}
	default:
		vs = nearly(vs, op, c.ev.zero)
	}
	for i, k := range ks {
		v := int64(3)
		if i < len(vs) {
			v = vs[i]
		}
		k, v = c.ek.code(k), c.ev.code(v)
		o.v.Insert(c.ek.mk(k), c.ev.mk(v))
		o.m[k] = v
	}
	return o
}

func (c *hmapC[K, V]) do(x *cx, op Op, other coll) coll {
	op = fit2(c.ek, c.ev, op)
	a, b := op.a(0), op.a(1)
	ks := keysOf(c.m)
	what := fmt.Sprintf("%s(%s,%s) on keys %s", op.K, c.ek.str(a), c.ev.str(b), c.ek.list(ks))
	o, _ := other.(*hmapC[K, V])
	var out coll
	insert := func(k, v int64) {
		k, v = c.ek.code(k), c.ev.code(v)
		old, ok := c.m[k]
		got := c.v.Insert(c.ek.mk(k), c.ev.mk(v))
		x.check(bool(got.IsSome()) == ok && (!ok || c.ev.is(got.Unwrap(), old)), "value", "%s: Insert(%s) returned %s, want %s", what, c.ek.str(k), optStr(c.ev, got), wantStr(c.ev, old, ok))
		c.m[k] = v
	}
	if c.ev.lacks(op) {
		return nil
	}
	switch op.K {
	case "new":
		c.v, c.m = gost.HashMapNew[K, V](), map[int64]int64{}
		if a%2 == 0 {
			c.v = gost.HashMapWithCapacity[K, V](gost.USize(b % 40))
		}
	case "clear":
		c.v.Clear()
		c.m = map[int64]int64{}
	case "bulk":
		for i, k := range bulkValues(op) {
			insert(k, int64(i))
		}
	case "drain":
		for _, k := range drainOrder(op, ks) {
			old := c.m[k]
			got := c.v.Remove(c.ek.mk(k))
			x.check(bool(got.IsSome()) && c.ev.is(got.Unwrap(), old), "value", "%s: Remove(%s) returned %s, want %s", what, c.ek.str(k), optStr(c.ev, got), c.ev.str(old))
			delete(c.m, k)
		}
	case "insert":
		insert(a, b)
	case "remove":
		if b%3 != 0 && len(ks) > 0 {
			a = ks[int(a)%len(ks)]
		}
		old, ok := c.m[a]
		got := c.v.Remove(c.ek.mk(a))
		x.check(bool(got.IsSome()) == ok && (!ok || c.ev.is(got.Unwrap(), old)), "value", "%s: Remove(%s) returned %s, want %s", what, c.ek.str(a), optStr(c.ev, got), wantStr(c.ev, old, ok))
		delete(c.m, a)
	case "get":
		v, ok := c.m[a]
		got := c.v.Get(c.ek.mk(a))
		x.check(bool(got.IsSome()) == ok && (!ok || c.ev.num(got.Unwrap()) == v), "value", "%s returned %s", what, optStr(c.ev, got))
	case "has":
		_, ok := c.m[a]
		x.check(bool(c.v.ContainsKey(c.ek.mk(a))) == ok, "value", "%s is %v", what, !ok)
	case "eq":
		if op.a(4)%2 == 0 {
			o = c.twin(op)
		}
		if o != nil {
			want := len(c.m) == len(o.m)
			for k, v := range c.m {
				w, ok := o.m[k]
				want = want && ok && w == v
			}
			x.check(bool(c.v.Eq(o.v)) == want && bool(o.v.Eq(c.v)) == want && bool(c.v.Eq(*c.v.AsRef())), "value", "%s: Eq with keys %s is %v", what, lazily(func() string { return c.ek.list(keysOf(o.m)) }), !want)
		}
	case "display":
		if len(ks) > displayBelow {
			break
		}
		var s []string
		for _, k := range ks {
			s = append(s, c.ek.str(k)+": "+c.ev.str(c.m[k]))
		}
		checkBraces(x, "HashMap", textOf(b, c.v), s)
	case "iter":
		c.checkPairs(x, what, drain(x, c.v.IntoIter(), len(c.m)))
	case "keys":
		got := c.ek.nums(drain(x, c.v.Keys(), len(c.m)))
		x.check(sameBag(got, ks), "content", "%s gave %s", what, c.ek.lazy(got))
	case "values":
		var want []int64
		for _, k := range ks {
			want = append(want, c.m[k])
		}
		got := c.ev.nums(drain(x, c.v.Values(), len(c.m)))
		x.check(sameBag(got, want), "content", "%s gave %s, want %s", what, c.ev.lazy(got), c.ev.lazy(want))
	case "asmap":
		m := c.v.AsMap()
		var ps []gost.Pair[K, V]
		for k, v := range m {
			ps = append(ps, gost.Pair[K, V]{Key: k, Value: v})
		}
		c.checkPairs(x, what, ps)
	case "clone":
		n := &hmapC[K, V]{ek: c.ek, ev: c.ev, v: c.v.Clone(), m: map[int64]int64{}}
		c.ev.apart(x, what, drain(x, c.v.Values(), len(c.m)), drain(x, n.v.Values(), len(c.m)))
		for k, v := range c.m {
			n.m[k] = v
		}
		n.verify(x, "the clone in "+what)
		out = n
	}
	c.verify(x, "after "+what)
	return out
}

// checkBraces compares "Name{a, b}" up to the order of its parts.
func checkBraces(x *cx, name, got string, parts []string) {
	ok := strings.HasPrefix(got, name+"{") && strings.HasSuffix(got, "}")
	if ok {
		var have []string
		if in := got[len(name)+1 : len(got)-1]; in != "" || len(parts) == 1 {
			have = strings.Split(in, ", ")
		}
		parts = append([]string(nil), parts...)
		sort.Strings(have)
		sort.Strings(parts)
		ok = strings.Join(have, "\x00") == strings.Join(parts, "\x00") && len(have) == len(parts)
	}
	x.check(ok, "value", "it displays as %q, with parts %q", got, parts)
}

// ---- P16: HashSet ----

type hsetC[K comparable] struct {
	e *elems[K]
	v gost.HashSet[K]
	m map[int64]int64
	n int
}

func (c *hsetC[K]) size() int { return len(c.m) }

func (c *hsetC[K]) readOnly(k string) bool {
	switch k {
	case "get", "has", "len", "eq", "display", "iter", "slice", "clone", "subset", "disjoint", "inter", "union", "symdiff":
		return true
	}
	return false
}

func (c *hsetC[K]) kinds() []string {
	return []string{"insert", "insert", "insert", "insert", "remove", "remove", "clear", "get", "has", "len", "eq", "display", "iter", "slice", "clone", "clone", "subset", "disjoint", "inter", "union", "symdiff", "new", "from"}
}

func (c *hsetC[K]) verify(x *cx, what string) {
	x.check(int(c.v.Len()) == len(c.m) && bool(c.v.IsEmpty()) == (len(c.m) == 0), "length", "%s: the set has length %d (empty=%v), want %d", what, c.v.Len(), c.v.IsEmpty(), len(c.m))
	c.n++
	if len(c.m) > fullBelow && c.n%32 != 0 && !strings.HasPrefix(what, "at the end") {
		return
	}
	for _, k := range keysOf(c.m) {
		x.check(bool(c.v.Contains(c.e.mk(k))), "content", "%s: the set does not contain %s; want %s", what, c.e.str(k), lazily(func() string { return c.e.list(keysOf(c.m)) }))
	}
}

func (c *hsetC[K]) result(x *cx, what string, v gost.HashSet[K], want []int64) *hsetC[K] {
	got := c.e.nums(drain(x, v.IntoIter(), len(want)+2))
	x.check(sameBag(got, want), "content", "%s gave %s, want %s", what, c.e.lazy(got), c.e.lazy(want))
	n := &hsetC[K]{e: c.e, v: v, m: map[int64]int64{}}
	for _, g := range got {
		n.m[g] = 0
	}
	n.verify(x, "the result of "+what)
	return n
}

func (c *hsetC[K]) do(x *cx, op Op, other coll) coll {
	op = c.e.fit(op)
	a, b := op.a(0), op.a(1)
	ks := keysOf(c.m)
	o, _ := other.(*hsetC[K])
	what := fmt.Sprintf("%s(%s) on %s", op.K, c.e.str(a), c.e.list(ks))
	var out coll
	insert := func(k int64) {
		k = c.e.code(k)
		_, ok := c.m[k]
		x.check(bool(c.v.Insert(c.e.mk(k))) == !ok, "value", "%s: Insert(%s) returned %v", what, c.e.str(k), ok)
		c.m[k] = 0
	}
	if c.e.lacks(op) {
		return nil
	}
	switch op.K {
	case "subset", "disjoint", "inter", "union", "symdiff", "eq":
		if op.a(4)%4 == 0 {
			o = &hsetC[K]{e: c.e, v: gost.HashSetNew[K](), m: map[int64]int64{}}
			for _, k := range nearly(ks, op, c.e.zero) {
				o.v.Insert(c.e.mk(k))
				o.m[k] = 0
			}
		}
		if o == nil {
			return nil
		}
		ok := keysOf(o.m)
		what = fmt.Sprintf("%s of %s and %s", op.K, c.e.list(ks), c.e.list(ok))
		both, onlyC, onlyO := split(ks, ok, sgn, true), split(ks, ok, sgn, false), split(ok, ks, sgn, false)
		merge := func(a, b []int64) []int64 { return append(append([]int64(nil), a...), b...) }
		switch op.K {
		case "subset":
			x.check(bool(c.v.IsSubset(o.v)) == (len(onlyC) == 0) && bool(c.v.IsSuperset(o.v)) == (len(onlyO) == 0), "value", "%s: subset %v, superset %v", what, c.v.IsSubset(o.v), c.v.IsSuperset(o.v))
		case "disjoint":
			x.check(bool(c.v.IsDisjoint(o.v)) == (len(both) == 0), "value", "%s: IsDisjoint is %v", what, len(both) != 0)
		case "eq":
			want := len(onlyC) == 0 && len(onlyO) == 0
			x.check(bool(c.v.Eq(o.v)) == want && bool(o.v.Eq(c.v)) == want && bool(c.v.Eq(*c.v.AsRef())), "value", "%s: Eq is %v", what, !want)
		case "inter":
			out = c.result(x, what, c.v.Intersection(o.v), both)
		case "union":
			out = c.result(x, what, c.v.Union(o.v), merge(ks, onlyO))
		case "symdiff":
			out = c.result(x, what, c.v.SymmetricDifference(o.v), merge(onlyC, onlyO))
		}
		o.verify(x, "the other set after "+what)
	case "new":
		c.v, c.m = gost.HashSetNew[K](), map[int64]int64{}
		if a%2 == 0 {
			c.v = gost.HashSetWithCapacity[K](gost.USize(b % 40))
		}
	case "from":
		vs := bulkValues(Op{A: []int64{b % 40, a, 0, op.a(4) & 3, 10}})
		var ts []K
		c.m = map[int64]int64{}
		for _, v := range vs {
			v = c.e.code(v)
			ts = append(ts, c.e.mk(v))
			c.m[v] = 0
		}
		c.v = gost.HashSetFromSlice(ts)
		for i := range ts {
			ts[i] = c.e.mk(9999) // the set does not depend on the slice any more
		}
	case "clear":
		c.v.Clear()
		c.m = map[int64]int64{}
	case "bulk":
		for _, k := range bulkValues(op) {
			insert(k)
		}
	case "drain":
		for _, k := range drainOrder(op, ks) {
			x.check(bool(c.v.Remove(c.e.mk(k))), "value", "%s: Remove(%s) returned false", what, c.e.str(k))
			delete(c.m, k)
		}
	case "insert":
		insert(a)
	case "remove":
		if b%3 != 0 && len(ks) > 0 {
			a = ks[int(a)%len(ks)]
		}
		_, ok := c.m[a]
		x.check(bool(c.v.Remove(c.e.mk(a))) == ok, "value", "%s: Remove(%s) returned %v", what, c.e.str(a), !ok)
		delete(c.m, a)
	case "get":
		_, ok := c.m[a]
		got := c.v.Get(c.e.mk(a))
		x.check(bool(got.IsSome()) == ok && (!ok || c.e.num(got.Unwrap()) == a), "value", "%s returned %s", what, optStr(c.e, got))
	case "has":
		_, ok := c.m[a]
		x.check(bool(c.v.Contains(c.e.mk(a))) == ok, "value", "%s is %v", what, !ok)
	case "clone":
		n := &hsetC[K]{e: c.e, v: c.v.Clone(), m: map[int64]int64{}}
		for k := range c.m {
			n.m[k] = 0
		}
		n.verify(x, "the clone of "+c.e.list(ks))
		out = n
	case "display":
		if len(ks) > displayBelow {
			break
		}
		var s []string
		for _, k := range ks {
			s = append(s, c.e.str(k))
		}
		checkBraces(x, "HashSet", textOf(b, c.v), s)
	case "iter":
		got := c.e.nums(drain(x, c.v.IntoIter(), len(ks)))
		x.check(sameBag(got, ks), "content", "%s gave %s", what, c.e.lazy(got))
	case "slice":
		sl := c.v.AsSlice()
		got := c.e.nums(sl)
		x.check(sameBag(got, ks), "content", "%s gave %s", what, c.e.lazy(got))
	}
	c.verify(x, "after "+what)
	return out
}

func mkBMap[K ordered[K], V comparable](ek *elems[K], ev *elems[V]) collFactory {
	return collFactory{"BTreeMap of " + ek.name + " to " + ev.name, func(x *cx, v int64) coll {
		return &bmapC[K, V]{ek: ek, ev: ev, v: gost.BTreeMapNew[K, V]()}
	}}
}

func mkBSet[K ordered[K]](e *elems[K]) collFactory {
	return collFactory{"BTreeSet of " + e.name, func(x *cx, v int64) coll { return &bsetC[K]{e: e, v: gost.BTreeSetNew[K]()} }}
}

func mkHMap[K comparable, V comparable](ek *elems[K], ev *elems[V]) collFactory {
	return collFactory{"HashMap of " + ek.name + " to " + ev.name, func(x *cx, v int64) coll {
		return &hmapC[K, V]{ek: ek, ev: ev, v: gost.HashMapNew[K, V](), m: map[int64]int64{}}
	}}
}

func mkHSet[K comparable](e *elems[K]) collFactory {
	return collFactory{"HashSet of " + e.name, func(x *cx, v int64) coll {
		return &hsetC[K]{e: e, v: gost.HashSetNew[K](), m: map[int64]int64{}}
	}}
}

func init() {
	regColl("P15", true, []collFactory{mkBMap(elI32, elStr), mkBSet(elI32), mkBMap(elStr, elRec), mkBSet(elStr), mkBMap(elRec, elI32), mkBSet(elRec), mkBMap(elI32, elI32), mkBMap(elI32, elCell), mkBMap(elStr, elBare), mkBSet(elCell)}, []collFactory{mkBSet(elI8), mkBSet(elI16), mkBSet(elWide), mkBSet(elI64), mkBSet(elISize), mkBSet(elU8), mkBSet(elU16), mkBSet(elU32), mkBSet(elU64), mkBSet(elUSize), mkBSet(elByte), mkBSet(elChar), mkBSet(elF32), mkBSet(elF64), mkBSet(elBool), mkBSet(elI128), mkBSet(elU128), mkBSet(elText), mkBMap(elI64, elI64), mkBMap(elU8, elU8), mkBMap(elText, elText), mkBMap(elF64, elBool)})
	regColl("P16", false, []collFactory{mkHMap(elI32, elStr), mkHSet(elI32), mkHMap(elStr, elRec), mkHSet(elStr), mkHMap(elRec, elI32), mkHSet(elRec), mkHMap(elI32, elCell), mkHMap(elBare, elBare)}, []collFactory{mkHSet(elI8), mkHSet(elWide), mkHSet(elI64), mkHSet(elU16), mkHSet(elU64), mkHSet(elUSize), mkHSet(elByte), mkHSet(elChar), mkHSet(elF32), mkHSet(elF64), mkHSet(elBool), mkHSet(elI128), mkHSet(elText), mkHMap(elI64, elI64), mkHMap(elU8, elU8), mkHMap(elText, elText), mkHMap(elF64, elBool)})
}
