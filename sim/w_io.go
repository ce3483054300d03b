package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"

	"github.com/myyrakle/gost"
)

// ---- P13: reading lines from standard input ----

func lineText(op Op) string {
	// unique per op index, which is a[2]
	n := int(op.a(0))
	if n == 0 {
		return ""
	}
	b := []byte(fmt.Sprintf("%d:", op.a(2)))
	const alpha = "abc \t,;{}é日\x00\"'\\ \r0\x1a\ufeff\u2028\x0b"
	rs := []rune(alpha)
	x := NewRand(uint64(op.a(1)))
	raw := x.N(4) == 0 // any bytes, not only text
	for len(b) < n {
		if raw && x.N(3) == 0 {
			if c := byte(x.N(256)); c != '\n' {
				b = append(b, c)
			}
			continue
		}
		b = append(b, string(rs[x.N(len(rs))])...)
	}
	s := string(b)
	for strings.HasSuffix(s, "\r") {
		s = s[:len(s)-1] + "."
	}
	return s
}

type gotLine struct {
	start, end uint64
	text       string
	who        int
}

func stdinBody(r *Run) {
	c, k := r.Case, r.K
	k.stdinMax = int(c.p("max"))
	var lines []string // without terminator
	var raw []string
	for _, op := range c.Prog.T[0] {
		t := lineText(op)
		switch {
		case op.a(3) == 2 && t != "":
			// a carriage return that is part of the line, before the ending
			t += "\r"
			lines = append(lines, t)
			raw = append(raw, t+"\r\n")
		case op.a(3) >= 1:
			lines = append(lines, t)
			raw = append(raw, t+"\r\n")
		default:
			lines = append(lines, t)
			raw = append(raw, t+"\n")
		}
	}
	if n := len(raw); n > 0 && c.p("unterminated") == 1 && lines[n-1] != "" {
		raw[n-1] = lines[n-1]
	}
	var got []*gotLine
	back := make(chan struct{}, 1000)
	h := &gost.Stdin{}
	calls := 0
	for _, ops := range c.Prog.T[1:] {
		for _, op := range ops {
			if op.K == "readline" {
				calls++
			}
		}
	}
	left := len(c.Prog.T) - 1
	if left == 0 {
		return
	}
	inter := c.p("interactive") == 1
	done := make(chan struct{})
	eof := uint64(0)
	r.simGo("the terminal", func() {
		rng := NewRand(c.Seed ^ 0x7e41)
		all := strings.Join(raw, "")
		if inter {
			// the next line is typed only after the previous one was received
			for i, s := range raw {
				if i >= calls {
					break
				}
				for len(s) > 0 {
					n := rng.Range(1, len(s))
					k.feed([]byte(s[:n]))
					s = s[n:]
					yields(int64(rng.N(5)))
				}
				if strings.HasSuffix(raw[i], "\n") {
					<-back
				}
			}
			all = ""
		}
		for len(all) > 0 {
			n := rng.Range(1, len(all))
			if m := int(c.p("chunk")); m > 0 && n > m {
				n = m
			}
			k.feed([]byte(all[:n]))
			all = all[n:]
			if rng.P(1, 2) {
				yields(int64(rng.N(20)))
			} else if rng.P(1, 4) {
				simSleep(int64(rng.N(1000000)))
			}
		}
		eof = runtime.SimSteps()
		k.closeStdin()
	})
	for t := range c.Prog.T[1:] {
		t := t
		r.simGo("a reading thread", func() {
			var buf gost.String
			for _, op := range c.Prog.T[1+t] {
				switch op.K {
				case "yield":
					yields(op.a(0))
				case "clear":
					buf = gost.String(strings.Repeat("p", int(op.a(0))))
				case "readline":
					before := string(buf)
					g := &gotLine{start: runtime.SimSteps(), who: t}
					h.ReadLine(&buf)
					g.end = runtime.SimSteps()
					r.op("readline")
					if !strings.HasPrefix(string(buf), before) {
						r.fail("append", "thread %d: ReadLine changed what the buffer held: %q became %q", t, trunc([]byte(before)), trunc([]byte(buf)))
					}
					g.text = string(buf)[len(before):]
					got = append(got, g)
					if inter {
						back <- struct{}{}
					}
				}
			}
			left--
			if left == 0 {
				close(done)
			}
		})
	}
	<-done
	// verdict: the calls received the lines, each whole, once, in order
	idx := map[string]int{}
	wantEmpty := 0
	for i, l := range lines {
		if i >= calls {
			break
		}
		if l == "" {
			wantEmpty++
		} else {
			idx[l] = i
		}
	}
	for i := len(lines); i < calls; i++ {
		wantEmpty++ // end of input
	}
	type at struct {
		i int
		g *gotLine
	}
	var as []at
	have := map[int]bool{}
	empty := 0
	for _, g := range got {
		if g.text == "" {
			empty++
			continue
		}
		i, ok := idx[g.text]
		if !ok {
			r.fail("line", "thread %d: ReadLine delivered %q, which is not one of the next %d lines of the input", g.who, trunc([]byte(g.text)), calls)
		}
		if have[i] {
			r.fail("line", "line %d was delivered twice", i)
		}
		have[i] = true
		as = append(as, at{i, g})
	}
	if empty != wantEmpty {
		var miss []string
		for l, i := range idx {
			if !have[i] {
				miss = append(miss, fmt.Sprintf("%d (%q)", i, trunc([]byte(l))))
			}
		}
		sort.Strings(miss)
		r.fail("line", "%d calls appended nothing, want %d; lines never delivered: %s", empty, wantEmpty, strings.Join(miss, ", "))
	}
	for _, x := range as {
		for _, y := range as {
			if x.g.end < y.g.start && x.i > y.i {
				r.fail("order", "a call that had returned before another began got line %d, the later call line %d", x.i, y.i)
			}
		}
	}
	_ = eof
}

// ---- P14: printing ----

type prOut struct {
	want [][]string // per thread, the text of each call
	done []int      // calls returned
	cur  []int      // calls begun
}

type shown struct{ n int64 }

func (s shown) Display() gost.String { return gost.String(fmt.Sprintf("<shown %d>", s.n)) }

func prArgs(op Op, t, i int) (format gost.String, args []any, text string) {
	x := NewRand(uint64(op.a(1)) ^ uint64(t*1000+i))
	mark := fmt.Sprintf("[%d.%d]", t, i)
	var f, e strings.Builder
	f.WriteString(mark)
	e.WriteString(mark)
	words := []string{"lorem", " ", "ipsum ", "é", "日本", "\t", "x=", ", ", "a\nb", "%d", "%!s", "\\"}
	for n := int(op.a(0)); n > 0; n-- {
		switch x.N(11) {
		case 9:
			f.WriteString("{}")
			a, s := anyElem(x)
			args = append(args, a)
			e.WriteString(s)
		case 10:
			if x.N(4) != 0 {
				continue
			}
			f.WriteString("{}")
			v := gost.VecNew[gost.I32]()
			var ss []string
			for j, m := 0, x.N(4); j < m; j++ {
				v.Push(gost.I32(j - 1))
				ss = append(ss, fmt.Sprint(j-1))
			}
			args = append(args, v)
			e.WriteString("Vec[" + strings.Join(ss, ", ") + "]")
		case 0:
			f.WriteString("{}")
			v := int64(x.N(100000)) - 50000
			args = append(args, gost.ISize(v))
			fmt.Fprintf(&e, "%d", v)
		case 1:
			f.WriteString("{}")
			s := words[x.N(len(words))] + fmt.Sprint(x.N(1000))
			args = append(args, gost.String(s))
			e.WriteString(s)
		case 2:
			f.WriteString("{}")
			v := uint8(x.N(256))
			args = append(args, gost.U8(v))
			fmt.Fprintf(&e, "%d", v)
		case 3:
			f.WriteString("{}")
			b := x.Bool()
			args = append(args, gost.Bool(b))
			fmt.Fprintf(&e, "%v", b)
		case 4:
			f.WriteString("{{")
			e.WriteString("{")
			// an escaped brace is followed by text
			f.WriteString("_")
			e.WriteString("_")
		case 5:
			f.WriteString("_}}_")
			e.WriteString("_}_")
		case 6:
			f.WriteString("{}")
			v := int64(x.N(1000))
			args = append(args, shown{v})
			fmt.Fprintf(&e, "<shown %d>", v)
		default:
			w := words[x.N(len(words))]
			f.WriteString(w)
			e.WriteString(w)
		}
	}
	if n := int(op.a(2)); n > 0 {
		s := strings.Repeat(string(rune('A'+t%26)), n)
		f.WriteString("{}")
		args = append(args, gost.String(s))
		e.WriteString(s)
	}
	text = e.String()
	if op.K == "println" {
		text += "\n"
	}
	return gost.String(f.String()), args, text
}

func printBody(r *Run) {
	c, k := r.Case, r.K
	k.ioMax = int(c.p("iomax"))
	n := len(c.Prog.T)
	st := &prOut{want: make([][]string, n), done: make([]int, n), cur: make([]int, n)}
	for t, ops := range c.Prog.T {
		i := 0
		for _, op := range ops {
			if op.K != "yield" {
				_, _, text := prArgs(op, t, i)
				st.want[t] = append(st.want[t], text)
				i++
			}
		}
	}
	r.X = st
	runThreads(r, func(t int, ops []Op) {
		i := 0
		for _, op := range ops {
			if op.K == "yield" {
				yields(op.a(0))
				continue
			}
			f, args, text := prArgs(op, t, i)
			st.cur[t]++
			if op.K == "println" {
				gost.Println(f, args...)
			} else {
				gost.Print(f, args...)
			}
			st.done[t]++
			r.op(op.K)
			if !strings.Contains(string(k.Stdout), text) {
				r.fail("lost", "thread %d: %s has returned, but its text %q is not whole in the output", t, op.K, trunc([]byte(text)))
			}
			i++
		}
	})
}

// printVerdict: the output is the texts of the calls, each in one piece, each
// thread's in its order. After a crash the last piece may be cut short, and
// only calls that had not returned may be missing.
func printVerdict(r *Run) {
	st, ok := r.X.(*prOut)
	if !ok || r.Vio != nil {
		return
	}
	out := string(r.K.Stdout)
	next := make([]int, len(st.want))
	pos := 0
	for pos < len(out) {
		hit := false
		for t := range next {
			if next[t] < len(st.want[t]) && strings.HasPrefix(out[pos:], st.want[t][next[t]]) {
				pos += len(st.want[t][next[t]])
				next[t]++
				hit = true
				break
			}
		}
		if hit {
			continue
		}
		if r.crashed {
			cut := false
			for t := range next {
				if next[t] < st.cur[t] && strings.HasPrefix(st.want[t][next[t]], out[pos:]) {
					cut = true
				}
			}
			if cut {
				break
			}
		}
		end := pos + 60
		if end > len(out) {
			end = len(out)
		}
		var w []string
		for t := range next {
			if next[t] < len(st.want[t]) {
				w = append(w, fmt.Sprintf("%q", trunc([]byte(st.want[t][next[t]]))))
			}
		}
		r.fail("torn", "the output is not made of whole calls in their threads' order: at byte %d it continues %q, the next calls are %s", pos, out[pos:end], strings.Join(w, ", "))
		return
	}
	for t := range next {
		if next[t] < st.done[t] {
			r.fail("lost", "thread %d: %d calls had returned, the output has only %d of them", t, st.done[t], next[t])
		}
	}
}

func init() {
	reg(&Scenario{Prop: "P13", Name: "readline", Weight: 1,
		Gen: func(r *Rand, c *Case) {
			var ls []Op
			crlf := int64(r.N(3))
			for i, n := 0, r.Pick(0, 1, 2, 5, 10, r.Many(15, 20, 300)); i < n; i++ {
				size := int64(r.Pick(0, 3, 5, 10, 30, 80))
				if r.P(1, 40) {
					size = int64(r.Pick(255, 256, 257, 1000))
					if r.P(1, 3) {
						size = int64(r.Pick(4095, 4096, 4097, 5000, 65536, 70000))
					}
				}
				cr := int64(0)
				if crlf == 1 || crlf == 2 && r.Bool() {
					cr = 1
				}
				if r.P(1, 12) {
					cr = 2
				}
				ls = append(ls, Op{K: "line", A: []int64{size, int64(r.N(1000)), int64(i), cr}})
			}
			c.thread(ls...)
			for t, nt := 0, r.Many(1, 5, 60); t < nt; t++ {
				var ops []Op
				for i, m := 0, r.Many(1, 6, 100); i < m; i++ {
					ops = append(ops, Op{K: r.PickS("readline", "readline", "readline", "clear", "yield"), A: []int64{int64(r.N(6))}})
				}
				c.thread(ops...)
			}
			c.set("max", int64(r.Pick(0, 0, 1, 3, 100)))
			c.set("chunk", int64(r.Pick(0, 0, 1, 7, 100)))
			c.set("unterminated", int64(r.N(2)))
			c.set("interactive", int64(r.N(2)))
			c.genFaults(r, "EINTR", "short", "delay")
			c.MaxSteps = 8_000_000
		},
		Body: stdinBody})
	pr := func(name string, w int, crash bool) {
		reg(&Scenario{Prop: "P14", Name: name, Weight: w,
			Gen: func(r *Rand, c *Case) {
				for t, nt := 0, r.Many(1, 5, 60); t < nt; t++ {
					var ops []Op
					for i, m := 0, r.Many(1, 6, 100); i < m; i++ {
						big := int64(0)
						if r.P(1, 15) {
							big = int64(r.Pick(100, 1024, 4095, 4096, 4097, 9000, 65536))
						}
						ops = append(ops, Op{K: r.PickS("println", "println", "print"), A: []int64{int64(r.Pick(0, 1, 3, 8)), int64(r.N(1000)), big}})
						if r.P(1, 6) {
							ops = append(ops, Op{K: "yield", A: []int64{int64(r.N(10))}})
						}
					}
					c.thread(ops...)
				}
				c.set("iomax", int64(r.Pick(0, 0, 1, 5, 100, 4096)))
				if crash {
					c.Faults = FaultPlan{Mode: "seed", Rate: r.Pick(20, 60, 150), Max: 3, Kinds: []string{"crash", "crashmid", "short", "delay"}}
				} else {
					c.genFaults(r, "EINTR", "short", "delay")
				}
				c.MaxSteps = 6_000_000
			},
			Body:  printBody,
			After: func(r *Run, reason int) { printVerdict(r) },
			Crash: printVerdict})
	}
	pr("print", 5, false)
	pr("print-crash", 2, true)
}
