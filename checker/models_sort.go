package main

import (
	"go/types"
)

// Sorting of short lists (insertion sort over the program's own order, every comparison with both results) and byte buffers.

const maxSort = 5

// sortList sorts the n elements: less(st,i,j) is the comparison, swap exchanges two elements.
func (e *Engine) sortList(c *callCtx, n int64, less, swap func(st *State, i, j int64) []Outcome) []Outcome {
	var outs []Outcome
	pin := len(e.pinned)
	e.pinned = append(e.pinned, c.args...)
	var step func(st *State, i, j int64)
	step = func(st *State, i, j int64) {
		if i >= n {
			outs = append(outs, Outcome{st: st})
			return
		}
		if j == 0 {
			step(st, i+1, i+1)
			return
		}
		for _, o := range less(st, j, j-1) {
			if o.panic {
				outs = append(outs, o)
				continue
			}
			for _, b := range splitBool([]Outcome{o}, func(o Outcome) *Term { return o.res }) {
				if !b.val {
					step(b.st, i+1, i+1)
					continue
				}
				for _, s := range swap(b.st, j, j-1) {
					if s.panic {
						outs = append(outs, s)
						continue
					}
					step(s.st, i, j-1)
				}
			}
		}
	}
	step(c.st, 1, 1)
	e.pinned = e.pinned[:pin]
	return outs
}

func (e *Engine) swapIn(v *Term) func(st *State, i, j int64) []Outcome {
	return func(st *State, i, j int64) []Outcome {
		s := e.seqOf(st, v)
		x, y := seqSel(s, ci(i)), seqSel(s, ci(j))
		e.writeSeq(st, v, ci(i), mkList([]*Term{y}, false))
		e.writeSeq(st, v, ci(j), mkList([]*Term{x}, false))
		return []Outcome{{st: st}}
	}
}

func init() {
	sortIface := func(e *Engine, c *callCtx) []Outcome {
		it, ok := c.sig.Params().At(0).Type().Underlying().(*types.Interface)
		if !ok || c.args[0].op != "iface" {
			return e.opaque(c)
		}
		x := c.args[0]
		method := func(name string, st *State, args ...*Term) []Outcome {
			for i := 0; i < it.NumMethods(); i++ {
				if m := it.Method(i); m.Name() == name {
					cc := *c
					cc.st, cc.args, cc.sig = st, append([]*Term{x}, args...), m.Type().(*types.Signature)
					return e.invoke(&cc, x, m, it)
				}
			}
			return nil
		}
		l := method("Len", c.st)
		if len(l) != 1 || l[0].panic {
			return e.opaque(c)
		}
		n, ok := constInt(l[0].res)
		if !ok || n > maxSort {
			c.st = l[0].st
			return e.opaque(c)
		}
		c.st = l[0].st
		return e.sortList(c, n, func(st *State, i, j int64) []Outcome { return method("Less", st, ci(i), ci(j)) },
			func(st *State, i, j int64) []Outcome { return method("Swap", st, ci(i), ci(j)) })
	}
	reg("sort.Sort", sortIface)
	reg("sort.Stable", sortIface)
	closure := func(elems bool) Model {
		return func(e *Engine, c *callCtx) []Outcome {
			v, f := c.args[0], c.args[1]
			if v.op == "iface" {
				v = v.a[0]
			}
			if f.fn == nil || v.op != "slice" && v.op != "nil" {
				return e.opaque(c)
			}
			n, ok := constInt(seqLen(e.seqOf(c.st, v)))
			if !ok || n > maxSort {
				return e.opaque(c)
			}
			return e.sortList(c, n, func(st *State, i, j int64) []Outcome {
				if !elems {
					return e.callFrom(c, st, f.fn, []*Term{ci(i), ci(j)}, f.a)
				}
				s := e.seqOf(st, v)
				outs := e.callFrom(c, st, f.fn, []*Term{seqSel(s, ci(i)), seqSel(s, ci(j))}, f.a)
				for k, o := range outs {
					if !o.panic {
						outs[k].res = bnot(mkGe0(o.res))
					}
				}
				return outs
			}, e.swapIn(v))
		}
	}
	reg("sort.Slice", closure(false))
	reg("sort.SliceStable", closure(false))
	reg("slices.SortFunc", closure(true))
	reg("slices.SortStableFunc", closure(true))

	for _, T := range []string{"bytes.Buffer", "strings.Builder"} {
		T := "(*" + T + ")."
		get := func(e *Engine, c *callCtx) *Term {
			if v := e.load(c.st, c.args[0]); v.op == "buf" {
				return v.a[0]
			} else if v.op != "struct" && v.op != "zero" && v.op != "nil" {
				return mk("bufcontent", "", KSeq, 0, v)
			}
			return tEmpty
		}
		set := func(e *Engine, c *callCtx, s *Term) { e.store(c.st, c.args[0], mk("buf", "", KVal, 0, s)) }
		write := func(n int, data func(e *Engine, c *callCtx) *Term) Model {
			return func(e *Engine, c *callCtx) []Outcome {
				d := data(e, c)
				set(e, c, seqCat(get(e, c), d))
				if n == 1 {
					return ret(c, tNil)
				}
				return ret(c, seqLen(d), tNil)
			}
		}
		arg := func(e *Engine, c *callCtx) *Term { return e.seqOf(c.st, c.args[1]) }
		reg(T+"Write", write(2, arg))
		reg(T+"WriteString", write(2, arg))
		reg(T+"WriteByte", write(1, func(e *Engine, c *callCtx) *Term { return mkList([]*Term{c.args[1]}, true) }))
		reg(T+"Len", func(e *Engine, c *callCtx) []Outcome { return ret(c, seqLen(get(e, c))) })
		reg(T+"String", func(e *Engine, c *callCtx) []Outcome { return ret(c, get(e, c)) })
		reg(T+"Bytes", func(e *Engine, c *callCtx) []Outcome { return ret(c, e.newSlice(c.st, siteOf(c.in()), get(e, c))) })
		reg(T+"Reset", func(e *Engine, c *callCtx) []Outcome { set(e, c, tEmpty); return ret(c) })
		reg(T+"Grow", func(e *Engine, c *callCtx) []Outcome { return ret(c) })
	}
	for _, n := range []string{"bytes.NewBuffer", "bytes.NewBufferString"} {
		reg(n, func(e *Engine, c *callCtx) []Outcome {
			return ret(c, e.newPtr(c.st, siteOf(c.in()), mk("buf", "", KVal, 0, e.seqOf(c.st, c.args[0]))))
		})
	}
}
