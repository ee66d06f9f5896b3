package main

import (
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// iso merges two states that agree up to the names (and spare capacities) of objects allocated after they split.
type iso struct {
	p, q *State
	obj  map[*Term]*Term // p's object -> q's object
	inv  map[*Term]*Term
	mem  map[*Term]*Term // merged contents, by q's name
	n    int
}

func newIso(p, q *State) *iso {
	return &iso{p: p, q: q, obj: map[*Term]*Term{}, inv: map[*Term]*Term{}, mem: map[*Term]*Term{}}
}

func (u *iso) bind(a, b *Term) bool {
	if o, ok := u.obj[a]; ok {
		return o == b
	}
	if o, ok := u.inv[b]; ok {
		return o == a
	}
	if a != b {
		if len(a.a) == 0 || len(b.a) == 0 || a.a[0].op != "alloc" || b.a[0].op != "alloc" || a.typ != b.typ && tstrN(a) != tstrN(b) {
			return false
		}
		if _, ok := u.q.mem[a]; ok {
			return false
		}
		if _, ok := u.p.mem[b]; ok {
			return false
		}
	}
	u.obj[a], u.inv[b] = b, a
	if a.a[0].op != "alloc" {
		return true // shared contents are compared separately
	}
	ca, cb := u.p.content(a), u.q.content(b)
	m, ok := u.val(ca, cb)
	if !ok {
		return false
	}
	u.mem[b] = m
	return true
}

func tstrN(o *Term) string {
	if o.typ == nil {
		return ""
	}
	return tstr(o.typ)
}

func (u *iso) val(a, b *Term) (*Term, bool) {
	if a == nil || b == nil {
		return a, a == b
	}
	oa, ob := objsIn(a), objsIn(b)
	if len(oa) != len(ob) {
		return nil, false
	}
	if len(oa) == 0 {
		if a == b {
			return a, true
		}
		na, nb := u.p.norm(a), u.q.norm(b)
		return na, na == nb
	}
	if a == b {
		for _, o := range oa {
			if !u.bind(o, o) {
				return nil, false
			}
		}
		return a, true
	}
	if a.op != b.op || a.s != b.s || len(a.a) != len(b.a) {
		return nil, false
	}
	if a.op == "obj" {
		if !u.bind(a, b) {
			return nil, false
		}
		return b, true
	}
	na := make([]*Term, len(a.a))
	for i := range a.a {
		if a.op == "slice" && i == 3 {
			break
		}
		m, ok := u.val(a.a[i], b.a[i])
		if !ok {
			return nil, false
		}
		na[i] = m
	}
	if a.op == "slice" {
		na[3] = a.a[3]
		if a.a[3] != b.a[3] {
			u.n++
			na[3] = mk("cap", "", KInt, 0, mk("seqid", "join"+strconv.Itoa(u.q.fresh("capjoin")), KSeq, 0, mk("fixed", "", KSeq, 0, na[2], a.a[3], b.a[3])))
		}
	}
	return rebuild(b, na), true
}

// merge finishes: both states renamed so that mergeStates can join them.
func (u *iso) merge() *State {
	for o, c := range u.p.mem {
		if _, done := u.obj[o]; done && o.a[0].op == "alloc" {
			continue
		}
		d, ok := u.q.mem[o]
		if !ok {
			if o.a[0].op == "alloc" {
				continue
			}
			d = u.q.content(o)
		}
		if c == d && len(objsIn(c)) == 0 {
			continue
		}
		m, ok := u.val(c, d)
		if !ok {
			return nil
		}
		u.mem[o] = m
	}
	for o, d := range u.q.mem {
		if _, ok := u.p.mem[o]; ok || o.a[0].op == "alloc" {
			continue
		}
		c := u.p.content(o)
		if c == d {
			continue
		}
		m, ok := u.val(c, d)
		if !ok {
			return nil
		}
		u.mem[o] = m
	}
	p2, q2 := u.p.clone(), u.q.clone()
	ren := false
	for a, b := range u.obj {
		if a != b {
			delete(p2.mem, a)
			ren = true
		}
	}
	for b, m := range u.mem {
		p2.mem[b] = m
		q2.mem[b] = m
	}
	if ren {
		for f := range p2.facts {
			for _, o := range objsIn(f) {
				if n, ok := u.obj[o]; ok && n != o {
					delete(p2.facts, f)
					break
				}
			}
		}
	}
	return mergeStates(q2, p2, nil)
}

// isoEnv tries to merge two paths; it returns nil when they differ in more than names.
func isoEnv(p, q *path, live map[ssa.Value]bool) *path {
	if p.st.ev != q.st.ev && !sameEvents(p.st.ev, q.st.ev) {
		return nil
	}
	u := newIso(p.st, q.st)
	merged := map[ssa.Value]*Term{}
	for v := range live {
		a, b := p.env[v], q.env[v]
		if a == nil || b == nil {
			if a != b {
				return nil
			}
			continue
		}
		m, ok := u.val(a, b)
		if !ok {
			return nil
		}
		if m != b {
			merged[v] = m
		}
	}
	st := u.merge()
	if st == nil {
		return nil
	}
	n := &path{st, q.env}
	if len(merged) > 0 {
		n.env = make(map[ssa.Value]*Term, len(q.env))
		for k, v := range q.env {
			n.env[k] = v
		}
		for k, v := range merged {
			n.env[k] = v
		}
	}
	return n
}
