package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// extReader analyses the interpretation of the extensions of a parsed certificate.
type extReader struct {
	*certReader
	ia5, labels, mailbox, masks, usages map[*ssa.Function]bool
	cert                                *Term // the certificate before
	self                                *ssa.Function
}

// extEffects is what a sequence of extensions does to the certificate.
type extEffects struct {
	set map[string]func(st *State, got *Term) bool
	app map[string][]*Term // lists appended to
}

func (x extEffects) with(name string, f func(st *State, got *Term) bool) extEffects {
	y := x.copy()
	y.set[name] = f
	return y
}

func (x extEffects) add(name string, v ...*Term) extEffects {
	y := x.copy()
	y.app[name] = append(append([]*Term{}, y.app[name]...), v...)
	return y
}

func (x extEffects) copy() extEffects {
	y := extEffects{map[string]func(*State, *Term) bool{}, map[string][]*Term{}}
	for k, v := range x.set {
		y.set[k] = v
	}
	for k, v := range x.app {
		y.app[k] = v
	}
	return y
}

// extIn is one extension under analysis.
type extIn struct {
	id, critical, value *Term
}

// extCase is a kind of extension in a given shape: prep fixes the shape, tree gives the cases.
type extCase struct {
	name string
	id   *Term                        // nil: any identifier that has no meaning, of a length other than four
	ids  func(st *State, i int) *Term // or such an identifier
	prep func(k *extReader, st *State, v *Term)
	tree func(k *extReader, x extIn, eff extEffects, next func(eff extEffects, unhandled bool) []*specAlt) []*specAlt
}

var appended = []string{"CRLDistributionPoints", "OCSPServer", "IssuingCertificateURL", "UnhandledCriticalExtensions"}

func labelsOK(s *Term) *Term  { return mk("labels.ok", "", KBool, 0, s) }
func mailboxOK(s *Term) *Term { return mk("mailbox.ok", "", KBool, 0, s) }
func ia5OK(s *Term) *Term     { return mk("ia5.ok", "", KBool, 0, s) }

// maskOK is about the bytes of s from i to n.
func maskOK(s *Term, i, n int64) *Term {
	var bs []*Term
	for ; i < n; i++ {
		bs = append(bs, seqSel(s, ci(i)))
	}
	return mk("mask.ok", "", KBool, 0, bs...)
}

func newExtReader(c *Ctx) *extReader {
	cr := newCertReader(c)
	if cr == nil {
		return nil
	}
	set := func() map[*ssa.Function]bool { return map[*ssa.Function]bool{} }
	k := &extReader{certReader: cr, ia5: set(), labels: set(), mailbox: set(), masks: set(), usages: set()}
	e := k.e
	e.knownLists, e.freezeElems, e.noMerge, e.maxPaths = true, true, true, 4000
	e.cbTags = map[*Term]*Term{}
	next := e.callHook
	e.callHook = func(f *ssa.Function, st *State, args []*Term) []Outcome {
		if f == k.self {
			return nil
		}
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/x509" || f.Signature.Params().Len() != 1 || len(args) != 1 {
			return next(f, st, args)
		}
		p, r := f.Signature.Params(), f.Signature.Results()
		pt := tstr(p.At(0).Type())
		res := func(i int) string { return tstr(r.At(i).Type()) }
		switch {
		case pt == "string" && r.Len() == 1 && res(0) == "error" && k.use(k.ia5, f):
			return fork2(st, "ia5", ia5OK(specSeq(args[0])), func(st *State) []*Term { return nil }, 1)
		case pt == "string" && r.Len() == 2 && res(0) == "[]string" && res(1) == "bool" && k.use(k.labels, f):
			s := specSeq(args[0])
			return []Outcome{{st: st, res: mk("tuple", "", KVal, 0, mkTyped("labels", "", r.At(0).Type(), s), labelsOK(s))}}
		case pt == "string" && r.Len() == 2 && structType(r.At(0).Type()) != nil && res(1) == "bool" && k.use(k.mailbox, f):
			s := specSeq(args[0])
			return []Outcome{{st: st, res: mk("tuple", "", KVal, 0, mkTyped("mailbox", "", r.At(0).Type(), s), mailboxOK(s))}}
		case isByteSlice(p.At(0).Type()) && r.Len() == 1 && res(0) == "bool" && k.use(k.masks, f):
			s := e.seqOf(st, args[0])
			var outs []Outcome
			for _, n := range []int64{4, 16} {
				is := mkEqInt(seqLen(s), ci(n))
				if st2 := st.clone(); st2.eval(is) != tFalse && st2.assume(is) {
					outs = append(outs, Outcome{st: st2, res: maskOK(st2.pin(s), 0, n)})
				}
				if !st.assume(bnot(is)) {
					return outs
				}
			}
			return append(outs, Outcome{st: st, res: mk("mask.ok", "seq", KBool, 0, s)})
		case pt == "encoding/asn1.ObjectIdentifier" && r.Len() == 2 && res(1) == "bool" && res(0) == modPath+"/x509.ExtKeyUsage" && k.use(k.usages, f):
			s := e.seqOf(st, args[0])
			return []Outcome{{st: st, res: mk("tuple", "", KVal, 0, usageTerm(s), usageOK(s))}}
		}
		return next(f, st, args)
	}
	k.settle()
	return k
}

func usageTerm(oid *Term) *Term { return mk("extusage", "", KInt, 0, oid) }
func usageOK(oid *Term) *Term   { return mk("extusage.ok", "", KBool, 0, oid) }

func (k *extReader) bytesAt(st *State, x *Term) *Term {
	if x.k == KSeq {
		return specSeq(x)
	}
	return k.e.seqOf(st, x)
}

// ---- what a field must be

func (k *extReader) isInt(want *Term) func(st *State, got *Term) bool {
	return func(st *State, got *Term) bool { return st.eval2(mkEqInt(got, want)) == tTrue }
}

func (k *extReader) isBool(want *Term) func(st *State, got *Term) bool {
	return func(st *State, got *Term) bool {
		g, w := st.eval2(got), st.eval2(want)
		return g == w || st.norm(g) == st.norm(w)
	}
}

func (k *extReader) isBytes(want *Term) func(st *State, got *Term) bool {
	return func(st *State, got *Term) bool { return sameSeq(st, k.bytesAt(st, got), want) }
}

func (k *extReader) isList(want []*Term, same func(st *State, got, want *Term) bool) func(st *State, got *Term) bool {
	return func(st *State, got *Term) bool {
		l := k.e.seqOf(st, got)
		n, ok := constInt(st.norm(seqLen(l)))
		if !ok || n != int64(len(want)) {
			return false
		}
		for i, w := range want {
			if !same(st, seqSel(l, ci(int64(i))), w) {
				return false
			}
		}
		return true
	}
}

func (k *extReader) sameBytes(st *State, got, want *Term) bool {
	return sameSeq(st, k.bytesAt(st, got), want)
}

func sameTerm(st *State, got, want *Term) bool { return st.norm(got) == st.norm(want) }

// fixed gives the list at the start of s n elements.
func fixed(st *State, s *Term, n int) (at []*Term) {
	for i := 0; i < n; i++ {
		st.assume(bnot(empty(s)))
		at = append(at, s)
		s = after(s)
	}
	st.assume(empty(s))
	return
}

func elements(s *Term, n int) (at []*Term) {
	for i := 0; i < n; i++ {
		at = append(at, s)
		s = after(s)
	}
	return
}

func one(a *specAlt) []*specAlt { return []*specAlt{a} }

func oid29(n int64) *Term { return oidTerm(2, 5, 29, n) }

// ---- the kinds of extensions

func keyUsageCase() extCase {
	return extCase{name: "key usage", id: oid29(15), tree: func(k *extReader, x extIn, eff extEffects, next func(extEffects, bool) []*specAlt) []*specAlt {
		bits := mkTyped("cb.get", "ReadASN1BitString", k.c.libType("encoding/asn1", "BitString"), x.value)
		eff = eff.with("KeyUsage", func(st *State, got *Term) bool {
			want := int64(0)
			for i := int64(0); i < 9; i++ {
				switch st.eval2(mkEq0(pure("(encoding/asn1.BitString).At", types.Typ[types.Int], bits, ci(i)))) {
				case tTrue:
				case tFalse:
					want |= 1 << i
				default:
					return false
				}
			}
			return st.eval2(mkEqInt(got, ci(want))) == tTrue
		})
		return one(&specAlt{conds: []*Term{cbOK("ASN1BitString", x.value)}, names: []string{"a BIT STRING"}, next: func() []*specAlt { return next(eff, false) }})
	}}
}

func basicConstraintsCase() extCase {
	return extCase{name: "basic constraints", id: oid29(19), tree: func(k *extReader, x extIn, eff extEffects, next func(extEffects, bool) []*specAlt) []*specAlt {
		s := cbVal(x.value)
		path := func(s, ca *Term) []*specAlt {
			done := func(n *Term) func() []*specAlt {
				return func() []*specAlt {
					return next(eff.with("IsCA", k.isBool(ca)).with("MaxPathLen", k.isInt(n)).with("BasicConstraintsValid", k.isBool(tTrue)).with("MaxPathLenZero", k.isBool(mkEq0(n))), false)
				}
			}
			has := mkAnd(bnot(empty(s)), present(s, 2))
			return []*specAlt{
				{name: "no path length", disc: []*Term{bnot(has)}, next: done(ci(-1))},
				{name: "a path length", disc: []*Term{has}, conds: []*Term{cbOK("Integer", s, cbInt)}, names: []string{"an INTEGER"}, next: done(mk("cb.int", "*int", KInt, 0, s))},
			}
		}
		return one(&specAlt{conds: []*Term{okASN1(x.value, 48)}, names: []string{"a SEQUENCE"}, next: func() []*specAlt {
			return []*specAlt{
				{name: "no cA", disc: []*Term{bnot(present(s, 1))}, next: func() []*specAlt { return path(s, tFalse) }},
				{name: "cA", disc: []*Term{present(s, 1)}, conds: []*Term{cbOK("ASN1Boolean", s)}, names: []string{"a BOOLEAN"},
					next: func() []*specAlt {
						return path(after(s), mkTyped("cb.get", "ReadASN1Boolean", types.Typ[types.Bool], s))
					}},
			}
		}})
	}}
}

// sanCase: alternative names with the given tags.
func sanCase(tags ...int64) extCase {
	return extCase{name: fmt.Sprintf("alternative names %x", tags), id: oid29(17),
		prep: func(k *extReader, st *State, v *Term) {
			for i, s := range fixed(st, cbVal(v), len(tags)) {
				k.e.cbTags[s] = ci(tags[i])
			}
		},
		tree: func(k *extReader, x extIn, eff extEffects, next func(extEffects, bool) []*specAlt) []*specAlt {
			type lists struct{ dns, email, ip, uri []*Term }
			at := elements(cbVal(x.value), len(tags))
			urlT, errT := types.NewPointer(k.c.libType("net/url", "URL")), types.Universe.Lookup("error").Type()
			pair := types.NewTuple(types.NewVar(0, nil, "", urlT), types.NewVar(0, nil, "", errT))
			add := func(l []*Term, t *Term) []*Term { return append(l[:len(l):len(l)], t) }
			var names func(i int, l lists) []*specAlt
			names = func(i int, l lists) []*specAlt {
				if i == len(tags) {
					eff := eff.with("DNSNames", k.isList(l.dns, k.sameBytes)).with("EmailAddresses", k.isList(l.email, k.sameBytes)).with("IPAddresses", k.isList(l.ip, k.sameBytes)).with("URIs", k.isList(l.uri, sameTerm))
					return next(eff, len(l.dns)+len(l.email)+len(l.ip)+len(l.uri) == 0)
				}
				s := at[i]
				v := cbVal(s)
				a := &specAlt{name: fmt.Sprintf("name %d", i+1), conds: []*Term{cbOK("Any", s)}, names: []string{"a name"}}
				switch tags[i] {
				case 0x81:
					l.email = add(l.email, v)
					a.conds, a.names = append(a.conds, ia5OK(v)), append(a.names, "an IA5String as mail address")
				case 0x82:
					l.dns = add(l.dns, v)
					a.conds, a.names = append(a.conds, ia5OK(v)), append(a.names, "an IA5String as DNS name")
				case 0x86:
					p := pure("net/url.Parse", pair, v)
					l.uri = add(l.uri, p.a[0])
					a.conds, a.names = append(a.conds, ia5OK(v), mkIsNil(p.a[1])), append(a.names, "an IA5String as URI", "a URI")
					a.next = func() []*specAlt {
						h, _ := k.e.field(newState(), p.a[0], urlT, "Host")
						host := specSeq(h)
						return []*specAlt{
							{name: "no host", disc: []*Term{empty(host)}, next: func() []*specAlt { return names(i+1, l) }},
							{name: "a host", disc: []*Term{bnot(empty(host))}, conds: []*Term{labelsOK(host)}, names: []string{"a domain as host"}, next: func() []*specAlt { return names(i+1, l) }},
						}
					}
					return one(a)
				case 0x87:
					l.ip = add(l.ip, v)
					a.conds, a.names = append(a.conds, mkOr2(mkEqInt(seqLen(v), ci(4)), mkEqInt(seqLen(v), ci(16)))), append(a.names, "4 or 16 bytes of address")
				}
				a.next = func() []*specAlt { return names(i+1, l) }
				return one(a)
			}
			return one(&specAlt{conds: []*Term{okASN1(x.value, 48)}, names: []string{"a SEQUENCE"}, next: func() []*specAlt { return names(0, lists{}) }})
		}}
}

// nameConstraintsCase: subtrees with the given tags; nil: absent.
func nameConstraintsCase(permitted, excluded []int64) extCase {
	at := func(v *Term) (p, x, end *Term) {
		s := cbVal(v)
		if permitted != nil {
			p, s = s, after(s)
		}
		if excluded != nil {
			x, s = s, after(s)
		}
		return p, x, s
	}
	show := func(t []int64) string {
		if t == nil {
			return "absent"
		}
		return fmt.Sprintf("%x", t)
	}
	return extCase{name: "name constraints permitted " + show(permitted) + " excluded " + show(excluded), id: oid29(30),
		prep: func(k *extReader, st *State, v *Term) {
			s := cbVal(v)
			for i, l := range [][]int64{permitted, excluded} {
				tg := []int64{0xa0, 0xa1}[i]
				if l == nil {
					st.assume(bnot(present(s, tg)))
					continue
				}
				st.assume(present(s, tg))
				for j, b := range fixed(st, cbVal(s), len(l)) {
					k.e.cbTags[cbVal(b)] = ci(l[j])
				}
				s = after(s)
			}
		},
		tree: func(k *extReader, x extIn, eff extEffects, next func(extEffects, bool) []*specAlt) []*specAlt {
			ipT := types.NewPointer(k.c.libType("net", "IPNet"))
			p, ex, end := at(x.value)
			a := &specAlt{conds: []*Term{okASN1(x.value, 48), empty(after(x.value))}, names: []string{"a SEQUENCE", "nothing after it"}}
			add := func(n string, t *Term) { a.conds, a.names = append(a.conds, t), append(a.names, n) }
			if p != nil {
				add("well-formed permitted subtrees", okASN1(p, 0xa0))
			}
			if ex != nil {
				add("well-formed excluded subtrees", okASN1(ex, 0xa1))
			}
			add("nothing after the subtrees", empty(end))
			add("a subtree", cbool(len(permitted)+len(excluded) > 0))
			unhandled := false
			type lists struct{ dns, ip, email, uri []*Term }
			push := func(l []*Term, t *Term) []*Term { return append(l[:len(l):len(l)], t) }
			sameNet := func(st *State, got, want *Term) bool {
				n := seqLen(want)
				half := int64(4)
				if st.entails(mkEqInt(n, ci(32))) {
					half = 16
				} else if !st.entails(mkEqInt(n, ci(8))) {
					return false
				}
				ip, _ := k.e.field(st, got, ipT, "IP")
				mask, _ := k.e.field(st, got, ipT, "Mask")
				return ip != nil && mask != nil && sameSeq(st, st.pin(k.bytesAt(st, ip)), st.pin(seqSub(want, tZero, ci(half)))) && sameSeq(st, st.pin(k.bytesAt(st, mask)), st.pin(seqSub(want, ci(half), ci(2*half))))
			}
			var walk func(base []*Term, tags []int64, i int, l lists, done func(l lists) []*specAlt) []*specAlt
			walk = func(base []*Term, tags []int64, i int, l lists, done func(l lists) []*specAlt) []*specAlt {
				if i == len(base) {
					return done(l)
				}
				b := cbVal(base[i])
				v := cbVal(b)
				a := &specAlt{name: fmt.Sprintf("subtree %d", i+1), conds: []*Term{okASN1(base[i], 48), cbOK("Any", b)}, names: []string{"a SEQUENCE as subtree", "a base"}}
				add := func(n string, t *Term) { a.conds, a.names = append(a.conds, t), append(a.names, n) }
				rest := func() []*specAlt { return walk(base, tags, i+1, l, done) }
				a.next = rest
				domain := func(name string) []*specAlt {
					dot := mkAnd(mkGe0(iSub(seqLen(v), tOne)), mkEqInt(seqSel(v, tZero), ci('.')))
					return []*specAlt{
						{name: "leading dot", disc: []*Term{dot}, conds: []*Term{labelsOK(seqSub(v, tOne, seqLen(v)))}, names: []string{"a domain after the dot as " + name}, next: rest},
						{name: "no leading dot", disc: []*Term{bnot(dot)}, conds: []*Term{labelsOK(v)}, names: []string{"a domain as " + name}, next: rest},
					}
				}
				switch tags[i] {
				case 0x82:
					l.dns = push(l.dns, v)
					add("an IA5String as DNS constraint", ia5OK(v))
					a.next = func() []*specAlt { return domain("DNS constraint") }
				case 0x87:
					l.ip = push(l.ip, v)
					v4, v6 := mkEqInt(seqLen(v), ci(8)), mkEqInt(seqLen(v), ci(32))
					add("8 or 32 bytes as address constraint", mkOr2(v4, v6))
					a.next = func() []*specAlt {
						return []*specAlt{
							{name: "IPv4", disc: []*Term{v4}, conds: []*Term{maskOK(v, 4, 8)}, names: []string{"an address mask"}, next: rest},
							{name: "IPv6", disc: []*Term{v6}, conds: []*Term{maskOK(v, 16, 32)}, names: []string{"an address mask"}, next: rest},
						}
					}
				case 0x81:
					l.email = push(l.email, v)
					add("an IA5String as mail constraint", ia5OK(v))
					box := pure("strings.Contains", types.Typ[types.Bool], v, cbytes("@"))
					a.next = func() []*specAlt {
						alts := domain("mail constraint")
						for _, d := range alts {
							d.disc = append(d.disc, bnot(box))
						}
						return append(alts, &specAlt{name: "mailbox", disc: []*Term{box}, conds: []*Term{mailboxOK(v)}, names: []string{"a mailbox as mail constraint"}, next: rest})
					}
				case 0x86:
					l.uri = push(l.uri, v)
					add("an IA5String as URI constraint", ia5OK(v))
					add("no address as URI constraint", mkIsNil(pure("net.ParseIP", k.c.libType("net", "IP"), v)))
					a.next = func() []*specAlt { return domain("URI constraint") }
				default:
					unhandled = true
				}
				return one(a)
			}
			set := func(eff extEffects, which string, l lists) extEffects {
				return eff.with(which+"DNSDomains", k.isList(l.dns, k.sameBytes)).with(which+"IPRanges", k.isList(l.ip, sameNet)).
					with(which+"EmailAddresses", k.isList(l.email, k.sameBytes)).with(which+"URIDomains", k.isList(l.uri, k.sameBytes))
			}
			var pb, eb []*Term
			if p != nil {
				pb = elements(cbVal(p), len(permitted))
			}
			if ex != nil {
				eb = elements(cbVal(ex), len(excluded))
			}
			a.next = func() []*specAlt {
				return walk(pb, permitted, 0, lists{}, func(pl lists) []*specAlt {
					return walk(eb, excluded, 0, lists{}, func(el lists) []*specAlt {
						return next(set(set(eff, "Permitted", pl), "Excluded", el).with("PermittedDNSDomainsCritical", k.isBool(x.critical)), unhandled)
					})
				})
			}
			return one(a)
		}}
}

// crlCase: distribution points; each is the number of URIs of its full name, or -1 without a name, and other: another kind of
// name follows.
func crlCase(points ...int) extCase {
	return extCase{name: fmt.Sprint("CRL distribution points ", points), id: oid29(31),
		prep: func(k *extReader, st *State, v *Term) {
			for i, s := range fixed(st, cbVal(v), len(points)) {
				d := cbVal(s)
				if points[i] < 0 {
					st.assume(bnot(present(d, 0xa0)))
					continue
				}
				st.assume(present(d, 0xa0))
				n := cbVal(cbVal(d))
				for j := 0; j < points[i]%100; j++ {
					st.assume(bnot(empty(n)))
					st.assume(present(n, 0x86))
					n = after(n)
				}
				if points[i] >= 100 {
					st.assume(bnot(empty(n)))
					st.assume(bnot(present(n, 0x86)))
				} else {
					st.assume(empty(n))
				}
			}
		},
		tree: func(k *extReader, x extIn, eff extEffects, next func(extEffects, bool) []*specAlt) []*specAlt {
			a := &specAlt{conds: []*Term{okASN1(x.value, 48)}, names: []string{"a SEQUENCE"}}
			add := func(n string, t *Term) { a.conds, a.names = append(a.conds, t), append(a.names, n) }
			for i, s := range elements(cbVal(x.value), len(points)) {
				d := cbVal(s)
				add("a distribution point", okASN1(s, 48))
				if points[i] < 0 {
					continue
				}
				add("a distribution point name", okASN1(d, 0xa0))
				add("a full name", okASN1(cbVal(d), 0xa0))
				for _, n := range elements(cbVal(cbVal(d)), points[i]%100) {
					add("a URI", okASN1(n, 0x86))
					eff = eff.add("CRLDistributionPoints", cbVal(n))
				}
			}
			a.next = func() []*specAlt { return next(eff, false) }
			return one(a)
		}}
}

func akiCase() extCase {
	return extCase{name: "authority key identifier", id: oid29(35), tree: func(k *extReader, x extIn, eff extEffects, next func(extEffects, bool) []*specAlt) []*specAlt {
		s := cbVal(x.value)
		return one(&specAlt{conds: []*Term{okASN1(x.value, 48)}, names: []string{"a SEQUENCE"}, next: func() []*specAlt {
			return []*specAlt{
				{name: "no identifier", disc: []*Term{bnot(present(s, 0x80))}, next: func() []*specAlt { return next(eff, false) }},
				{name: "an identifier", disc: []*Term{present(s, 0x80)}, conds: []*Term{okASN1(s, 0x80)}, names: []string{"a well-formed identifier"},
					next: func() []*specAlt { return next(eff.with("AuthorityKeyId", k.isBytes(cbVal(s))), false) }},
			}
		}})
	}}
}

func skiCase() extCase {
	return extCase{name: "subject key identifier", id: oid29(14), tree: func(k *extReader, x extIn, eff extEffects, next func(extEffects, bool) []*specAlt) []*specAlt {
		return one(&specAlt{conds: []*Term{okASN1(x.value, 4)}, names: []string{"an OCTET STRING"}, next: func() []*specAlt { return next(eff.with("SubjectKeyId", k.isBytes(cbVal(x.value))), false) }})
	}}
}

func ekuCase(n int) extCase {
	return extCase{name: fmt.Sprint("extended key usage, ", n), id: oid29(37),
		prep: func(k *extReader, st *State, v *Term) { fixed(st, cbVal(v), n) },
		tree: func(k *extReader, x extIn, eff extEffects, next func(extEffects, bool) []*specAlt) []*specAlt {
			at := elements(cbVal(x.value), n)
			var walk func(i int, known, unknown []*Term) []*specAlt
			walk = func(i int, known, unknown []*Term) []*specAlt {
				if i == n {
					return next(eff.with("ExtKeyUsage", k.isList(known, func(st *State, got, want *Term) bool { return st.eval2(mkEqInt(got, want)) == tTrue })).with("UnknownExtKeyUsage", k.isList(unknown, k.sameBytes)), false)
				}
				o := k.oid(at[i])
				return one(&specAlt{conds: []*Term{okOID(at[i])}, names: []string{"an object identifier"}, next: func() []*specAlt {
					return []*specAlt{
						{name: fmt.Sprint("known usage ", i+1), disc: []*Term{usageOK(o)}, next: func() []*specAlt { return walk(i+1, append(known[:len(known):len(known)], usageTerm(o)), unknown) }},
						{name: fmt.Sprint("unknown usage ", i+1), disc: []*Term{bnot(usageOK(o))}, next: func() []*specAlt { return walk(i+1, known, append(unknown[:len(unknown):len(unknown)], o)) }},
					}
				}})
			}
			return one(&specAlt{conds: []*Term{okASN1(x.value, 48)}, names: []string{"a SEQUENCE"}, next: func() []*specAlt { return walk(0, nil, nil) }})
		}}
}

func policiesCase(n int) extCase {
	return extCase{name: fmt.Sprint("policies, ", n), id: oid29(32),
		prep: func(k *extReader, st *State, v *Term) { fixed(st, cbVal(v), n) },
		tree: func(k *extReader, x extIn, eff extEffects, next func(extEffects, bool) []*specAlt) []*specAlt {
			a := &specAlt{conds: []*Term{okASN1(x.value, 48)}, names: []string{"a SEQUENCE"}}
			var oids []*Term
			for _, s := range elements(cbVal(x.value), n) {
				a.conds, a.names = append(a.conds, okASN1(s, 48), okOID(cbVal(s))), append(a.names, "a policy", "an object identifier")
				oids = append(oids, k.oid(cbVal(s)))
			}
			a.next = func() []*specAlt { return next(eff.with("PolicyIdentifiers", k.isList(oids, k.sameBytes)), false) }
			return one(a)
		}}
}

func aiaCase(n int) extCase {
	return extCase{name: fmt.Sprint("authority information access, ", n), id: oidTerm(1, 3, 6, 1, 5, 5, 7, 1, 1),
		prep: func(k *extReader, st *State, v *Term) { fixed(st, cbVal(v), n) },
		tree: func(k *extReader, x extIn, eff extEffects, next func(extEffects, bool) []*specAlt) []*specAlt {
			at := elements(cbVal(x.value), n)
			ocsp, issuers := oidTerm(1, 3, 6, 1, 5, 5, 7, 48, 1), oidTerm(1, 3, 6, 1, 5, 5, 7, 48, 2)
			var walk func(i int, eff extEffects) []*specAlt
			walk = func(i int, eff extEffects) []*specAlt {
				if i == n {
					return next(eff, false)
				}
				d := cbVal(at[i])
				m, loc := k.oid(d), after(d)
				return one(&specAlt{conds: []*Term{okASN1(at[i], 48), okOID(d)}, names: []string{"an access description", "an access method"}, next: func() []*specAlt {
					uri := present(loc, 0x86)
					is := func(o *Term) *Term { return mkEqSeq(m, o) }
					ok := []*Term{okASN1(loc, 0x86)}
					nm := []string{"a URI"}
					return []*specAlt{
						{name: "another location", disc: []*Term{bnot(uri)}, next: func() []*specAlt { return walk(i+1, eff) }},
						{name: "OCSP", disc: []*Term{uri, is(ocsp)}, conds: ok, names: nm, next: func() []*specAlt { return walk(i+1, eff.add("OCSPServer", cbVal(loc))) }},
						{name: "issuers", disc: []*Term{uri, is(issuers)}, conds: ok, names: nm, next: func() []*specAlt { return walk(i+1, eff.add("IssuingCertificateURL", cbVal(loc))) }},
						{name: "another method", disc: []*Term{uri, bnot(is(ocsp)), bnot(is(issuers))}, conds: ok, names: nm, next: func() []*specAlt { return walk(i+1, eff) }},
					}
				}})
			}
			return one(&specAlt{conds: []*Term{okASN1(x.value, 48)}, names: []string{"a SEQUENCE"}, next: func() []*specAlt { return walk(0, eff) }})
		}}
}

var knownExts = []*Term{oid29(15), oid29(19), oid29(17), oid29(30), oid29(31), oid29(35), oid29(37), oid29(14), oid29(32), oidTerm(1, 3, 6, 1, 5, 5, 7, 1, 1)}

// otherCase: an extension without a meaning here; id nil: any.
func otherCase(id *Term) extCase {
	name := "any other extension"
	if id != nil {
		name = "extension " + id.str(6)
	}
	return extCase{name: name, id: id, tree: func(k *extReader, x extIn, eff extEffects, next func(extEffects, bool) []*specAlt) []*specAlt {
		return next(eff, true)
	}}
}

// otherIDs divides the identifiers of four arcs that have no meaning: the first differing arc is at the given position.
func otherIDs(at int) extCase {
	x := otherCase(nil)
	x.name = fmt.Sprintf("any other identifier of four arcs, differing at %d", at)
	x.ids = func(st *State, i int) *Term {
		var arcs []*Term
		for j, known := range []int64{2, 5, 29} {
			a := sym(fmt.Sprintf("arc%d.%d", i, j), types.Typ[types.Int])
			switch {
			case j < at:
				a = ci(known)
			case j == at:
				st.assume(bnot(mkEqInt(a, ci(known))))
			}
			arcs = append(arcs, a)
		}
		a := sym(fmt.Sprintf("arc%d.3", i), types.Typ[types.Int])
		if at == 3 {
			for _, o := range knownExts {
				if n, _ := constInt(seqLen(o)); n == 4 {
					st.assume(bnot(mkEqInt(a, seqSel(o, ci(3)))))
				}
			}
		}
		return mkListT(append(arcs, a), types.Typ[types.Int])
	}
	return x
}

// run checks fn on a certificate with the extensions given.
func (k *extReader) run(fn *ssa.Function, cases ...extCase) {
	c, e := k.c, k.e
	k.self = fn
	defer func() { k.self = nil }()
	var xs []extIn
	var cert *Term
	name := ""
	_, args, outs, ok := c.analyseWith(e, fn, func(st *State, args []*Term) []*Term {
		xs = nil
		cert = expand(mkTyped("sym", "cert", k.certT), k.certT)
		for _, f := range appended {
			i := fieldIndex(k.certT, f)
			cert = setFld(cert, k.certT, i, zeroValue(structType(k.certT).Field(i).Type()))
		}
		var els []*Term
		for i, cs := range cases {
			x := extIn{id: cs.id, critical: mkTyped("sym", fmt.Sprint("critical", i), types.Typ[types.Bool]), value: specSeq(mkTyped("sym", fmt.Sprint("value", i), types.NewSlice(types.Typ[types.Byte])))}
			if x.id == nil {
				x.id = specSeq(mkTyped("sym", fmt.Sprint("id", i), k.c.libType("encoding/asn1", "ObjectIdentifier")))
				if cs.ids != nil {
					x.id = cs.ids(st, i)
				} else {
					st.assume(bnot(mkEqInt(seqLen(x.id), ci(4))))
				}
				for _, o := range knownExts {
					st.assume(bnot(mkEqSeq(x.id, o)))
				}
			}
			if cs.prep != nil {
				cs.prep(k, st, x.value)
			}
			v := zeroValue(k.extT)
			v = setFld(v, k.extT, 0, e.newSlice(st, fmt.Sprint("id", i), x.id))
			v = setFld(v, k.extT, 1, x.critical)
			v = setFld(v, k.extT, 2, e.newSlice(st, fmt.Sprint("value", i), x.value))
			els = append(els, v)
			xs = append(xs, x)
			name += fmt.Sprintf("[%s]", cs.name)
		}
		cert = setFld(cert, k.certT, fieldIndex(k.certT, "Extensions"), e.newSlice(st, "exts", mkListT(els, k.extT)))
		p := e.newPtr(st, "cert", cert)
		e.pinned = append(e.pinned, p)
		return []*Term{p}
	})
	e.pinned = nil
	if !ok {
		return
	}
	c.noPanic(e, fn, outs)
	leaves := map[*specAlt]extEffects{}
	var tree func(i int, eff extEffects) []*specAlt
	tree = func(i int, eff extEffects) []*specAlt {
		if i == len(cases) {
			a := &specAlt{}
			leaves[a] = eff
			return one(a)
		}
		x := xs[i]
		return cases[i].tree(k, x, eff, func(eff extEffects, unhandled bool) []*specAlt {
			if !unhandled {
				return tree(i+1, eff)
			}
			return []*specAlt{
				{name: "not critical", disc: []*Term{bnot(x.critical)}, next: func() []*specAlt { return tree(i+1, eff) }},
				{name: "critical", disc: []*Term{x.critical}, next: func() []*specAlt { return tree(i+1, eff.add("UnhandledCriticalExtensions", x.id)) }},
			}
		})
	}
	root := one(&specAlt{name: name, next: func() []*specAlt { return tree(0, extEffects{}) }})
	specCheck(c, fn, outs, root, func(o Outcome) *Term { return mkIsNil(o.res) }, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
		eff := leaves[leaf]
		got := e.load(st, args[0])
		sT := structType(k.certT)
		for i := 0; i < sT.NumFields(); i++ {
			n := sT.Field(i).Name()
			v := fld(got, k.certT, i)
			if f := eff.set[n]; f != nil {
				if !f(st, v) {
					return fmt.Sprintf("%s is not what the extension says: %s", n, e.snap(st, v).str(6)), false
				}
				continue
			}
			if l, ok := eff.app[n]; ok || isIn(n, appended) {
				if !k.isList(l, k.sameBytes)(st, v) {
					return fmt.Sprintf("%s is not what the extensions say: %s", n, e.snap(st, v).str(6)), false
				}
				continue
			}
			if v != fld(cert, k.certT, i) && st.norm(v) != st.norm(fld(cert, k.certT, i)) {
				return fmt.Sprintf("%s changes: %s", n, e.snap(st, v).str(5)), false
			}
		}
		return "", true
	})
}

func isIn(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func checkExtensions(c *Ctx) {
	k := newExtReader(c)
	if k == nil {
		return
	}
	if !c.oblige("anchor", "x509", 0, len(k.exts) > 0, "no function interprets the extensions of a certificate") {
		return
	}
	all := []extCase{keyUsageCase(), basicConstraintsCase(), akiCase(), skiCase(), otherCase(nil), otherIDs(0), otherIDs(1), otherIDs(2), otherIDs(3)}
	for n := 0; n <= 2; n++ {
		all = append(all, ekuCase(n), policiesCase(n), aiaCase(n))
	}
	all = append(all, sanCase(), crlCase(), crlCase(-1), crlCase(0), crlCase(1), crlCase(2), crlCase(-1, 1), crlCase(1, 1), crlCase(100, 1), crlCase(101, -1, 1))
	for t := int64(0); t < 256; t++ {
		all = append(all, sanCase(t), nameConstraintsCase([]int64{t}, nil), nameConstraintsCase(nil, []int64{t}))
	}
	all = append(all, sanCase(0x82, 0x81), sanCase(0x86, 0x87), sanCase(0x82, 0x84, 0x82), sanCase(0x87, 0x87), sanCase(0x81, 0x81))
	all = append(all, nameConstraintsCase(nil, nil), nameConstraintsCase([]int64{}, nil), nameConstraintsCase(nil, []int64{}), nameConstraintsCase([]int64{}, []int64{}),
		nameConstraintsCase([]int64{0x82}, []int64{0x82}), nameConstraintsCase([]int64{0x87}, []int64{0x87}), nameConstraintsCase([]int64{}, []int64{0x81}), nameConstraintsCase([]int64{0x82, 0x87}, nil),
		nameConstraintsCase([]int64{0x84}, []int64{0x82}), nameConstraintsCase([]int64{0x82, 0x84, 0x82}, nil))
	for _, f := range sortFuncs(k.exts) {
		k.run(f)
		for _, cs := range all {
			k.run(f, cs)
		}
		ski, other := skiCase(), otherCase(oid29(16))
		k.run(f, other, ski)
		k.run(f, ski, other)
		k.run(f, other, otherCase(oidTerm(2, 5, 29)))
		k.run(f, sanCase(0x84), ski)
		k.run(f, nameConstraintsCase([]int64{0x84}, nil), ski, other)
		k.run(f, ski, ski)
		k.run(f, crlCase(1), crlCase(1))
		k.run(f, sanCase(0x82), sanCase(0x81))
		k.run(f, basicConstraintsCase(), akiCase(), aiaCase(1))
	}
	for _, f := range sortFuncs(k.ia5) {
		k.checkIA5(f)
	}
	for _, f := range sortFuncs(k.masks) {
		k.checkMask(f, 4)
		k.checkMask(f, 16)
	}
	for _, f := range sortFuncs(k.usages) {
		k.checkUsages(f)
	}
}

// settle finds the functions recognised by their types, and of each kind those that compute it.
func (k *extReader) settle() {
	k.anchors()
	for _, s := range []struct {
		set   map[*ssa.Function]bool
		check func(*ssa.Function)
	}{
		{k.ia5, k.checkIA5},
		{k.labels, func(f *ssa.Function) { k.c.checkLabels(f, 2, 3) }},
		{k.mailbox, func(f *ssa.Function) { k.c.checkMailbox(f, 2, 3) }},
		{k.masks, func(f *ssa.Function) { k.checkMask(f, 4) }},
		{k.usages, k.checkUsages},
	} {
		k.c.settle(s.set, k.accepted, s.check)
	}
}

func (k *extReader) checkIA5(fn *ssa.Function) {
	k.self = fn
	defer func() { k.self = nil }()
	entry, args, outs, ok := k.c.analyseWith(k.e, fn, nil)
	_ = entry
	if !ok {
		return
	}
	k.c.noPanic(k.e, fn, outs)
	ascii := map[int64]bool{}
	for i := int64(0); i < 128; i++ {
		ascii[i] = true
	}
	for i := range outs { // the result of interest is the error alone
		if !outs[i].panic {
			outs[i].res = mk("tuple", "", KVal, 0, args[0], outs[i].res)
		}
	}
	k.c.characters(k.e, fn, "IA5String", specSeq(args[0]), outs, ascii)
}

// checkMask: a mask of n bytes is ones followed by zeros.
func (k *extReader) checkMask(fn *ssa.Function, n int64) {
	c, e := k.c, k.e
	k.self = fn
	defer func() { k.self = nil }()
	var in *Term
	_, _, outs, ok := c.analyseWith(e, fn, func(st *State, args []*Term) []*Term {
		var bs []*Term
		for i := int64(0); i < n; i++ {
			bs = append(bs, sym(fmt.Sprint("mask", i), types.Typ[types.Byte]))
		}
		in = mkListT(bs, types.Typ[types.Byte])
		return []*Term{e.newSlice(st, "mask", in)}
	})
	if !ok {
		return
	}
	c.noPanic(e, fn, outs)
	var valid [][]int64
	for ones := int64(0); ones <= 8*n; ones++ {
		m := make([]int64, n)
		for i := int64(0); i < ones; i++ {
			m[i/8] |= 0x80 >> (i % 8)
		}
		valid = append(valid, m)
	}
	where := fmt.Sprintf("%s [%d bytes]", short(fn), n)
	for _, b := range splitBool(outs, func(o Outcome) *Term { return o.res }) {
		// the values of each byte the path allows
		facts := b.st.sortedFacts()
		var sets []map[int64]bool
		size, decided := 1, true
		for i := int64(0); i < n; i++ {
			s := map[int64]bool{}
			by := seqSel(in, ci(i))
			for v := int64(0); v < 256; v++ {
				ok := true
				for _, f := range facts {
					if !hasTerm(f, by) {
						continue
					}
					switch newState().eval(substOne(f, by, ci(v))) {
					case tTrue:
						ok = ok && b.st.facts[f]
					case tFalse:
						ok = ok && !b.st.facts[f]
					default:
						decided = false
					}
				}
				if ok {
					s[v] = true
				}
			}
			sets = append(sets, s)
			if size < 1<<40 {
				size *= len(s)
			}
		}
		c.oblige("each decision is about one byte", where, atPos(b.o), decided, "a condition on several bytes")
		in := 0
		for _, m := range valid {
			has := true
			for i, v := range m {
				has = has && sets[i][v]
			}
			if has {
				in++
			}
		}
		if b.val {
			c.oblige("only ones followed by zeros are a mask", where, atPos(b.o), in == size, "%d of %d values accepted are masks", in, size)
		} else {
			c.oblige("ones followed by zeros are a mask", where, atPos(b.o), in == 0, "%d masks are refused", in)
		}
	}
}

// checkUsages: the identifiers of extended key usages.
func (k *extReader) checkUsages(fn *ssa.Function) {
	c, e := k.c, k.e
	k.self = fn
	defer func() { k.self = nil }()
	oids := extUsageOIDs()
	var names []string
	for n := range oids {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		_, _, outs, ok := c.analyseWith(e, fn, func(st *State, args []*Term) []*Term { return []*Term{e.newSlice(st, "oid", oids[n])} })
		if !ok {
			continue
		}
		c.noPanic(e, fn, outs)
		for _, o := range outs {
			if !o.panic {
				c.oblige("each identifier stands for its usage", short(fn)+" "+n, atPos(o), o.st.eval2(o.r(1)) == tTrue && o.st.eval2(mkEqInt(o.r(0), ci(c.constVal("x509", n)))) == tTrue, "%s", o.res.str(5))
			}
		}
	}
	_, _, outs, ok := c.analyseWith(e, fn, func(st *State, args []*Term) []*Term {
		for _, n := range names {
			st.assume(bnot(mkEqSeq(e.seqOf(st, args[0]), oids[n])))
		}
		return args
	})
	if ok {
		for _, o := range outs {
			c.oblige("another identifier is unknown", short(fn), atPos(o), o.panic || o.st.eval2(o.r(1)) == tFalse, "%s", o.res.str(5))
		}
	}
}

func extUsageOIDs() map[string]*Term {
	kp := func(n int64) *Term { return oidTerm(1, 3, 6, 1, 5, 5, 7, 3, n) }
	return map[string]*Term{"ExtKeyUsageAny": oidTerm(2, 5, 29, 37, 0), "ExtKeyUsageServerAuth": kp(1), "ExtKeyUsageClientAuth": kp(2), "ExtKeyUsageCodeSigning": kp(3), "ExtKeyUsageEmailProtection": kp(4),
		"ExtKeyUsageIPSECEndSystem": kp(5), "ExtKeyUsageIPSECTunnel": kp(6), "ExtKeyUsageIPSECUser": kp(7), "ExtKeyUsageTimeStamping": kp(8), "ExtKeyUsageOCSPSigning": kp(9),
		"ExtKeyUsageMicrosoftServerGatedCrypto": oidTerm(1, 3, 6, 1, 4, 1, 311, 10, 3, 3), "ExtKeyUsageNetscapeServerGatedCrypto": oidTerm(2, 16, 840, 1, 113730, 4, 1),
		"ExtKeyUsageMicrosoftCommercialCodeSigning": oidTerm(1, 3, 6, 1, 4, 1, 311, 2, 1, 22), "ExtKeyUsageMicrosoftKernelCodeSigning": oidTerm(1, 3, 6, 1, 4, 1, 311, 61, 1, 1)}
}

func init() {
	addCheck(&Check{id: "C24", rule: "abstract interpretation of the extension readers, once per identifier: accept condition, every certificate field and the record of unhandled critical extensions compared with the specified grammar", run: checkExtensions,
		assume:  []string{"lists in extensions are decided per length up to the bound, with arbitrary elements"},
		trusted: []string{"the DER primitives of cryptobyte, net/url.Parse, net.ParseIP and the package's syntax check of domain names as given functions of their input"}})
}

// pin replaces the lengths the facts fix by their values.
func (s *State) pin(t *Term) *Term {
	m := map[*Term]*Term{}
	for f, v := range s.facts {
		if !v || f.op != "eq0" {
			continue
		}
		var at *Term
		n, c := new(big.Int), new(big.Int)
		for a, k := range toPoly(f.a[0]) {
			switch {
			case a == tOne:
				c = k
			case at == nil && a.op == "len":
				at, n = a, k
			default:
				at, n = nil, new(big.Int)
			}
			if n.Sign() == 0 && a != tOne {
				break
			}
		}
		if at != nil && n.CmpAbs(big1) == 0 {
			m[at] = cbig(new(big.Int).Mul(n, new(big.Int).Neg(c)))
		}
	}
	if len(m) == 0 {
		return t
	}
	return substM(t, m, map[*Term]*Term{})
}
