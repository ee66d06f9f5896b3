package main

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

// What algorithm values call themselves, and when certificates are the same.

var hashCalled = map[string]string{"MD4": "MD4", "MD5": "MD5", "SHA1": "SHA-1", "SHA224": "SHA-224", "SHA256": "SHA-256", "SHA384": "SHA-384", "SHA512": "SHA-512", "MD5SHA1": "MD5+SHA1",
	"RIPEMD160": "RIPEMD-160", "SHA3_224": "SHA3-224", "SHA3_256": "SHA3-256", "SHA3_384": "SHA3-384", "SHA3_512": "SHA3-512", "SHA512_224": "SHA-512/224", "SHA512_256": "SHA-512/256",
	"BLAKE2s_256": "BLAKE2s-256", "BLAKE2b_256": "BLAKE2b-256", "BLAKE2b_384": "BLAKE2b-384", "BLAKE2b_512": "BLAKE2b-512", "SM3": "SM3"}

var sigCalled = map[string]string{"MD5WithRSA": "MD5-RSA", "SHA1WithRSA": "SHA1-RSA", "SHA256WithRSA": "SHA256-RSA", "SHA384WithRSA": "SHA384-RSA", "SHA512WithRSA": "SHA512-RSA",
	"DSAWithSHA1": "DSA-SHA1", "DSAWithSHA256": "DSA-SHA256", "ECDSAWithSHA1": "ECDSA-SHA1", "ECDSAWithSHA256": "ECDSA-SHA256", "ECDSAWithSHA384": "ECDSA-SHA384", "ECDSAWithSHA512": "ECDSA-SHA512",
	"SHA256WithRSAPSS": "SHA256-RSAPSS", "SHA384WithRSAPSS": "SHA384-RSAPSS", "SHA512WithRSAPSS": "SHA512-RSAPSS", "PureEd25519": "Ed25519", "SM2WithSM3": "SM2WithSM3"}

var keyCalled = map[string]string{"RSA": "RSA", "DSA": "DSA", "ECDSA": "ECDSA", "Ed25519": "Ed25519", "SM2": "SM2"}

// printed writes out a Sprintf of constant integers.
func printed(t *Term) *Term {
	if t.op != "sprintf" || t.a[1].op != "list" {
		return t
	}
	if t.a[0].op != "bytes" {
		return t
	}
	f := t.a[0].s
	for _, x := range t.a[1].a {
		if x.op != "iface" {
			return t
		}
		i, ok := constInt(x.a[0])
		p := strings.Index(f, "%")
		_, basic := x.typ.(*types.Basic)
		if !ok || p < 0 || !strings.HasPrefix(f[p:], "%d") && !(strings.HasPrefix(f[p:], "%v") && basic) {
			return t
		}
		f = f[:p] + strconv.FormatInt(i, 10) + f[p+2:]
	}
	if strings.Contains(f, "%") {
		return t
	}
	return cbytes(f)
}

func checkNames(c *Ctx) {
	for _, k := range []struct {
		typ, unknown string
		names        map[string]string
	}{{"Hash", "unknown hash value ", hashCalled}, {"SignatureAlgorithm", "", sigCalled}, {"PublicKeyAlgorithm", "", keyCalled}} {
		T := c.P.typ("x509", k.typ)
		fn := c.P.fn("x509", k.typ+".String")
		if !c.oblige("anchor", "x509."+k.typ, 0, T != nil && fn != nil, "the type or its String is not found") {
			continue
		}
		want := map[int64]string{}
		max := int64(0)
		scope := c.P.pkgs["x509"].Pkg.Scope()
		for n, s := range k.names {
			o, ok := scope.Lookup(n).(*types.Const)
			if !c.oblige("constant exists", "x509."+n, 0, ok && types.Identical(o.Type(), T), "no constant of type %s", k.typ) {
				continue
			}
			v, _ := constant.Int64Val(constant.ToInt(o.Val()))
			c.oblige("constants differ", "x509."+n, o.Pos(), want[v] == "", "has the value of %s", want[v])
			want[v] = s
			if v > max {
				max = v
			}
		}
		values := []int64{max + 1, max + 2, max + 100, 1 << 20}
		if k.typ != "Hash" {
			values = append(values, -1, -2)
		}
		for v := int64(0); v <= max; v++ {
			values = append(values, v)
		}
		for _, v := range values {
			w, known := want[v]
			if !known {
				w = k.unknown + strconv.FormatInt(v, 10)
			}
			e := x509Engine(c)
			for _, n := range []string{"strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint"} {
				next := e.models[n]
				e.models[n] = func(e *Engine, c *callCtx) []Outcome {
					if i, ok := constInt(c.args[0]); ok && len(c.args) == 1 {
						return ret(c, cbytes(strconv.FormatInt(i, 10)))
					} else if b, ok2 := constInt(c.args[len(c.args)-1]); ok && ok2 && b == 10 {
						return ret(c, cbytes(strconv.FormatInt(i, 10)))
					}
					if next == nil {
						return e.opaque(c)
					}
					return next(e, c)
				}
			}
			_, _, outs, ok := c.analyseWith(e, fn, func(st *State, args []*Term) []*Term { return []*Term{ci(v)} })
			if !ok {
				continue
			}
			c.noPanic(e, fn, outs)
			for _, o := range outs {
				if o.panic || refuted(o.st, 0) {
					continue
				}
				got := e.seqOf(o.st, o.r(0))
				c.oblige("name", short(fn), atPos(o), sameSeq(o.st, printed(got), cbytes(w)), "%d is called %s, not %q", v, clip(got.str(4), 60), w)
			}
		}
	}
}

func checkCertEqual(c *Ctx) {
	fn := c.P.fn("x509", "Certificate.Equal")
	if !c.oblige("anchor", "x509.Certificate.Equal", 0, fn != nil, "not found") {
		return
	}
	certT := deref(fn.Signature.Recv().Type())
	raw := fieldIndex(certT, "Raw")
	if !c.oblige("anchor", "x509.Certificate.Raw", 0, raw >= 0, "not found") {
		return
	}
	for _, nils := range [][2]bool{{false, false}, {false, true}, {true, false}, {true, true}} {
		e := x509Engine(c)
		_, args, outs, ok := c.analyseWith(e, fn, func(st *State, args []*Term) []*Term {
			for i := range nils {
				if nils[i] {
					args[i] = tNil
				} else {
					st.assume(bnot(mkIsNil(args[i])))
				}
			}
			return args
		})
		if !ok {
			continue
		}
		c.noPanic(e, fn, outs)
		for _, b := range splitBool(outs, func(o Outcome) *Term { return o.r(0) }) {
			if refuted(b.st, 0) {
				continue
			}
			if nils[0] || nils[1] {
				c.oblige("a nil certificate equals only nil", short(fn), atPos(b.o), b.val == (nils[0] && nils[1]), "nil: %v; equal: %v", nils, b.val)
				continue
			}
			side := func(i int) *Term { return e.seqOf(b.st, fld(e.load(b.st, args[i]), certT, raw)) }
			same := mkEqSeq(side(0), side(1))
			if b.val {
				c.oblige("equal certificates have equal encodings", short(fn), atPos(b.o), holds(b.st, same) || holds(b.st, mkEq(args[0], args[1])), "path %s", pathFacts(b.st))
			} else {
				c.oblige("certificates with equal encodings are equal", short(fn), atPos(b.o), contradictory(b.st, same), "path %s", pathFacts(b.st))
			}
		}
	}
}

func init() {
	addCheck(&Check{id: "C40", rule: engineRule, run: func(c *Ctx) { checkNames(c); checkCertEqual(c) }, trusted: []string{"bytes.Equal, strconv"}})
}
