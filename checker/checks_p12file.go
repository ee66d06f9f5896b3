package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C34: SM2P12Encrypt and SM2P12Decrypt, over Encode, DecodeAll and the file system as uninterpreted operations.

func p12FileEngine(c *Ctx) *Engine {
	e := p12Engine(c, true)
	e.useSM2Curve()
	e.freezeElems, e.noMerge, e.maxPaths = true, true, 4000
	enc, dec := c.P.fn("pkcs12", "Encode"), c.P.fn("pkcs12", "DecodeAll")
	keyTypes := []types.Type{c.P.fn("pkcs12", "SM2P12Encrypt").Signature.Params().At(2).Type()}
	if t := (&p12dec{c: c}).keyType("crypto/rsa"); t != nil {
		keyTypes = append(keyTypes, t)
	}
	next := e.callHook
	e.callHook = func(fn *ssa.Function, st *State, args []*Term) []Outcome {
		switch fn {
		case enc:
			k := append([]*Term{}, args...)
			k[2] = e.seqOf(st, args[2])
			ok := mk("pfx.ok", "", KBool, 0, k...)
			return fork2(st, "Encode", ok, func(st *State) []*Term {
				return []*Term{e.newSlice(st, "pfx", mkT("pfx", "", KSeq, 0, types.Typ[types.Byte], k...))}
			}, 2)
		case dec:
			in := e.seqOf(st, args[0])
			t := fn.Signature.Results().At(1).Type()
			return fork2(st, "DecodeAll", mk("pfxdec.ok", "", KBool, 0, in, args[1]), func(st *State) []*Term {
				key := mk("pfxdec.key", "", KVal, 0, in, args[1])
				certs := mkTyped("pfxdec.certs", "", t, in, args[1])
				l := e.seqOf(st, certs)
				st.assume(bnot(mkIsNil(key)))
				for _, t := range keyTypes {
					st.assume(bnot(mkIsNil(mkTyped("asserted", tstr(t), t, key))))
				}
				st.assume(mkGe0(iSub(seqLen(l), tOne)))
				st.assume(bnot(mkIsNil(seqSel(l, tZero))))
				return []*Term{key, certs}
			}, 3)
		}
		return next(fn, st, args)
	}
	models := map[string]Model{}
	for k, v := range e.models {
		models[k] = v
	}
	read := func(e *Engine, cc *callCtx) []Outcome {
		n := cc.args[0]
		return fork2(cc.st, "ReadFile", mk("file.ok", "", KBool, 0, n), func(st *State) []*Term {
			return []*Term{e.newSlice(st, "file", mkT("file", "", KSeq, 0, types.Typ[types.Byte], n))}
		}, 2)
	}
	write := func(e *Engine, cc *callCtx) []Outcome {
		id := cc.id()
		data := e.seqOf(cc.st, cc.args[1])
		err := mkTyped("writeerr", id, cc.rtype(0))
		cc.st.event(&Event{kind: "write", name: "WriteFile", args: []*Term{cc.args[0], data, cc.args[2]}, res: []*Term{err}, fn: cc.fn, at: cc.in()})
		return ret(cc, err)
	}
	models["os.ReadFile"], models["io/ioutil.ReadFile"] = read, read
	models["os.WriteFile"], models["io/ioutil.WriteFile"] = write, write
	e.models = models
	return e
}

func checkP12File(c *Ctx) {
	en, de := c.P.fn("pkcs12", "SM2P12Encrypt"), c.P.fn("pkcs12", "SM2P12Decrypt")
	if !c.oblige("anchor", "pkcs12", 0, en != nil && de != nil && c.P.fn("pkcs12", "Encode") != nil && c.P.fn("pkcs12", "DecodeAll") != nil, "an exported function of the property is not found") {
		return
	}
	e := p12FileEngine(c)
	if _, args, outs, ok := c.analyse(e, en); ok {
		c.noPanic(e, en, outs)
		kt := en.Signature.Params().At(2).Type()
		k := []*Term{mkT("iface", tstr(kt), KVal, 0, kt, args[2]), args[0], nil, args[1]}
		for _, b := range splitBool(outs, errNil) {
			k[2] = tEmpty
			var w []*Event
			other := false
			for _, ev := range b.st.events() {
				if ev.kind == "write" && ev.name == "WriteFile" {
					w = append(w, ev)
				} else {
					other = true
				}
			}
			c.oblige("one file written", short(en), atPos(b.o), !other && len(w) <= 1, "there is an effect besides writing one file")
			good := mk("pfx.ok", "", KBool, 0, k...)
			data := mkT("pfx", "", KSeq, 0, types.Typ[types.Byte], k...)
			for _, ev := range w {
				c.oblige("what is written", short(en), atPos(b.o), holds(b.st, good) && sameSeq(b.st, ev.args[0], args[3]) && sameSeq(b.st, ev.args[1], data), "what is written is not the encoding of the key and certificate to the named file: %s", clip(ev.args[1].str(5), 200))
				perm, known := constInt(ev.args[2])
				c.oblige("readable by the owner", short(en), atPos(b.o), known && perm&0600 == 0600, "the file mode is %s", clip(ev.args[2].str(2), 40))
			}
			if b.val {
				c.oblige("success means written", short(en), atPos(b.o), len(w) == 1 && holds(b.st, mkIsNil(w[0].res[0])), "success is reported although the file was not written")
			} else {
				c.oblige("failure has a cause", short(en), atPos(b.o), contradictory(b.st, good) || len(w) == 1 && contradictory(b.st, mkIsNil(w[0].res[0])), "an encodable key and certificate are refused")
			}
		}
	}
	e = p12FileEngine(c)
	if _, args, outs, ok := c.analyse(e, de); ok {
		c.noPanic(e, de, outs)
		in := mkT("file", "", KSeq, 0, types.Typ[types.Byte], args[0])
		key := mk("pfxdec.key", "", KVal, 0, in, args[1])
		certs := mkTyped("pfxdec.certs", "", c.P.fn("pkcs12", "DecodeAll").Signature.Results().At(1).Type(), in, args[1])
		sm2T, rsaT := en.Signature.Params().At(2).Type(), (&p12dec{c: c}).keyType("crypto/rsa")
		if rsaT == nil {
			return
		}
		asSM2 := mkTyped("asserted", tstr(sm2T), sm2T, key)
		conds := func(st *State) (r []*Term) {
			cv, _ := e.field(st, asSM2, sm2T, "Curve")
			x, y := e.bigField(st, asSM2, sm2T, "X"), e.bigField(st, asSM2, sm2T, "Y")
			return []*Term{mkEq(cv, e.curve), mk("app", "oncurve", KBool, 0, e.snap(st, e.curve), x, y)}
		}
		root := []*specAlt{{name: "the file", conds: []*Term{mk("file.ok", "", KBool, 0, args[0]), mk("pfxdec.ok", "", KBool, 0, in, args[1])}, names: []string{"a readable file", "a file that DecodeAll reads"},
			next: func() []*specAlt {
				return []*specAlt{
					{name: "an SM2 key", disc: []*Term{typeIs(key, sm2T)}, conds: conds(outs[0].st), names: []string{"the SM2 curve", "a point on the curve"}, vals: []*Term{asSM2}},
					{name: "an RSA key", disc: []*Term{bnot(typeIs(key, sm2T)), typeIs(key, rsaT)}},
				}
			}}}
		specCheck(c, de, outs, root, errNil, func(st *State, o Outcome, leaf *specAlt) (string, bool) {
			if want := seqSel(e.seqOf(o.st, certs), tZero); o.r(0) != want {
				return "the certificate is not the first of the file: " + clip(o.r(0).str(4), 200), false
			}
			if len(leaf.vals) == 0 {
				return "the RSA key is not that of the file: " + clip(o.r(1).str(4), 200), o.r(1) == key || o.r(1).op == "iface" && o.r(1).a[0] == mkTyped("asserted", tstr(rsaT), rsaT, key)
			}
			k := o.r(1)
			if k == key {
				return "", true
			}
			if k.op != "iface" || k.s != tstr(sm2T) {
				return "the key is not an SM2 key: " + clip(k.str(4), 200), false
			}
			for _, f := range []string{"X", "Y", "D"} {
				if e.bigField(o.st, k.a[0], sm2T, f) != e.bigField(o.st, asSM2, sm2T, f) {
					return "field " + f + " of the key differs", false
				}
			}
			cv, _ := e.field(o.st, k.a[0], sm2T, "Curve")
			cw, _ := e.field(o.st, asSM2, sm2T, "Curve")
			return "the curve of the key differs", cv == cw || cv == e.curve
		})
		for _, b := range splitBool(outs, errNil) {
			if !b.val {
				c.oblige("a failure releases nothing", short(de), atPos(b.o), b.o.r(0) == tNil && b.o.r(1) == tNil, "a key or certificate is returned together with an error")
			}
		}
	}
}

func init() {
	addCheck(&Check{id: "C34", rule: "abstract interpretation of the file functions against the specified decision tree and effects", run: checkP12File})
}
