package main

import (
	"fmt"
	"go/types"
	"strings"
)

// encoding/asn1: Unmarshal and Marshal are functions of the bytes/value and of the schema of the Go type (its field types
// and asn1 tags, not its names).

var schemaMemo = map[string]string{}

// asn1Schema describes how encoding/asn1 reads and writes t.
func asn1Schema(t types.Type) string { return schemaD(t, 0) }

func schemaD(t types.Type, d int) string {
	if d > 12 {
		return "…"
	}
	switch tn := typeName(t); tn {
	case "encoding/asn1.RawValue", "encoding/asn1.RawContent", "encoding/asn1.BitString", "encoding/asn1.ObjectIdentifier", "encoding/asn1.Enumerated", "encoding/asn1.Flag", "math/big.Int", "time.Time":
		return tn[strings.LastIndex(tn, ".")+1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return "*" + schemaD(u.Elem(), d+1)
	case *types.Slice:
		n := ""
		if _, named := types.Unalias(t).(*types.Named); named && strings.HasSuffix(typeName(t), "SET") {
			n = "SET"
		}
		return "[]" + n + schemaD(u.Elem(), d+1)
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), schemaD(u.Elem(), d+1))
	case *types.Struct:
		var b strings.Builder
		b.WriteString("{")
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				b.WriteString(";")
			}
			b.WriteString(schemaD(u.Field(i).Type(), d+1))
			if tag := asn1Tag(u.Tag(i)); tag != "" {
				b.WriteString(" " + tag)
			}
		}
		b.WriteString("}")
		return b.String()
	case *types.Interface:
		return "any"
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return "byte"
	}
	return t.Underlying().String()
}

func asn1Tag(tag string) string {
	i := strings.Index(tag, `asn1:"`)
	if i < 0 {
		return ""
	}
	s := tag[i+6:]
	if j := strings.IndexByte(s, '"'); j >= 0 {
		s = s[:j]
	}
	return s
}

// fieldAt finds a field by name, or by position when it was renamed.
func fieldAt(t types.Type, name string, pos int) int {
	if i := fieldIndex(t, name); i >= 0 {
		return i
	}
	return pos
}

func asn1OK(schema, params string, s *Term, pre ...*Term) *Term {
	return mk("asn1.ok", schema+params, KBool, 0, append([]*Term{s}, pre...)...)
}

func asn1Val(t types.Type, params string, s *Term, pre ...*Term) *Term {
	return mkTyped("asn1", asn1Schema(t)+params, t, append([]*Term{s}, pre...)...)
}

func asn1Rest(schema, params string, s *Term, pre ...*Term) *Term {
	return mk("asn1.rest", schema+params, KSeq, 0, append([]*Term{s}, pre...)...)
}

func asn1Enc(schema, params string, v *Term) *Term {
	return mk("asn1enc", schema+params, KSeq, 0, v)
}

// asn1Content is the contents of the element enc encodes; that of a structure of one field is the encoding of the field.
func asn1Content(enc *Term) *Term {
	if s := enc.s; strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}") && len(enc.a) == 1 && enc.a[0].op == "struct" && len(enc.a[0].a) == 1 {
		s = s[1 : len(s)-1]
		d, sp, fields := 0, -1, 1
		for i, r := range s {
			switch r {
			case '{':
				d++
			case '}':
				d--
			case ';':
				if d == 0 {
					fields++
				}
			case ' ':
				if d == 0 {
					sp = i
				}
			}
		}
		if fields == 1 && d == 0 {
			if sp < 0 {
				return asn1Enc(s, "", enc.a[0].a[0])
			}
			return asn1Enc(s[:sp], "|"+s[sp+1:], enc.a[0].a[0])
		}
	}
	return mkT("asn1.content", "", KSeq, 0, types.Typ[types.Byte], enc)
}

// asn1Present: the numbers of a decoded structure that are not optional are there.
func asn1Present(st *State, v *Term, t types.Type) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := fld(v, t, i)
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
			es, ok := sl.Elem().Underlying().(*types.Struct)
			for j := 0; ok && j < es.NumFields(); j++ {
				if tstr(es.Field(j).Type()) == "*math/big.Int" && !strings.Contains(asn1Tag(es.Tag(j)), "optional") {
					x := specSeq(f)
					b := bvar(x)
					st.assume(mkForall(b, bnot(mkIsNil(fld(seqSel(x, b), sl.Elem(), j))), seqLen(x)))
				}
			}
			continue
		}
		if strings.Contains(asn1Tag(s.Tag(i)), "optional") {
			continue
		}
		switch ft := s.Field(i).Type(); {
		case tstr(ft) == "*math/big.Int":
			st.assume(bnot(mkIsNil(f)))
		default:
			asn1Present(st, f, ft)
		}
	}
}

func init() {
	unmarshal := func(e *Engine, c *callCtx, params string) []Outcome {
		s := e.seqOf(c.st, c.args[0])
		v := c.args[1]
		var p *Term
		var t types.Type
		if v.op == "iface" && v.typ != nil {
			if t = deref(v.typ); t != nil {
				p = v.a[0]
			}
		}
		if p == nil || p.op != "ptr" {
			return e.opaque(c)
		}
		sch := asn1Schema(t)
		var pre []*Term
		if strings.Contains(sch, "optional") {
			if old := e.load(c.st, p); old != zeroValue(t) {
				pre = []*Term{e.snap(c.st, old)}
			}
		}
		if s.op == "asn1enc" && sch == "RawValue" && params == "" {
			// a well-formed element taken apart again
			rv := zeroValue(t)
			if old := e.load(c.st, p); old.op == "struct" {
				rv = old
			}
			for i, x := range []*Term{mk("asn1.class", "", KInt, 63, s), mk("asn1.tag", "", KInt, 63, s), mk("asn1.compound", "", KBool, 0, s), e.newSlice(c.st, "asn1content:"+siteOf(c.in()), asn1Content(s)), e.newSlice(c.st, "asn1full:"+siteOf(c.in()), s)} {
				rv = setFld(rv, t, i, x)
			}
			e.store(c.st, p, rv)
			return []Outcome{{st: c.st, res: mk("tuple", "", KVal, 0, e.newSlice(c.st, "asn1rest:"+siteOf(c.in()), tEmpty), tNil)}}
		}
		if s.op == "asn1enc" && sch == "[]RawValue" && params == "" && len(pre) == 0 && strings.HasPrefix(s.s, "[]") && !strings.HasPrefix(s.s, "[]SET") && !strings.HasPrefix(s.s, "[]byte") && !strings.Contains(s.s, "|") {
			// a well-formed SEQUENCE taken apart into its elements
			val := asn1Val(t, params, s)
			if x := s.a[0]; c.st.eval2(mkEq0(seqLen(specSeq(x)))) == tTrue {
				val = e.newSlice(c.st, "asn1none:"+siteOf(c.in()), tEmpty)
			}
			e.store(c.st, p, val)
			return []Outcome{{st: c.st, res: mk("tuple", "", KVal, 0, e.newSlice(c.st, "asn1rest:"+siteOf(c.in()), tEmpty), tNil)}}
		}
		okT := asn1OK(sch, params, s, pre...)
		good := func(st *State) Outcome {
			v := asn1Val(t, params, s, pre...)
			e.store(st, p, v)
			asn1Present(st, v, t)
			rest := e.newSlice(st, "asn1rest:"+siteOf(c.in()), asn1Rest(sch, params, s, pre...))
			return Outcome{st: st, res: mk("tuple", "", KVal, 0, rest, tNil)}
		}
		bad := func(st *State) Outcome {
			e.store(st, p, mkTyped("asn1.partial", sch+params, t, append([]*Term{s}, pre...)...))
			return Outcome{st: st, res: mk("tuple", "", KVal, 0, tNil, mk("errnew", "asn1", KVal, 0, cbytes(sch), s))}
		}
		if s == tEmpty {
			return []Outcome{bad(c.st)}
		}
		if params == "" && len(pre) == 0 {
			if v, rest, ok, known := constDER(e, c.st, siteOf(c.in()), t, s); known && !ok {
				return []Outcome{bad(c.st)}
			} else if known {
				e.store(c.st, p, v)
				return []Outcome{{st: c.st, res: mk("tuple", "", KVal, 0, e.newSlice(c.st, "asn1rest:"+siteOf(c.in()), rest), tNil)}}
			}
		}
		switch c.st.eval(okT) {
		case tTrue:
			return []Outcome{good(c.st)}
		case tFalse:
			return []Outcome{bad(c.st)}
		}
		var outs []Outcome
		st2 := c.st.clone()
		if c.st.assume(okT) {
			outs = append(outs, good(c.st))
		}
		if st2.assume(bnot(okT)) {
			outs = append(outs, bad(st2))
		}
		return outs
	}
	reg("encoding/asn1.Unmarshal", func(e *Engine, c *callCtx) []Outcome { return unmarshal(e, c, "") })
	reg("encoding/asn1.UnmarshalWithParams", func(e *Engine, c *callCtx) []Outcome {
		return unmarshal(e, c, "|"+paramStr(e, c, c.args[2]))
	})
	marshal := func(e *Engine, c *callCtx, params string) []Outcome {
		v := c.args[0]
		sch := "any"
		x := v
		if v.op == "iface" && v.typ != nil {
			sch = asn1Schema(v.typ)
			x = v.a[0]
		}
		val := e.snap(c.st, x)
		enc := asn1Enc(sch, params, val)
		err := mkTyped("app", "asn1.merr"+params, c.rtype(1), mk("schema", sch, KVal, 0), val)
		return ret(c, e.newSlice(c.st, siteOf(c.in()), enc), err)
	}
	reg("encoding/asn1.Marshal", func(e *Engine, c *callCtx) []Outcome { return marshal(e, c, "") })
	reg("encoding/asn1.MarshalWithParams", func(e *Engine, c *callCtx) []Outcome {
		return marshal(e, c, "|"+paramStr(e, c, c.args[1]))
	})
	reg("(encoding/asn1.ObjectIdentifier).Equal", func(e *Engine, c *callCtx) []Outcome {
		return ret(c, mkEqSeq(e.seqOf(c.st, c.args[0]), e.seqOf(c.st, c.args[1])))
	})
	reg("(*crypto/x509/pkix.Name).FillFromRDNSequence", func(e *Engine, c *callCtx) []Outcome {
		t := deref(c.sig.Recv().Type())
		e.store(c.st, c.args[0], mkTyped("filled", "", t, e.snap(c.st, c.args[1])))
		return ret(c)
	})

	// ---- block ciphers
	blockObj := func(alg string, key ...*Term) *Term { return mk("blockobj", alg, KVal, 0, key...) }
	desLike := func(alg string, n int64) Model {
		return func(e *Engine, c *callCtx) []Outcome {
			key := e.seqOf(c.st, c.args[0])
			ok := mkEq0(iSub(seqLen(key), ci(n)))
			return forkOK(c, ok, func(st *State) *Term { return blockObj(alg, key) })
		}
	}
	reg("crypto/des.NewTripleDESCipher", desLike("3des", 24))
	reg("crypto/des.NewCipher", desLike("des", 8))
	reg("crypto/cipher.NewCBCDecrypter", cbcNew("dec"))
	reg("crypto/cipher.NewCBCEncrypter", cbcNew("enc"))
}

func paramStr(e *Engine, c *callCtx, t *Term) string {
	if s := e.seqOf(c.st, t); s.op == "bytes" {
		return s.s
	}
	return "?" + t.str(4)
}

// forkOK returns (value, nil) when ok and (nil, error) otherwise.
func forkOK(c *callCtx, ok *Term, val func(st *State) *Term) []Outcome {
	bad := func(st *State) Outcome {
		return Outcome{st: st, res: mk("tuple", "", KVal, 0, tNil, mk("errnew", "lib", KVal, 0, cbytes(c.name)))}
	}
	good := func(st *State) Outcome {
		return Outcome{st: st, res: mk("tuple", "", KVal, 0, val(st), tNil)}
	}
	switch c.st.eval(ok) {
	case tTrue:
		return []Outcome{good(c.st)}
	case tFalse:
		return []Outcome{bad(c.st)}
	}
	st2 := c.st.clone()
	var outs []Outcome
	if c.st.assume(ok) {
		outs = append(outs, good(c.st))
	}
	if st2.assume(bnot(ok)) {
		outs = append(outs, bad(st2))
	}
	return outs
}

func blockSize(e *Engine, st *State, b *Term) *Term {
	if b.op == "blockobj" {
		return ci(8)
	}
	return mk("app", "blocksize", KInt, 31, e.snap(st, b))
}

func cbcNew(dir string) Model {
	return func(e *Engine, c *callCtx) []Outcome {
		b := c.args[0]
		iv := e.seqOf(c.st, c.args[1])
		e.nilCheck(c.st, c.in(), b)
		e.oblige(c.st, "cbciv", c.in(), mkEq0(iSub(seqLen(iv), blockSize(e, c.st, b))))
		o := e.alloc(c.st, siteOf(c.in()))
		c.st.mem[o] = mk("cbcst", dir, KVal, 0, e.snap(c.st, b), iv)
		return ret(c, mk("cbcobj", dir, KVal, 0, mkPtr(o), b))
	}
}

func cbcMethod(e *Engine, c *callCtx, r *Term, m string) []Outcome {
	st := c.st
	switch m {
	case "BlockSize":
		return ret(c, blockSize(e, st, r.a[1]))
	case "CryptBlocks":
		src := e.seqOf(st, c.args[2])
		n := seqLen(src)
		bs := blockSize(e, st, r.a[1])
		if k, ok := constInt(bs); ok {
			e.oblige(st, "cbclen", c.in(), mkEq0(iSub(n, iScale(iFdiv(n, bs), k))))
		} else {
			e.oblige(st, "cbclen", c.in(), tFalse)
		}
		e.oblige(st, "cbcdst", c.in(), mkGe0(iSub(e.lenOf(st, c.args[1]), n)))
		cur := e.load(st, r.a[0])
		if src == tEmpty {
			return ret(c)
		}
		out := mk("fixed", "cbc", KSeq, 0, n, mk("cbc", r.s, KSeq, 0, cur.a[0], cur.a[1], src))
		e.writeSeq(st, c.args[1], tZero, out)
		// the next call chains on the last ciphertext block
		e.store(st, r.a[0], mk("cbcst", r.s, KVal, 0, cur.a[0], mk("fixed", "cbciv", KSeq, 0, bs, mk("cbciv", r.s, KSeq, 0, cur.a[1], src, out))))
		return ret(c)
	}
	return e.opaque(c)
}

func blockMethod(e *Engine, c *callCtx, r *Term, m string) []Outcome {
	switch m {
	case "BlockSize":
		return ret(c, blockSize(e, c.st, r))
	case "Encrypt", "Decrypt":
		bs, _ := constInt(blockSize(e, c.st, r))
		e.oblige(c.st, "bounds", c.in(), mkGe0(iSub(e.lenOf(c.st, c.args[1]), ci(bs))))
		e.oblige(c.st, "bounds", c.in(), mkGe0(iSub(e.lenOf(c.st, c.args[2]), ci(bs))))
		src := seqSubC(e.seqOf(c.st, c.args[2]), tZero, ci(bs), c.st.cmp)
		e.writeSeq(c.st, c.args[1], tZero, mk("fixed", "block", KSeq, 0, ci(bs), mk("block"+m, r.s, KSeq, 0, append([]*Term{src}, r.a...)...)))
		return ret(c)
	}
	return e.opaque(c)
}

// ---- effects of unmodelled library calls

// purePkgs never write through their arguments (as used by clients of this kind).
var purePkgs = []string{
	"strings.", "strconv.", "bytes.", "errors.", "fmt.Sprint", "fmt.Errorf", "encoding/hex.", "encoding/base64.", "time.", "(time.", "unicode", "net.", "(net.", "net/url.", "(*net/url.", "reflect.", "(reflect.",
	"crypto/rsa.Verify", "crypto/rsa.Sign", "crypto/ecdsa.", "crypto/ed25519.", "(crypto/ed25519.", "crypto/x509.", "(*crypto/x509.", "crypto/x509/pkix.", "(crypto/x509/pkix.", "(*crypto/x509/pkix.", "(encoding/asn1.",
	"(*math/big.", "math/", "invoke:error.", "invoke:crypto.", "(crypto.", "crypto.", "crypto/elliptic.", "invoke:crypto/elliptic.", "invoke:net.", "encoding/pem.", "io/ioutil.", "os.", "(*crypto/rsa.PublicKey)", "(*crypto/rsa.PrivateKey).Val",
	"(*crypto/ecdsa.", "crypto/subtle.", "path", "sort.Search", "internal/", "(net/url.", "dynamic", "utf8", "slices.", "builtin", "unicode/utf16.", "crypto/hmac.", "hash.", "html", "regexp", "(*strings.", "crypto/rand.", "mime", "(reflect", "maps.", "cmp.",
	"invoke:fmt.", "invoke:interface{Public", "invoke:interface{Equal", "runtime.", "golang.org/x/crypto/cryptobyte",
}

func isPure(name string) bool {
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// havoc forgets what an unknown callee may write through v.
func (e *Engine) havoc(c *callCtx, v *Term, i int, as []*Term) {
	if v.op == "iface" {
		v = v.a[0]
	}
	name := fmt.Sprintf("%s/%d", c.name, i)
	switch v.op {
	case "ptr":
		if v.a[0].a[0].op == "global" {
			return
		}
		old := e.load(c.st, v)
		t := old.typ
		if len(v.a) == 1 && v.a[0].typ != nil {
			t = v.a[0].typ
		}
		var n *Term
		switch {
		case t != nil && old.k != KSeq:
			n = mkTyped("after", name, t, as...)
		case old.k == KSeq:
			n = mk("fixed", "after", KSeq, 0, seqLen(old), mk("after", name, KSeq, 0, as...))
		default:
			n = mk("after", name, old.k, old.w, as...)
		}
		e.store(c.st, v, n)
	case "slice":
		if v.a[2] != tZero {
			e.writeSeq(c.st, v, tZero, mk("fixed", "after", KSeq, 0, v.a[2], mk("after", name, KSeq, 0, as...)))
		}
	}
}
