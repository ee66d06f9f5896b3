package main

import "strings"

// Terms for reads with cryptobyte.String of one DER element at the start of s: whatever is expected of the element, its
// contents, the element itself and what follows it are the same.

func cbElementRead(name string) bool {
	return name == "ASN1" || name == "Any" || name == "Integer" || name == "Int64WithTag" || strings.HasPrefix(name, "ASN1")
}

func cbOK(name string, s *Term, key ...*Term) *Term {
	if name == "ASN1" && s.op == "cb.elem" {
		s = s.a[0]
	}
	if s == tEmpty && cbElementRead(name) {
		return tFalse
	}
	return mk("cb.ok", name, KBool, 0, append([]*Term{s}, key...)...)
}

func cbRest(name string, s *Term, key ...*Term) *Term {
	if !cbElementRead(name) {
		return mk("cb.rest", name, KSeq, 0, append([]*Term{s}, key...)...)
	}
	if s.op == "cb.elem" {
		return tEmpty
	}
	return mk("cb.rest", "", KSeq, 0, s)
}

func cbVal(s *Term) *Term {
	if s.op == "cb.elem" {
		s = s.a[0]
	}
	return mk("cb.val", "", KSeq, 0, s)
}

func cbElem(s *Term) *Term {
	if s.op == "cb.elem" {
		return s
	}
	return mk("cb.elem", "", KSeq, 0, s)
}
