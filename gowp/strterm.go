package main

// String terms: sequences of bytes. Literals, explicit byte lists,
// concatenation (flattened), substrings; everything else uninterpreted.

import "math/big"

func StrLit(s string) *Term { return mk(&Term{Op: "strlit", Name: s, Sort: SStr}) }

var TEmpty = StrLit("")

func StrList(bs []*Term) *Term {
	all := true
	for _, b := range bs {
		if b.Op != "int" {
			all = false
		}
	}
	if all {
		buf := make([]byte, len(bs))
		for i, b := range bs {
			buf[i] = byte(b.Val.Int64())
		}
		return StrLit(string(buf))
	}
	return mk(&Term{Op: "slist", Args: bs, Sort: SStr})
}

func SLen(s *Term) *Term {
	switch s.Op {
	case "strlit":
		return IntT(int64(len(s.Name)))
	case "slist":
		return IntT(int64(len(s.Args)))
	case "scat":
		var ls []*Term
		for _, a := range s.Args {
			ls = append(ls, SLen(a))
		}
		return AddT(ls...)
	case "ite":
		return IteT(s.Args[0], SLen(s.Args[1]), SLen(s.Args[2]))
	}
	// slen(ssub(s,i,j)) stays symbolic in quantified contexts too: the
	// substring is only built for 0<=i<=j<=len.
	if s.Op == "app" && s.Name == "ssub" {
		return SubT(s.Args[2], s.Args[1])
	}
	if s.Op == "app" && s.Name == "sfrom" {
		return s.Args[2]
	}
	return AppT("slen", SInt, s)
}

func SAt(s, i *Term) *Term {
	switch s.Op {
	case "strlit":
		if k, ok := i.i64(); ok && k >= 0 && k < int64(len(s.Name)) {
			return IntT(int64(s.Name[k]))
		}
	case "slist":
		if k, ok := i.i64(); ok && k >= 0 && k < int64(len(s.Args)) {
			return s.Args[k]
		}
	case "scat":
		f := s.Args[0]
		n := SLen(f)
		if LtT(i, n) == TTrue {
			return SAt(f, i)
		}
		if LeT(n, i) == TTrue {
			return SAt(SCat(s.Args[1:]...), SubT(i, n))
		}
	case "ite":
		return IteT(s.Args[0], SAt(s.Args[1], i), SAt(s.Args[2], i))
	}
	if s.Op == "app" && s.Name == "ssub" {
		return SAt(s.Args[0], AddT(s.Args[1], i))
	}
	if s.Op == "app" && s.Name == "sfrom" {
		return SelT(s.Args[0], AddT(s.Args[1], i))
	}
	return AppT("sat", SInt, s, i)
}

func SSub(s, i, j *Term) *Term {
	if i == j {
		return TEmpty
	}
	if i == IntT(0) && j == SLen(s) {
		return s
	}
	a, ok1 := i.i64()
	b, ok2 := j.i64()
	if ok1 && ok2 && a >= 0 && a <= b {
		switch s.Op {
		case "strlit":
			if b <= int64(len(s.Name)) {
				return StrLit(s.Name[a:b])
			}
		case "slist":
			if b <= int64(len(s.Args)) {
				return StrList(s.Args[a:b])
			}
		}
	}
	switch s.Op {
	case "scat":
		f := s.Args[0]
		n := SLen(f)
		rest := SCat(s.Args[1:]...)
		if LeT(n, i) == TTrue {
			return SSub(rest, SubT(i, n), SubT(j, n))
		}
		if LeT(j, n) == TTrue {
			return SSub(f, i, j)
		}
		if LeT(i, n) == TTrue && LeT(n, j) == TTrue {
			return SCat(SSub(f, i, n), SSub(rest, IntT(0), SubT(j, n)))
		}
	case "ite":
		return IteT(s.Args[0], SSub(s.Args[1], i, j), SSub(s.Args[2], i, j))
	}
	if s.Op == "app" && s.Name == "ssub" {
		return SSub(s.Args[0], AddT(s.Args[1], i), AddT(s.Args[1], j))
	}
	if s.Op == "app" && s.Name == "sfrom" {
		return SFrom(s.Args[0], AddT(s.Args[1], i), SubT(j, i))
	}
	return AppT("ssub", SStr, s, i, j)
}

// SFrom is the string of n bytes of the byte array arr from off.
func SFrom(arr, off, n *Term) *Term {
	if arr.Op == "app" && arr.Name == "sarr" {
		return SSub(arr.Args[0], off, AddT(off, n))
	}
	if k, ok := n.i64(); ok && k >= 0 && k <= 64 {
		var bs []*Term
		for x := int64(0); x < k; x++ {
			bs = append(bs, SelT(arr, AddT(off, IntT(x))))
		}
		return StrList(bs)
	}
	return AppT("sfrom", SStr, arr, off, n)
}

// SArr is the byte array holding s from index 0.
func SArr(s *Term) *Term {
	if s.Op == "app" && s.Name == "sfrom" && s.Args[1] == IntT(0) {
		return s.Args[0]
	}
	return AppT("sarr", ArrSort(SInt, SInt), s)
}

func SCat(ts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "scat" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if t == TEmpty {
			return
		}
		if len(out) > 0 {
			l := out[len(out)-1]
			if isList(l) && isList(t) {
				out[len(out)-1] = StrList(append(append([]*Term{}, listOf(l)...), listOf(t)...))
				return
			}
			if l.Op == "app" && l.Name == "ssub" && t.Op == "app" && t.Name == "ssub" && l.Args[0] == t.Args[0] && l.Args[2] == t.Args[1] {
				j := SSub(l.Args[0], l.Args[1], t.Args[2])
				out = out[:len(out)-1]
				add(j)
				return
			}
		}
		if len(out) > 0 {
			l := out[len(out)-1]
			if l.Op == "app" && l.Name == "sfrom" && t.Op == "app" && t.Name == "sfrom" && l.Args[0] == t.Args[0] && AddT(l.Args[1], l.Args[2]) == t.Args[1] {
				j := SFrom(l.Args[0], l.Args[1], AddT(l.Args[2], t.Args[2]))
				out = out[:len(out)-1]
				add(j)
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		add(t)
	}
	switch len(out) {
	case 0:
		return TEmpty
	case 1:
		return out[0]
	}
	return mk(&Term{Op: "scat", Args: out, Sort: SStr})
}

func isList(t *Term) bool { return t.Op == "strlit" || t.Op == "slist" }
func listOf(t *Term) []*Term {
	if t.Op == "slist" {
		return t.Args
	}
	var out []*Term
	for i := 0; i < len(t.Name); i++ {
		out = append(out, IntT(int64(t.Name[i])))
	}
	return out
}

// SEq: equality of strings, decided by length and bytes where one side is an
// explicit list.
func SEq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if isList(a) && isList(b) {
		la, lb := listOf(a), listOf(b)
		if len(la) != len(lb) {
			return TFalse
		}
		var cs []*Term
		for i := range la {
			cs = append(cs, EqT(la[i], lb[i]))
		}
		return AndT(cs...)
	}
	if isList(b) && !isList(a) {
		a, b = b, a
	}
	if isList(a) { // b is symbolic
		if b.Op == "ite" {
			return IteT(b.Args[0], SEq(a, b.Args[1]), SEq(a, b.Args[2]))
		}
		if b.Op == "scat" {
			// strip known-length leading/trailing pieces
			l := listOf(a)
			f := b.Args[0]
			if isList(f) {
				fl := listOf(f)
				if len(fl) > len(l) {
					return TFalse
				}
				return AndT(SEq(StrList(l[:len(fl)]), f), SEq(StrList(l[len(fl):]), SCat(b.Args[1:]...)))
			}
			g := b.Args[len(b.Args)-1]
			if isList(g) {
				gl := listOf(g)
				if len(gl) > len(l) {
					return TFalse
				}
				k := len(l) - len(gl)
				return AndT(SEq(StrList(l[k:]), g), SEq(StrList(l[:k]), SCat(b.Args[:len(b.Args)-1]...)))
			}
		}
		la := listOf(a)
		if len(la) == 0 {
			return EqT(SLen(b), IntT(0))
		}
		cs := []*Term{EqT(SLen(b), IntT(int64(len(la))))}
		for i, x := range la {
			cs = append(cs, EqT(SAt(b, IntT(int64(i))), x))
		}
		return AndT(cs...)
	}
	// common prefixes / suffixes of concatenations
	pa, pb := pieces(a), pieces(b)
	changed := false
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb = pa[1:], pb[1:]
		changed = true
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
		changed = true
	}
	if changed {
		return SEq(SCat(pa...), SCat(pb...))
	}
	return EqT(a, b)
}

func pieces(t *Term) []*Term {
	if t.Op == "scat" {
		return t.Args
	}
	return []*Term{t}
}

func mkStrApp(name string, s Sort, as []*Term) *Term {
	switch name {
	case "slen":
		return SLen(as[0])
	case "sat":
		return SAt(as[0], as[1])
	case "ssub":
		return SSub(as[0], as[1], as[2])
	case "sfrom":
		return SFrom(as[0], as[1], as[2])
	case "sarr":
		return SArr(as[0])
	}
	return AppT(name, s, as...)
}

var bigByte = big.NewInt(255)
