package main

import "strings"

// Index normalisation of quantified formulas: in an asserted (positive)
// forall b :: body where b only occurs in indices as off+b, the binder is
// shifted so that the index is the binder itself, which gives usable triggers.
// Each shifted copy is equivalent to the original formula.

func normQuant(t *Term) *Term { return normQ(t, true) }

func normQ(t *Term, pos bool) *Term {
	if !hasQuant(t) {
		return t
	}
	switch t.Op {
	case "not":
		return mk(&Term{Op: "not", Args: []*Term{normQ(t.Args[0], !pos)}, Sort: SBool})
	case "and", "or":
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = normQ(a, pos)
		}
		if t.Op == "and" {
			return AndT(as...)
		}
		return OrT(as...)
	case "=>":
		return mk(&Term{Op: "=>", Args: []*Term{normQ(t.Args[0], !pos), normQ(t.Args[1], pos)}, Sort: SBool})
	case "forall":
		body := normQ(t.Args[0], pos)
		if !pos || len(t.Pats) > 0 || len(t.Bound) != 1 || t.Bound[0].Sort != SInt {
			if body == t.Args[0] {
				return t
			}
			return mk(&Term{Op: "forall", Bound: t.Bound, Pats: t.Pats, Args: []*Term{body}, Sort: SBool})
		}
		b := t.Bound[0]
		offs := map[int]*Term{}
		indexOffsets(body, b, offs, map[int]bool{})
		var cp []*Term
		if len(offs) == 0 {
			return mk(&Term{Op: "forall", Bound: t.Bound, Args: []*Term{body}, Sort: SBool})
		}
		var ids []int
		for id := range offs {
			ids = append(ids, id)
		}
		sortInts(ids)
		for n, id := range ids {
			if n >= 4 {
				break
			}
			o := offs[id]
			nb := body
			if k, ok := o.i64(); !ok || k != 0 {
				nb = subst(body, map[int]*Term{b.ID: SubT(b, o)})
			}
			cp = append(cp, mk(&Term{Op: "forall", Bound: t.Bound, Args: []*Term{nb}, Sort: SBool}))
		}
		return AndT(cp...)
	}
	return t
}

func sortInts(a []int) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func hasBV(t, b *Term) bool {
	for _, id := range t.fb {
		if id == b.ID {
			return true
		}
	}
	return false
}

// indexOffsets collects o for every index b+o of a select or sat whose array
// does not mention b.
func indexOffsets(t, b *Term, offs map[int]*Term, seen map[int]bool) {
	if !hasBV(t, b) || seen[t.ID] {
		return
	}
	seen[t.ID] = true
	var idx, arr *Term
	switch {
	case t.Op == "select":
		arr, idx = t.Args[0], t.Args[1]
	case t.Op == "app" && (t.Name == "sat" || strings.HasPrefix(t.Name, "elt!")):
		arr, idx = t.Args[0], t.Args[1]
	}
	if idx != nil && idx.Sort == SInt && hasBV(idx, b) && !hasBV(arr, b) {
		o := SubT(idx, b)
		if !hasBV(o, b) {
			offs[o.ID] = o
		}
	}
	for _, a := range t.Args {
		indexOffsets(a, b, offs, seen)
	}
}
