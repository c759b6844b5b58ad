package xml

// C17: the declarations made at the open elements.

// elemMaps: the two maps of the i'th open element are a pair of their own.
func elemMaps(e element, i int) bool {
	return (e.nsToPrefix == nil) == (e.prefixToNS == nil) &&
		vImplies(e.nsToPrefix != nil, vGhostInt("at", e.nsToPrefix) == i && vGhostInt("at", e.prefixToNS) == -1-i)
}

// elemNS: the prefix recorded for a namespace is bound to that namespace.
func elemNS(e element, u string) bool {
	return vImplies(u != "" && e.nsToPrefix[u] != "", e.prefixToNS[e.nsToPrefix[u]] == u)
}

func nsMaps(p *printer) bool {
	return vForall(0, len(p.elements), func(i int) bool { return elemMaps(p.elements[i], i) })
}

func nsPrefixes(p *printer) bool {
	return vForall(0, len(p.elements), func(i int) bool {
		return vForallStr(func(u string) bool { return elemNS(p.elements[i], u) })
	})
}

func nsInv(p *printer) bool { return nsMaps(p) && nsPrefixes(p) && nsTop(p) }

// nsTop is an instance of nsMaps.
func nsTop(p *printer) bool {
	return vImplies(len(p.elements) > 0, elemMaps(p.elements[len(p.elements)-1], len(p.elements)-1))
}

// bound is the namespace that prefix is bound to by the first n open elements.
//
//verif:rec depth=1
func bound(p *printer, n int, prefix string) string {
	if n <= 0 {
		return ""
	}
	if p.elements[n-1].prefixToNS[prefix] != "" {
		return p.elements[n-1].prefixToNS[prefix]
	}
	return bound(p, n-1, prefix)
}

func reserved(uri string) bool {
	return uri == "http://www.w3.org/XML/1998/namespace" || uri == "http://www.w3.org/2000/xmlns/"
}

func reservedPrefix(uri string) string {
	if uri == "http://www.w3.org/XML/1998/namespace" {
		return "xml"
	}
	return "xmlns"
}

//verif:contract (*printer).getPrefix
//verif:prop C17
func conGetPrefix(p *printer, uri string) string {
	vRequires(func() bool { return p != nil && nsMaps(p) })
	vRequires(func() bool { return nsPrefixes(p) })
	vRequires(func() bool { return nsTop(p) })
	prefix := p.getPrefix(uri)
	vEnsures("reserved", func() bool { return vImplies(reserved(uri), prefix == reservedPrefix(uri)) })
	vEnsures("in scope", func() bool {
		return vImplies(uri != "" && !reserved(uri) && prefix != "", bound(p, len(p.elements), prefix) == uri && len(p.elements) > 0)
	})
	return prefix
}

//verif:inv conGetPrefix
func invGetPrefixUp(p *printer, uri, prefix string, i int) bool {
	return i <= len(p.elements) && vImplies(uri != "", bound(p, i, prefix) == uri)
}

//verif:inv conGetPrefix
func invGetPrefixDown(p *printer, i int) bool {
	return -1 <= i && i < len(p.elements)
}

// topPrefixes are the prefixes recorded at the innermost open element.
func topBound(p *printer, prefix string) string {
	if len(p.elements) == 0 {
		return ""
	}
	return p.elements[len(p.elements)-1].prefixToNS[prefix]
}

// linkMaps: the maps of the innermost element are where the invariant expects them.
func linkMaps(p *printer) {
	if n := len(p.elements); n > 0 && p.elements[n-1].nsToPrefix != nil {
		vSetInt("at", p.elements[n-1].nsToPrefix, n-1)
		vSetInt("at", p.elements[n-1].prefixToNS, -n)
	}
}

//verif:contract (*printer).usePrefix
//verif:prop C17
func conUsePrefix(p *printer, prefix, uri string) {
	vRequires(func() bool { return p != nil && nsMaps(p) })
	vRequires(func() bool { return nsPrefixes(p) })
	vRequires(func() bool { return nsTop(p) })
	vRequires(func() bool { return prefix != "" })
	vModifies("map:map[string]string", "$at")
	n := len(p.elements)
	if n > 0 {
		vModifiesAt(&p.elements[n-1].nsToPrefix, &p.elements[n-1].prefixToNS)
	}
	p.usePrefix(prefix, uri)
	linkMaps(p)
	vEnsures("recorded", func() bool { return vImplies(n > 0 && uri != "" && !reserved(uri), topBound(p, prefix) != "") })
	vEnsures("recorded with its namespace", func() bool {
		return vImplies(n > 0 && !reserved(uri), topBound(p, prefix) == uri || vOld(func() bool { return topBound(p, prefix) != "" }))
	})
	vEnsures("the other prefixes stay", func() bool {
		return vForallStr(func(q string) bool {
			return vImplies(vOld(func() bool { return topBound(p, q) != "" }), topBound(p, q) == vOld(func() string { return topBound(p, q) }))
		})
	})
	vEnsures("maps", func() bool { return nsMaps(p) })
	vEnsures("maps of the innermost", func() bool { return nsTop(p) })
	vEnsures("prefixes", func() bool { return nsPrefixes(p) })
	vEnsures("outer elements stay", func() bool { return outerStay(p, n) })
}

// outerStay: the elements around the innermost one have the declarations they had.
func outerStay(p *printer, n int) bool {
	return vForall(0, n-1, func(i int) bool {
		return vForallStr(func(q string) bool {
			return p.elements[i].prefixToNS[q] == vOld(func() string { return p.elements[i].prefixToNS[q] })
		})
	})
}

func xmlish(s string) bool {
	return len(s) >= 3 && (s[0] == 'x' || s[0] == 'X') && (s[1] == 'm' || s[1] == 'M') && (s[2] == 'l' || s[2] == 'L')
}

// plainPrefix: s can be a prefix as it is.
func plainPrefix(s string) bool {
	return validName(s) && !vContains(s, "/") && !vContains(s, ":") && !xmlish(s)
}

//verif:contract (*printer).createPrefix
//verif:prop C17
//verif:noterm
func conCreatePrefix(p *printer, uri, preferred string) (string, bool) {
	vRequires(func() bool { return p != nil && nsMaps(p) })
	vRequires(func() bool { return nsPrefixes(p) })
	vRequires(func() bool { return nsTop(p) })
	vModifies("map:map[string]string", "$at")
	vModifiesAt(&p.seq)
	n := len(p.elements)
	if n > 0 {
		vModifiesAt(&p.elements[n-1].nsToPrefix, &p.elements[n-1].prefixToNS)
	}
	prefix, created := p.createPrefix(uri, preferred)
	linkMaps(p)
	vEnsures("reserved", func() bool { return vImplies(reserved(uri), prefix == reservedPrefix(uri) && !created) })
	vEnsures("nothing to declare it on", func() bool { return vImplies(n == 0, !created) })
	vEnsures("a prefix", func() bool { return vImplies(n > 0, prefix != "") })
	vEnsures("bound", func() bool {
		return vImplies(n > 0 && uri != "" && !reserved(uri), topBound(p, prefix) == uri)
	})
	vEnsures("in scope if not declared", func() bool {
		return vImplies(n > 0 && uri != "" && !reserved(uri) && !created, vOld(func() bool { return bound(p, n, prefix) == uri }))
	})
	vEnsures("declared only when free", func() bool {
		return vImplies(created, vOld(func() bool { return topBound(p, prefix) == "" }))
	})
	vEnsures("reserved prefixes are never declared", func() bool { return vImplies(created, !xmlish(prefix)) })
	vEnsures("the preferred prefix when it is free", func() bool {
		return vImplies(n > 0 && uri != "" && !reserved(uri) && plainPrefix(preferred) && vOld(func() bool { return topBound(p, preferred) == "" }), prefix == preferred)
	})
	vEnsures("the other prefixes stay", func() bool {
		return vForallStr(func(q string) bool {
			return vImplies(vOld(func() bool { return topBound(p, q) != "" }), topBound(p, q) == vOld(func() string { return topBound(p, q) }))
		})
	})
	vEnsures("maps", func() bool { return nsMaps(p) })
	vEnsures("maps of the innermost", func() bool { return nsTop(p) })
	vEnsures("prefixes", func() bool { return nsPrefixes(p) })
	vEnsures("outer elements stay", func() bool { return outerStay(p, n) })
	return prefix, created
}

// defaultAt is the default namespace declared by the innermost of the first n
// open elements that declares one.
//
//verif:rec depth=1
func defaultAt(p *printer, n int) string {
	if n <= 0 {
		return ""
	}
	if p.elements[n-1].hasDefault {
		return p.elements[n-1].defaultNS
	}
	return defaultAt(p, n-1)
}

func withNS(s, attr, uri string) string {
	return escFrom(s+" "+attr+"=\"", uri, 0, true, true) + "\""
}

//verif:contract (*printer).writePrefixAttr
//verif:prop C17
func conWritePrefixAttr(p *printer, prefix, uri string) {
	vRequires(func() bool { return p != nil && p.w != nil })
	vModifiesAt(&p.err, vAt[string]("out", p), vAt[string]("wout", p.w), vAt[string]("wsent", p.w), vAt[error]("err", p.w))
	out := vOut(p)
	p.writePrefixAttr(prefix, uri)
	vEnsures("declaration", func() bool { return vOut(p) == escFrom(out+"xmlns:"+prefix+"=\"", uri, 0, true, true)+"\"" })
	vEnsures("after what was there", func() bool { return begins(vOut(p), out) })
	vEnsures("in step", func() bool { return vImplies(vOld(func() bool { return inStep(p) }), inStep(p)) })
}
