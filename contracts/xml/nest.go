package xml

// C16: the stack of open elements.

// indented is o followed by the white space that goes before a tag.
func indented(o string, in, nl bool, prefix, indent string, depth, delta int) string {
	if prefix == "" && indent == "" {
		return o
	}
	if delta < 0 {
		if in {
			return o
		}
		depth--
	}
	if nl {
		o += "\n"
	}
	o += prefix
	if indent == "" {
		return o
	}
	return repeated(o, indent, depth)
}

//verif:rec depth=1
func repeated(o, s string, n int) string {
	if n <= 0 {
		return o
	}
	return repeated(o, s, n-1) + s
}

//verif:contract (*printer).writeIndent
//verif:prop C16
func conWriteIndent(p *printer, depthDelta int) {
	vRequires(func() bool { return p != nil && p.w != nil && -1<<62 < p.depth && p.depth < 1<<62 })
	vModifiesAt(&p.err, &p.depth, &p.indentedIn, &p.putNewline, vAt[string]("out", p), vAt[string]("wout", p.w), vAt[string]("wsent", p.w), vAt[error]("err", p.w))
	text := indented(vOut(p), p.indentedIn, p.putNewline, p.prefix, p.indent, p.depth, depthDelta)
	d := p.depth
	p.writeIndent(depthDelta)
	vEnsures("text", func() bool { return vOut(p) == text })
	vEnsures("depth", func() bool {
		if p.prefix == "" && p.indent == "" {
			return p.depth == d
		}
		return vImplies(depthDelta < 0, p.depth == d-1) && vImplies(depthDelta == 0, p.depth == d) && vImplies(depthDelta > 0, p.depth == d+1)
	})
	vEnsures("in step", func() bool { return vImplies(vOld(func() bool { return inStep(p) }), inStep(p)) })
	vEnsures("first error stays", func() bool {
		return vImplies(vOld(func() bool { return p.err != nil }), vSame(p.err, vOld(func() error { return p.err })))
	})
}

//verif:inv conWriteIndent
func invIndent(p *printer, i int) bool {
	return 0 <= i && vOut(p) == repeated(vEntry(func() string { return vOut(p) }), p.indent, i) && (i <= p.depth || i == 0)
}

//verif:inv conWriteIndent
func invIndentStep(p *printer) bool {
	return vImplies(vEntry(func() bool { return inStep(p) }), inStep(p)) && vImplies(vEntry(func() bool { return p.err != nil }), vSame(p.err, vEntry(func() error { return p.err })))
}

// sameStack: the open elements below n are what they were.
func sameElement(a, b element) bool {
	return a.xmlns == b.xmlns && a.prefix == b.prefix && a.name == b.name
}

// tagName is the name of an element as it stands in its tags.
func tagName(e element) string {
	if e.prefix == "" {
		return e.name
	}
	return e.prefix + ":" + e.name
}

//verif:contract (*printer).writeEnd
//verif:prop C16
func conWriteEnd(p *printer, name Name) error {
	vRequires(func() bool { return p != nil && p.w != nil && -1<<62 < p.depth && p.depth < 1<<62 })
	vModifiesAt(&p.err, &p.depth, &p.indentedIn, &p.putNewline, &p.elements, vAt[string]("out", p), vAt[string]("wout", p.w), vAt[string]("wsent", p.w), vAt[error]("err", p.w))
	n := len(p.elements)
	out := vOut(p)
	text := indented(vOut(p), p.indentedIn, p.putNewline, p.prefix, p.indent, p.depth, -1)
	var top element
	if n > 0 {
		top = p.elements[n-1]
	}
	err := p.writeEnd(name)
	prefix, local := splitPrefixed(name.Local)
	vEnsures("only the innermost open element ends", func() bool {
		return vImplies(err == nil, name.Local != "" && n > 0 && local == top.name && name.Space == top.xmlns && (prefix == "" || top.prefix == "" || prefix == top.prefix))
	})
	vEnsures("a matching end is accepted", func() bool {
		return vImplies(name.Local != "" && n > 0 && top.name != "" && local == top.name && name.Space == top.xmlns && (prefix == "" || top.prefix == "" || prefix == top.prefix), err == nil)
	})
	vEnsures("it ends under the name it was opened with", func() bool { return vImplies(err == nil, vOut(p) == text+"</"+tagName(top)+">") })
	vEnsures("one element less", func() bool { return vImplies(err == nil, len(p.elements) == n-1) })
	vEnsures("the others stay", func() bool {
		return vForall(0, len(p.elements), func(i int) bool { return sameElement(p.elements[i], vOld(func() element { return p.elements[i] })) })
	})
	vEnsures("a refused end changes nothing", func() bool {
		return vImplies(err != nil, len(p.elements) == n && vOut(p) == out && vSame(p.err, vOld(func() error { return p.err })) && p.depth == vOld(func() int { return p.depth }))
	})
	vEnsures("in step", func() bool { return vImplies(vOld(func() bool { return inStep(p) }), inStep(p)) })
	return err
}
