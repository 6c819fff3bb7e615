package main

// sibling is g with one thing changed: what a table keyed by too little of a
// grammar confuses. Names stay, so what is derived from one is mostly fit for
// the other.
func sibling(c *Ctx, g *gram) *gram {
	var clone func(t *gterm) *gterm
	var rules func(rs []grule) []grule
	var nodes []*gterm
	clone = func(t *gterm) *gterm {
		n := *t
		n.sub = nil
		nodes = append(nodes, &n)
		for _, s := range t.sub {
			n.sub = append(n.sub, clone(s))
		}
		if t.def != nil {
			n.def = clone(t.def)
		}
		n.rules = rules(t.rules)
		return &n
	}
	rules = func(rs []grule) (out []grule) {
		for _, r := range rs {
			out = append(out, grule{r.name, clone(r.t)})
		}
		return
	}
	out := &gram{rules: rules(g.rules), wrap: g.wrap, macros: g.macros}
	if c.Chance(1, 2, "a whole rule") {
		nodes = nil
		for _, r := range out.rules {
			t := r.t
			nodes = append(nodes, t)
			for (t.k == kSeq || t.k == kStack) && len(t.sub) > 0 {
				t = t.sub[0]
				nodes = append(nodes, t)
			}
		}
	}
	type change struct {
		what string
		do   func()
	}
	var by [8][]change
	add := func(i int, what string, f func()) { by[i] = append(by[i], change{what, f}) }
	for _, t := range nodes {
		t := t
		switch t.k {
		case kS:
			add(0, "literal becomes regexp", func() {
				for _, r := range t.s {
					if !(r >= 'a' && r <= 'z') {
						return
					}
				}
				t.k = kRE
			})
			add(1, "other literal", func() { t.s = literals[c.Draw(len(literals), "literal")] })
		case kRE:
			add(1, "other regexp", func() { t.s += "?" })
		case kOneof, kSeq:
			if n := len(t.sub); n > 1 {
				add(2, "order", func() {
					i := c.Draw(n-1, "swap at")
					t.sub[i], t.sub[i+1] = t.sub[i+1], t.sub[i]
				})
				last := t.sub[n-1]
				if t.k == kOneof && (last.k == kQuant || last.k == kDelim) {
					add(3, "wider repetition", func() {
						alts := append(append([]*gterm{}, t.sub[:n-1]...), last.sub[0])
						wide := *last
						wide.sub = append([]*gterm{{k: kOneof, sub: alts}}, last.sub[1:]...)
						*t = wide
					})
				}
				if first := t.sub[0]; t.k == kOneof && first.k == kNamed {
					add(3, "wider name", func() {
						alts := append([]*gterm{first.sub[0]}, t.sub[1:]...)
						*t = gterm{k: kNamed, s: first.s, sub: []*gterm{{k: kOneof, sub: alts}}}
					})
				}
			}
			if t.k == kSeq && len(t.sub) > 0 {
				add(4, "alternatives instead of a sequence", func() { t.k = kOneof })
			}
		case kQuant:
			if in := t.sub[0]; in.k == kOneof && len(in.sub) > 1 {
				add(3, "narrower repetition", func() {
					n := len(in.sub)
					narrow := *t
					narrow.sub = []*gterm{in.sub[n-1]}
					*t = gterm{k: kOneof, sub: append(append([]*gterm{}, in.sub[:n-1]...), &narrow)}
				})
			}
			add(5, "other bounds", func() {
				b := [][2]int{{0, 0}, {1, 0}, {0, 1}, {2, 0}, {0, 2}, {1, 2}, {2, 3}}[c.Draw(7, "bounds")]
				t.min, t.max = b[0], b[1]
			})
		case kDelim:
			add(5, "other associativity", func() { t.assoc = c.Draw(3, "assoc") - 1 })
			add(5, "other edges", func() { t.lead, t.trail = !t.lead && !t.trail, t.lead })
		case kNamed:
			add(6, "other name", func() { t.s = []string{"n0", "n1", "n2", "n3"}[c.Draw(4, "name")] })
			if in := t.sub[0]; in.k == kOneof && len(in.sub) > 1 {
				add(3, "narrower name", func() {
					first := &gterm{k: kNamed, s: t.s, sub: []*gterm{in.sub[0]}}
					*t = gterm{k: kOneof, sub: append([]*gterm{first}, in.sub[1:]...)}
				})
			}
		}
	}
	add(7, "other whitespace", func() {
		if out.wrap == "" {
			out.wrap = `\s*()`
		} else {
			out.wrap = ""
		}
	})
	order := []int{3, 3, 0, 1, 2, 4, 5, 6, 7}
	for range order {
		if cs := by[order[c.Draw(len(order), "change")]]; len(cs) > 0 {
			ch := cs[c.Draw(len(cs), "where")]
			ch.do()
			c.Probe("sibling: " + ch.what)
			break
		}
	}
	return out
}

// homonyms are two grammars that print alike and mean different things.
func homonyms(c *Ctx) (a, b *gram) {
	word := func() *gterm { return &gterm{k: kS, s: literals[c.Draw(len(literals), "literal")]} }
	item := func(i int) *gterm {
		switch c.Draw(4, "item") {
		case 0:
			return word()
		case 1:
			return &gterm{k: kRule, s: "r1"}
		default:
			return &gterm{k: kNamed, s: []string{"n0", "n1", "n2", "n3"}[i%4], sub: []*gterm{word()}}
		}
	}
	n := 1 + c.Draw(2, "alternatives")
	var alts []*gterm
	for i := 0; i < n; i++ {
		alts = append(alts, item(i))
	}
	last := item(n)
	of := func(k kind, ts ...*gterm) *gterm { return &gterm{k: k, sub: ts} }
	with := func(x *gterm) []*gterm { return append(append([]*gterm{}, alts...), x) }
	var t, u *gterm
	switch c.Draw(4, "form") {
	case 3:
		// values of one text and different structure, asked for again
		x := []string{"ab", "aa", "xy", "if"}[c.Draw(4, "value")]
		val := func(split bool) *gterm {
			v := &gterm{k: kS, s: x}
			if split {
				v = of(kSeq, &gterm{k: kS, s: x[:1]}, &gterm{k: kS, s: x[1:]})
			}
			return &gterm{k: kNamed, s: "n0", sub: []*gterm{v}}
		}
		ref := &gterm{k: kRef, s: "n0"}
		t, u = of(kSeq, val(false), ref), of(kSeq, val(true), ref)
	case 0:
		b := [][2]int{{0, 0}, {1, 0}, {0, 1}, {2, 3}}[c.Draw(4, "bounds")]
		q := func(x *gterm) *gterm { return &gterm{k: kQuant, min: b[0], max: b[1], sub: []*gterm{x}} }
		t, u = q(of(kOneof, with(last)...)), of(kOneof, with(q(last))...)
	case 1:
		sep := &gterm{k: kS, s: ","}
		t, u = of(kDelim, of(kOneof, with(last)...), sep), of(kOneof, with(of(kDelim, last, sep))...)
	default:
		nm := func(x *gterm) *gterm { return &gterm{k: kNamed, s: "n3", sub: []*gterm{x}} }
		t, u = nm(of(kOneof, append([]*gterm{last}, alts...)...)), of(kOneof, append([]*gterm{nm(last)}, alts...)...)
	}
	switch c.Draw(3, "within") {
	case 0:
		t, u = of(kSeq, &gterm{k: kS, s: "("}, t), of(kSeq, &gterm{k: kS, s: "("}, u)
	case 1:
		nm := func(x *gterm) *gterm { return &gterm{k: kNamed, s: "n2", sub: []*gterm{x}} }
		t, u = nm(t), nm(u)
	}
	rest := grule{"r1", word()}
	a, b = &gram{rules: []grule{{"r0", t}, rest}}, &gram{rules: []grule{{"r0", u}, rest}}
	if c.Chance(1, 2, "the other way round") {
		a, b = b, a
	}
	return
}
