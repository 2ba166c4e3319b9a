package main

// ptree is a persistent radix tree keyed by int with ownership tokens for
// in-place mutation by a unique owner.

type owner struct{ _ int }

const pbits = 5
const pfan = 1 << pbits

type pnode struct {
	tok *owner
	ch  [pfan]interface{} // *pnode or leaf value
}

type ptree struct {
	root  *pnode
	shift uint // shift of root level
}

func (t *ptree) get(k int) interface{} {
	n := t.root
	if n == nil || k>>(t.shift+pbits) != 0 {
		return nil
	}
	for s := t.shift; s > 0; s -= pbits {
		c := n.ch[(k>>s)&(pfan-1)]
		if c == nil {
			return nil
		}
		n = c.(*pnode)
	}
	return n.ch[k&(pfan-1)]
}

func (t *ptree) set(tok *owner, k int, v interface{}) {
	if t.root == nil {
		t.root = &pnode{tok: tok}
		t.shift = 0
	}
	for k>>(t.shift+pbits) != 0 {
		nr := &pnode{tok: tok}
		nr.ch[0] = t.root
		t.root = nr
		t.shift += pbits
	}
	if t.root.tok != tok {
		c := *t.root
		c.tok = tok
		t.root = &c
	}
	n := t.root
	for s := t.shift; s > 0; s -= pbits {
		i := (k >> s) & (pfan - 1)
		var c *pnode
		if n.ch[i] == nil {
			c = &pnode{tok: tok}
			n.ch[i] = c
		} else {
			c = n.ch[i].(*pnode)
			if c.tok != tok {
				cc := *c
				cc.tok = tok
				c = &cc
				n.ch[i] = c
			}
		}
		n = c
	}
	n.ch[k&(pfan-1)] = v
}

// pdiff calls f(k, va, vb) for every key whose leaf differs (by interface identity).
func pdiff(a, b *ptree, f func(k int, va, vb interface{}) bool) bool {
	// normalise heights
	ra, rb := a.root, b.root
	sa, sb := a.shift, b.shift
	for sa < sb {
		n := &pnode{}
		if ra != nil {
			n.ch[0] = ra
		}
		ra = n
		sa += pbits
	}
	for sb < sa {
		n := &pnode{}
		if rb != nil {
			n.ch[0] = rb
		}
		rb = n
		sb += pbits
	}
	var rec func(x, y *pnode, s uint, base int) bool
	rec = func(x, y *pnode, s uint, base int) bool {
		if x == y {
			return true
		}
		for i := 0; i < pfan; i++ {
			var cx, cy interface{}
			if x != nil {
				cx = x.ch[i]
			}
			if y != nil {
				cy = y.ch[i]
			}
			k := base | i<<s
			if s == 0 {
				if cx != cy {
					if !f(k, cx, cy) {
						return false
					}
				}
				continue
			}
			if cx == nil && cy == nil {
				continue
			}
			nx, _ := cx.(*pnode)
			ny, _ := cy.(*pnode)
			if !rec(nx, ny, s-pbits, k) {
				return false
			}
		}
		return true
	}
	return rec(ra, rb, sa, 0)
}
