package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// Lin is a linear integer expression: c + sum of k*sym.
type Lin struct {
	C int64
	T []term
}

type term struct {
	Sym string
	K   int64
}

func linConst(c int64) Lin  { return Lin{C: c} }
func linSym(s string) Lin   { return Lin{T: []term{{s, 1}}} }
func (l Lin) isConst() bool { return len(l.T) == 0 }

func (l Lin) key() string {
	if len(l.T) == 0 {
		return fmt.Sprint(l.C)
	}
	var sb strings.Builder
	for _, t := range l.T {
		fmt.Fprintf(&sb, "%+d*%s", t.K, t.Sym)
	}
	if l.C != 0 {
		fmt.Fprintf(&sb, "%+d", l.C)
	}
	return sb.String()
}

func (l Lin) String() string { return l.key() }

func (l Lin) add(m Lin) Lin { return l.addK(m, 1) }
func (l Lin) sub(m Lin) Lin { return l.addK(m, -1) }

func (l Lin) addK(m Lin, k int64) Lin {
	r := Lin{C: l.C + k*m.C}
	i, j := 0, 0
	for i < len(l.T) || j < len(m.T) {
		switch {
		case j == len(m.T) || i < len(l.T) && l.T[i].Sym < m.T[j].Sym:
			r.T = append(r.T, l.T[i])
			i++
		case i == len(l.T) || m.T[j].Sym < l.T[i].Sym:
			r.T = append(r.T, term{m.T[j].Sym, k * m.T[j].K})
			j++
		default:
			if n := l.T[i].K + k*m.T[j].K; n != 0 {
				r.T = append(r.T, term{l.T[i].Sym, n})
			}
			i++
			j++
		}
	}
	return r
}

func (l Lin) addC(c int64) Lin { return Lin{C: l.C + c, T: l.T} }

func (l Lin) neg() Lin { return Lin{}.addK(l, -1) }

func (l Lin) scale(k int64) Lin { return Lin{}.addK(l, k) }

func (l Lin) rename(f func(string) string) Lin {
	if len(l.T) == 0 {
		return l
	}
	r := Lin{C: l.C}
	for _, t := range l.T {
		r = r.addK(linSym(f(t.Sym)), t.K)
	}
	return r
}

const inf = math.MaxInt64 / 4

func addInf(a, b int64) int64 {
	if a >= inf || b >= inf {
		return inf
	}
	s := a + b
	if s >= inf {
		return inf
	}
	if s < -inf {
		return -inf
	}
	return s
}

// Zone is a difference-bound matrix over named integer symbols, kept closed.
// Index 0 stands for the constant zero. m[i][j] bounds x_i - x_j from above.
type Zone struct {
	idx  map[string]int
	syms []string
	m    [][]int64
	bot  bool
	defs []def // sym = expression with several symbols
}

type def struct {
	sym string
	l   Lin
}

func newZone() *Zone {
	return &Zone{idx: map[string]int{"": 0}, syms: []string{""}, m: [][]int64{{0}}}
}

func (z *Zone) clone() *Zone {
	n := &Zone{idx: make(map[string]int, len(z.idx)), syms: append([]string(nil), z.syms...), bot: z.bot}
	for k, v := range z.idx {
		n.idx[k] = v
	}
	n.m = make([][]int64, len(z.m))
	for i := range z.m {
		n.m[i] = append([]int64(nil), z.m[i]...)
	}
	n.defs = append([]def(nil), z.defs...)
	return n
}

func (z *Zone) has(s string) bool { _, ok := z.idx[s]; return ok }

func (z *Zone) sym(s string) int {
	if i, ok := z.idx[s]; ok {
		return i
	}
	n := len(z.syms)
	z.idx[s] = n
	z.syms = append(z.syms, s)
	for i := range z.m {
		z.m[i] = append(z.m[i], inf)
	}
	row := make([]int64, n+1)
	for i := range row {
		row[i] = inf
	}
	row[n] = 0
	z.m = append(z.m, row)
	return n
}

// le adds x_i - x_j <= c and restores closure.
func (z *Zone) le(i, j int, c int64) {
	if z.bot || c >= z.m[i][j] {
		return
	}
	if i == j {
		if c < 0 {
			z.bot = true
		}
		return
	}
	if addInf(z.m[j][i], c) < 0 && z.m[j][i] < inf {
		z.bot = true
		return
	}
	n := len(z.m)
	for a := 0; a < n; a++ {
		ai := z.m[a][i]
		if ai >= inf {
			continue
		}
		for b := 0; b < n; b++ {
			jb := z.m[j][b]
			if jb >= inf {
				continue
			}
			if v := addInf(addInf(ai, c), jb); v < z.m[a][b] {
				z.m[a][b] = v
			}
		}
	}
}

// bound returns the upper bound of x_i - x_j known for possibly unknown symbols.
func (z *Zone) bound(a, b string) int64 {
	if a == b {
		return 0
	}
	i, ok := z.idx[a]
	if !ok {
		return inf
	}
	j, ok := z.idx[b]
	if !ok {
		return inf
	}
	return z.m[i][j]
}

// ub returns an upper bound for the value of l (inf if none is known).
func (z *Zone) ub(l Lin) int64 { return z.ubDepth(l, 2) }

func (z *Zone) ubDepth(l Lin, depth int) int64 {
	best := z.ubDirect(l)
	if depth > 0 && len(l.T) > 1 {
		for _, d := range z.defs {
			// d.sym - d.l == 0: add it with either sign if it cancels something.
			e := linSym(d.sym).sub(d.l)
			for _, k := range []int64{1, -1} {
				n := l.addK(e, k)
				if len(n.T) < len(l.T) {
					if v := z.ubDepth(n, depth-1); v < best {
						best = v
					}
				}
			}
		}
	}
	return best
}

func (z *Zone) ubDirect(l Lin) int64 {
	switch len(l.T) {
	case 0:
		return l.C
	case 1:
		t := l.T[0]
		var b int64
		if t.K > 0 {
			b = z.bound(t.Sym, "")
		} else {
			b = z.bound("", t.Sym)
		}
		if b >= inf {
			return inf
		}
		k := t.K
		if k < 0 {
			k = -k
		}
		return addInf(l.C, mulInf(b, k))
	}
	// expand into unit terms and pair positives with negatives
	var pos, neg []string
	for _, t := range l.T {
		k := t.K
		if k > 8 || k < -8 {
			return z.ubInterval(l)
		}
		for ; k > 0; k-- {
			pos = append(pos, t.Sym)
		}
		for ; k < 0; k++ {
			neg = append(neg, t.Sym)
		}
	}
	if len(pos)+len(neg) > 6 {
		return z.ubInterval(l)
	}
	return addInf(l.C, z.pair(pos, neg))
}

func mulInf(b, k int64) int64 {
	if b >= inf {
		return inf
	}
	if b != 0 && (k > inf/abs64(b)) {
		if b > 0 {
			return inf
		}
		return -inf
	}
	return b * k
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func (z *Zone) pair(pos, neg []string) int64 {
	if len(pos) == 0 {
		s := int64(0)
		for _, n := range neg {
			s = addInf(s, z.bound("", n))
		}
		return s
	}
	p := pos[0]
	best := addInf(z.bound(p, ""), z.pair(pos[1:], neg))
	for i, n := range neg {
		rest := append(append([]string(nil), neg[:i]...), neg[i+1:]...)
		if v := addInf(z.bound(p, n), z.pair(pos[1:], rest)); v < best {
			best = v
		}
	}
	return best
}

func (z *Zone) ubInterval(l Lin) int64 {
	s := l.C
	for _, t := range l.T {
		if t.K > 0 {
			s = addInf(s, mulInf(z.bound(t.Sym, ""), t.K))
		} else {
			s = addInf(s, mulInf(z.bound("", t.Sym), -t.K))
		}
	}
	return s
}

func (z *Zone) lb(l Lin) int64 {
	u := z.ub(l.neg())
	if u >= inf {
		return -inf
	}
	return -u
}

// assumeLE adds l <= 0.
func (z *Zone) assumeLE(l Lin) {
	if z.bot {
		return
	}
	switch len(l.T) {
	case 0:
		if l.C > 0 {
			z.bot = true
		}
		return
	case 1:
		t := l.T[0]
		i := z.sym(t.Sym)
		if t.K > 0 {
			z.le(i, 0, floorDiv(-l.C, t.K))
		} else {
			z.le(0, i, floorDiv(-l.C, -t.K))
		}
		return
	}
	if z.lb(l) > 0 {
		z.bot = true
		return
	}
	// x - y <= -c - lb(rest), for all unit pairs; and single variables.
	for _, p := range l.T {
		if p.K != 1 {
			continue
		}
		rest := l.addK(linSym(p.Sym), -1)
		if lb := z.lb(rest); lb > -inf {
			z.le(z.sym(p.Sym), 0, -lb)
		}
		for _, n := range l.T {
			if n.K != -1 {
				continue
			}
			r2 := rest.addK(linSym(n.Sym), 1)
			if lb := z.lb(r2); lb > -inf {
				z.le(z.sym(p.Sym), z.sym(n.Sym), -lb)
			}
		}
	}
	for _, n := range l.T {
		if n.K != -1 {
			continue
		}
		rest := l.addK(linSym(n.Sym), 1)
		if lb := z.lb(rest); lb > -inf {
			z.le(0, z.sym(n.Sym), -lb)
		}
	}
	for _, t := range l.T {
		if t.K >= -1 && t.K <= 1 {
			continue
		}
		lb := z.lb(l.addK(linSym(t.Sym), -t.K))
		if lb <= -inf {
			continue
		}
		if t.K > 0 {
			z.le(z.sym(t.Sym), 0, floorDiv(-lb, t.K))
		} else {
			z.le(0, z.sym(t.Sym), floorDiv(-lb, -t.K))
		}
	}
	// if a definition stands for part of l, also constrain that symbol
	if len(l.T) > 2 {
		for _, d := range z.defs {
			e := linSym(d.sym).sub(d.l)
			for _, k := range []int64{1, -1} {
				n := l.addK(e, k)
				if len(n.T) < len(l.T) && len(n.T) <= 2 {
					z.assumeLE(n)
				}
			}
		}
	}
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (z *Zone) assumeEQ(l Lin) {
	z.assumeLE(l)
	z.assumeLE(l.neg())
}

// define introduces s == l.
func (z *Zone) define(s string, l Lin) {
	z.sym(s)
	for _, t := range l.T {
		z.sym(t.Sym)
	}
	z.assumeEQ(linSym(s).sub(l))
	// bounds against every other symbol that can be derived
	if len(l.T) > 1 {
		for _, o := range append([]string(nil), z.syms...) {
			if o == s {
				continue
			}
			ol := linSym(o)
			if o == "" {
				ol = Lin{}
			}
			if u := z.ub(l.sub(ol)); u < inf {
				z.le(z.sym(s), z.sym(o), u)
			}
			if u := z.ub(ol.sub(l)); u < inf {
				z.le(z.sym(o), z.sym(s), u)
			}
		}
		z.defs = append(z.defs, def{s, l})
	}
}

// keep restricts the zone to the given symbols.
func (z *Zone) keep(used map[string]bool) {
	var idx []int
	for i, s := range z.syms {
		if s == "" || used[s] {
			idx = append(idx, i)
		}
	}
	if len(idx) == len(z.syms) {
		return
	}
	n := &Zone{idx: map[string]int{}, bot: z.bot}
	for a, i := range idx {
		n.idx[z.syms[i]] = a
		n.syms = append(n.syms, z.syms[i])
		row := make([]int64, len(idx))
		for b, j := range idx {
			row[b] = z.m[i][j]
		}
		n.m = append(n.m, row)
	}
	for _, d := range z.defs {
		ok := used[d.sym]
		for _, t := range d.l.T {
			ok = ok && used[t.Sym]
		}
		if ok {
			n.defs = append(n.defs, d)
		}
	}
	*z = *n
}

func (z *Zone) rename(f func(string) string) {
	idx := make(map[string]int, len(z.idx))
	for i, s := range z.syms {
		if s != "" {
			s = f(s)
		}
		z.syms[i] = s
		idx[s] = i
	}
	z.idx = idx
	for i, d := range z.defs {
		z.defs[i] = def{f(d.sym), d.l.rename(f)}
	}
}

// joinZone returns the join (or widening) of a and b over their common symbols.
func joinZone(a, b *Zone, widen int) *Zone {
	if a.bot {
		return b.clone()
	}
	if b.bot {
		return a.clone()
	}
	n := newZone()
	var ai, bi []int
	ai, bi = []int{0}, []int{0}
	names := append([]string(nil), a.syms[1:]...)
	sort.Strings(names)
	for _, s := range names {
		if j, ok := b.idx[s]; ok {
			n.idx[s] = len(n.syms)
			n.syms = append(n.syms, s)
			ai = append(ai, a.idx[s])
			bi = append(bi, j)
		}
	}
	k := len(n.syms)
	n.m = make([][]int64, k)
	for i := 0; i < k; i++ {
		n.m[i] = make([]int64, k)
		for j := 0; j < k; j++ {
			av, bv := a.m[ai[i]][ai[j]], b.m[bi[i]][bi[j]]
			if bv > av {
				switch widen {
				case 0:
					av = bv
				case 1:
					// thresholds keep small useful bounds
					av = widenTo(bv)
				default:
					av = inf
				}
			}
			n.m[i][j] = av
		}
	}
	for _, d := range a.defs {
		for _, e := range b.defs {
			if d.sym == e.sym && d.l.key() == e.l.key() && n.has(d.sym) {
				n.defs = append(n.defs, d)
			}
		}
	}
	if widen == 1 {
		n.close()
	}
	return n
}

var thresholds = []int64{-1, 0, 1, 2, 255, 65535, math.MaxInt32}

func widenTo(v int64) int64 {
	for _, t := range thresholds {
		if v <= t {
			return t
		}
	}
	return inf
}

func (z *Zone) close() {
	n := len(z.m)
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if z.m[i][k] >= inf {
				continue
			}
			for j := 0; j < n; j++ {
				if v := addInf(z.m[i][k], z.m[k][j]); v < z.m[i][j] {
					z.m[i][j] = v
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if z.m[i][i] < 0 {
			z.bot = true
		}
	}
}

// leq reports whether a's constraints imply b's (over b's symbols).
func (a *Zone) leq(b *Zone) bool {
	if a.bot {
		return true
	}
	if b.bot {
		return false
	}
	for i, si := range b.syms {
		for j, sj := range b.syms {
			if b.m[i][j] >= inf || i == j {
				continue
			}
			if a.bound(si, sj) > b.m[i][j] {
				return false
			}
		}
	}
	return true
}

func (z *Zone) String() string {
	if z.bot {
		return "⊥"
	}
	var out []string
	for i := range z.syms {
		for j := range z.syms {
			if i != j && z.m[i][j] < inf {
				out = append(out, fmt.Sprintf("%s-%s<=%d", z.syms[i], z.syms[j], z.m[i][j]))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}
