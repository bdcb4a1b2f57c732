package govf

import "math"

// bound reads a comparison of one integer term with a constant: it holds exactly
// for values of x in lo..hi (outside, if neg).
func bound(c *Term) (x *Term, lo, hi int64, neg, ok bool) {
	if c.Op == "app" && c.S == "not" && len(c.Args) == 1 {
		x, lo, hi, neg, ok = bound(c.Args[0])
		return x, lo, hi, !neg, ok
	}
	if c.Op != "app" || len(c.Args) != 2 || c.S != "<" && c.S != "=" || c.Args[0].Sort != Int {
		return
	}
	side := func(t *Term) (*Term, int64) {
		switch {
		case t.IsInt():
			return nil, t.N
		case t.Op == "lin":
			if len(t.Args) == 1 && t.C[0] == 1 {
				return t.Args[0], t.N
			}
		}
		return t, 0
	}
	a, m := side(c.Args[0])
	b, n := side(c.Args[1])
	const big = 1 << 60
	if m > big || m < -big || n > big || n < -big || (a == nil) == (b == nil) {
		return
	}
	lo, hi = math.MinInt64, math.MaxInt64
	switch {
	case c.S == "=" && b == nil:
		return a, n - m, n - m, false, true
	case c.S == "=":
		return b, m - n, m - n, false, true
	case b == nil: // a+m < n
		return a, lo, n - m - 1, false, true
	}
	return b, m - n + 1, hi, false, true
}

// byBounds decides a comparison with a constant from the comparisons of the same
// term on the path; the path is assumed to be possible.
func byBounds(pc []*Term, c *Term) (holds, fails bool) {
	x, lo, hi, neg, ok := bound(c)
	if !ok {
		return
	}
	k := x.Key()
	l, h := int64(math.MinInt64), int64(math.MaxInt64)
	for _, p := range pc {
		y, a, b, n, ok := bound(p)
		if !ok || y.Key() != k {
			continue
		}
		if n {
			switch {
			case a == math.MinInt64 && b < math.MaxInt64:
				a, b = b+1, math.MaxInt64
			case b == math.MaxInt64 && a > math.MinInt64:
				a, b = math.MinInt64, a-1
			default:
				continue
			}
		}
		l, h = max(l, a), min(h, b)
	}
	in, out := lo <= l && h <= hi, h < lo || hi < l
	if neg {
		in, out = out, in
	}
	if in && out {
		return false, false // an impossible path: the solver will say so
	}
	return in, out
}
