package main

// Exact rational arithmetic and the simplex method (feasibility, Bland's rule).

import (
	"math"
	"math/big"
)

// num is a rational number: n/d with d > 0, or b if that does not fit.
type num struct {
	n, d int64
	b    *big.Rat
}

var numZero, numOne = num{0, 1, nil}, num{1, 1, nil}

func numB(x *big.Int) num {
	if x.IsInt64() {
		return num{x.Int64(), 1, nil}
	}
	return num{b: new(big.Rat).SetInt(x)}
}

func (a num) rat() *big.Rat {
	if a.b != nil {
		return a.b
	}
	return big.NewRat(a.n, a.d)
}

func numR(r *big.Rat) num {
	if r.Num().IsInt64() && r.Denom().IsInt64() && r.Num().Int64() != math.MinInt64 {
		return num{r.Num().Int64(), r.Denom().Int64(), nil}
	}
	return num{b: r}
}

func (a num) sign() int {
	if a.b != nil {
		return a.b.Sign()
	}
	switch {
	case a.n > 0:
		return 1
	case a.n < 0:
		return -1
	}
	return 0
}

func (a num) isInt() bool {
	if a.b != nil {
		return a.b.IsInt()
	}
	return a.d == 1
}

func (a num) floor() *big.Int {
	r := a.rat()
	return new(big.Int).Div(r.Num(), r.Denom())
}

func (a num) neg() num {
	if a.b == nil && a.n != math.MinInt64 {
		return num{-a.n, a.d, nil}
	}
	return numR(new(big.Rat).Neg(a.rat()))
}

func mulOK(a, b int64) (int64, bool) {
	const s = 1 << 31
	if a < s && a > -s && b < s && b > -s {
		return a * b, true
	}
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if a == math.MinInt64 || b == math.MinInt64 || c == math.MinInt64 || c/b != a {
		return 0, false
	}
	return c, true
}

func addOK(a, b int64) (int64, bool) {
	c := a + b
	if (c > a) == (b > 0) && c != math.MinInt64 {
		return c, true
	}
	return 0, false
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (a num) mul(c num) num {
	if a.b == nil && c.b == nil {
		if a.n == 0 || c.n == 0 {
			return numZero
		}
		an, ad, cn, cd := a.n, a.d, c.n, c.d
		if cd != 1 {
			if g := gcd64(an, cd); g > 1 {
				an, cd = an/g, cd/g
			}
		}
		if ad != 1 {
			if g := gcd64(cn, ad); g > 1 {
				cn, ad = cn/g, ad/g
			}
		}
		if n, ok := mulOK(an, cn); ok {
			if d, ok := mulOK(ad, cd); ok {
				return num{n, d, nil}
			}
		}
	}
	return numR(new(big.Rat).Mul(a.rat(), c.rat()))
}

func (a num) add(c num) num {
	if a.b == nil && c.b == nil {
		if a.n == 0 {
			return c
		}
		if c.n == 0 {
			return a
		}
		if a.d == c.d {
			if n, ok := addOK(a.n, c.n); ok {
				if a.d == 1 {
					return num{n, 1, nil}
				}
				if g := gcd64(n, a.d); g > 1 {
					return num{n / g, a.d / g, nil}
				}
				return num{n, a.d, nil}
			}
		} else if x, ok := mulOK(a.n, c.d); ok {
			if y, ok := mulOK(c.n, a.d); ok {
				if n, ok := addOK(x, y); ok {
					if d, ok := mulOK(a.d, c.d); ok {
						if g := gcd64(n, d); g > 1 {
							n, d = n/g, d/g
						}
						return num{n, d, nil}
					}
				}
			}
		}
	}
	return numR(new(big.Rat).Add(a.rat(), c.rat()))
}

func (a num) sub(c num) num { return a.add(c.neg()) }

func (a num) inv() num {
	if a.b == nil {
		if a.n > 0 {
			return num{a.d, a.n, nil}
		}
		if a.n != math.MinInt64 {
			return num{-a.d, -a.n, nil}
		}
	}
	return numR(new(big.Rat).Inv(a.rat()))
}

func (a num) cmp(c num) int {
	if a.b == nil && c.b == nil {
		if a.d == c.d {
			switch {
			case a.n < c.n:
				return -1
			case a.n > c.n:
				return 1
			}
			return 0
		}
		if x, ok := mulOK(a.n, c.d); ok {
			if y, ok := mulOK(c.n, a.d); ok {
				switch {
				case x < y:
					return -1
				case x > y:
					return 1
				}
				return 0
			}
		}
	}
	return a.rat().Cmp(c.rat())
}

type bound struct {
	has bool
	v   num
}

// simplex finds a rational point with all rows >= 0, or reports none.
func simplex(rows []lin, n int) ([]num, bool) {
	// single-variable rows become bounds
	m := 0
	for _, l := range rows {
		if len(l.c) != 1 {
			m++
		}
	}
	N := n + m
	// variables 0..n-1 structural, n..n+m-1 slack (lower bound -k)
	L := make([]bound, N)
	U := make([]bound, N)
	val := make([]num, N)
	for _, l := range rows {
		if len(l.c) == 1 {
			for j, c := range l.c {
				v := numB(l.k).neg().mul(numB(c).inv())
				if c.Sign() > 0 {
					if !L[j].has || v.cmp(L[j].v) > 0 {
						L[j] = bound{true, v}
					}
				} else if !U[j].has || v.cmp(U[j].v) < 0 {
					U[j] = bound{true, v}
				}
			}
		}
	}
	for j := 0; j < n; j++ {
		if L[j].has && U[j].has && L[j].v.cmp(U[j].v) > 0 {
			return nil, false
		}
		switch {
		case L[j].has && L[j].v.sign() >= 0:
			val[j] = L[j].v
		case U[j].has && U[j].v.sign() <= 0:
			val[j] = U[j].v
		default:
			val[j] = numZero
		}
	}
	// tableau: basic variable of row i = sum over columns c of T[i][c] * variable at c
	cells := make([]num, m*n)
	for i := range cells {
		cells[i] = numZero
	}
	T := make([][]num, m)
	basic := make([]int, m)
	at := make([]int, n) // variable of a column
	for c := range at {
		at[c] = c
	}
	i := 0
	for _, l := range rows {
		if len(l.c) == 1 {
			continue
		}
		T[i] = cells[i*n : (i+1)*n]
		s := numZero
		for j, c := range l.c {
			r := numB(c)
			T[i][j] = r
			s = s.add(r.mul(val[j]))
		}
		basic[i] = n + i
		L[n+i] = bound{true, numB(l.k).neg()}
		val[n+i] = s
		i++
	}
	nz := make([]int, 0, n)
	for iter := 0; iter < 3000; iter++ {
		// violated basic variable with smallest index
		bi := -1
		below := false
		for i, b := range basic {
			if bi >= 0 && b > basic[bi] {
				continue
			}
			if L[b].has && val[b].cmp(L[b].v) < 0 {
				bi, below = i, true
			} else if U[b].has && val[b].cmp(U[b].v) > 0 {
				bi, below = i, false
			}
		}
		if bi < 0 {
			return val[:n], true
		}
		b := basic[bi]
		row := T[bi]
		pc := -1
		for c := 0; c < n; c++ {
			sg := row[c].sign()
			if sg == 0 || pc >= 0 && at[c] > at[pc] {
				continue
			}
			j := at[c]
			if (sg > 0) == below {
				if !U[j].has || val[j].cmp(U[j].v) < 0 {
					pc = c
				}
			} else if !L[j].has || val[j].cmp(L[j].v) > 0 {
				pc = c
			}
		}
		if pc < 0 {
			return nil, false
		}
		target := U[b].v
		if below {
			target = L[b].v
		}
		pj := at[pc]
		inv := row[pc].inv()
		theta := target.sub(val[b]).mul(inv)
		val[b] = target
		val[pj] = val[pj].add(theta)
		// pivot b <-> pj
		nz = nz[:0]
		ninv := inv.neg()
		for c := 0; c < n; c++ {
			if c == pc {
				row[c] = inv
			} else if row[c].sign() != 0 {
				row[c] = row[c].mul(ninv)
			} else {
				continue
			}
			nz = append(nz, c)
		}
		basic[bi] = pj
		at[pc] = b
		for i := 0; i < m; i++ {
			if i == bi {
				continue
			}
			r := T[i]
			k := r[pc]
			if k.sign() == 0 {
				continue
			}
			val[basic[i]] = val[basic[i]].add(k.mul(theta))
			r[pc] = numZero
			for _, c := range nz {
				r[c] = r[c].add(k.mul(row[c]))
			}
		}
	}
	return nil, true
}
