package main

// killer returns n values on which a quicksort that picks its pivot by the
// median of three (nine, when long) exhausts its depth: McIlroy's adversary,
// run against the textbook form of that sorter (Bentley, McIlroy), fixes the
// order of the values only when a comparison asks for it, so that every pivot
// turns out to be a bad one. It only makes inputs; whether the repository's
// sorter works this way does not matter to the verdict.
func killer(n int) []uint64 {
	const gas = int(^uint(0) >> 1)
	val := make([]int, n)
	at := make([]int, n) // position -> item
	for i := range val {
		val[i], at[i] = gas, i
	}
	solid, candidate := 0, 0
	less := func(i, j int) bool {
		x, y := at[i], at[j]
		if val[x] == gas && val[y] == gas {
			if x == candidate {
				val[x] = solid
			} else {
				val[y] = solid
			}
			solid++
		}
		if val[x] == gas {
			candidate = x
		} else if val[y] == gas {
			candidate = y
		}
		return val[x] < val[y]
	}
	swap := func(i, j int) { at[i], at[j] = at[j], at[i] }
	median := func(m1, m0, m2 int) {
		if less(m1, m0) {
			swap(m1, m0)
		}
		if less(m2, m1) {
			swap(m2, m1)
		}
		if less(m1, m0) {
			swap(m1, m0)
		}
	}
	pivot := func(lo, hi int) (int, int) {
		m := lo + (hi-lo)/2
		if hi-lo > 40 {
			s := (hi - lo) / 8
			median(lo, lo+s, lo+2*s)
			median(m, m-s, m+s)
			median(hi-1, hi-1-s, hi-1-2*s)
		}
		median(lo, m, hi-1)
		p := lo
		a, b, c, d := lo+1, lo+1, hi, hi
		for {
			for b < c {
				if less(b, p) {
					b++
				} else if !less(p, b) {
					swap(a, b)
					a++
					b++
				} else {
					break
				}
			}
			for b < c {
				if less(p, c-1) {
					c--
				} else if !less(c-1, p) {
					swap(c-1, d-1)
					c--
					d--
				} else {
					break
				}
			}
			if b >= c {
				break
			}
			swap(b, c-1)
			b++
			c--
		}
		k := min(b-a, a-lo)
		for i := 0; i < k; i++ {
			swap(lo+i, b-k+i)
		}
		k = min(hi-d, d-c)
		for i := 0; i < k; i++ {
			swap(c+i, hi-k+i)
		}
		return lo + b - a, hi - (d - c)
	}
	for a, b := 0, n; b-a > 7; {
		lo, hi := pivot(a, b)
		if lo-a < b-hi {
			a = hi
		} else {
			b = lo
		}
	}
	r := make([]uint64, n)
	for i, v := range val {
		if v == gas {
			v = solid
			solid++
		}
		r[i] = uint64(v)
	}
	return r
}
