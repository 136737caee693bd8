package main

import "math/rand"

// Large models: their sizes, numbers of voxels and runs lie beyond the limits
// of 8, 10 and 16 bits. There are few of them among the cases.

// bigGrid returns the k-th kind of a large grid.
func bigGrid(r *rand.Rand, k int) V3 {
	switch k % 9 {
	case 0, 1, 2: // one axis beyond 16 bits
		n := V3{1, 1, 1}
		n[k%9] = 65537 + r.Intn(6000)
		n[(k%9+1+r.Intn(2))%3] = 1 + r.Intn(3)
		return n
	case 3, 4, 5: // two axes beyond 10 bits
		n := V3{1030 + r.Intn(400), 1030 + r.Intn(400), 1030 + r.Intn(400)}
		n[k%9-3] = 1 + r.Intn(2)
		return n
	case 6: // all axes beyond 8 bits
		return V3{257 + r.Intn(20), 257 + r.Intn(20), 257 + r.Intn(20)}
	case 7: // all beyond 7
		return V3{129 + r.Intn(30), 129 + r.Intn(30), 129 + r.Intn(30)}
	default: // many voxels of every row
		return V3{38 + r.Intn(5), 38 + r.Intn(5), 38 + r.Intn(5)}
	}
}

// bigIndex returns an index below n, with a preference for the limits.
func bigIndex(r *rand.Rand, n int) int {
	limits := []int{0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 9999, 10000, 32767, 32768, 65534, 65535, 65536, n / 2, n - 2, n - 1}
	for {
		i := limits[r.Intn(len(limits))]
		if r.Intn(3) == 0 {
			i = r.Intn(n)
		}
		if i >= 0 && i < n {
			return i
		}
	}
}

func bigVoxel(r *rand.Rand, n V3) V3 {
	return V3{bigIndex(r, n[0]), bigIndex(r, n[1]), bigIndex(r, n[2])}
}

// bigModel returns a model with a large grid: the last kind has many runs, the
// others some voxels or, with 2 of 3 along one axis, long runs of voxels.
func bigModel(r *rand.Rand, k int) *Model {
	m := &Model{Vox: map[V3]bool{}, N: bigGrid(r, k), T: [3]float64{randFloat(r), randFloat(r), randFloat(r)}, Scale: randScale(r)}
	total := m.N[0] * m.N[1] * m.N[2]
	switch {
	case k%9 == 8:
		for p := 0; p < total; p++ {
			if p%2 == 0 || r.Intn(50) == 0 {
				m.Vox[cellAt(m.N, p)] = true
			}
		}
	case k%9 < 3 && k/9%2 == 0: // a run that no 16 bits can count
		from := r.Intn(3)
		for p := from; p < total && p < from+65535+r.Intn(4); p++ {
			m.Vox[cellAt(m.N, p)] = true
		}
		m.Vox[cellAt(m.N, total-1)] = true
	default:
		for j := 0; j < 300; j++ {
			m.Vox[bigVoxel(r, m.N)] = true
		}
	}
	return m
}
