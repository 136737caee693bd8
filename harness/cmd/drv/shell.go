package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/gmlewis/stldice/v4/binvox"
	"github.com/gmlewis/stldice/v4/vshell"
)

func init() {
	drivers["shellmerge"] = shellmerge
}

// part is one model of a merge: its voxels on a common lattice.
type part struct {
	vox   []V3
	o     V3         // place of the model's grid on the lattice
	n     V3         // its grid
	noise [3]float64 // how far its position is off the lattice, in voxels
}

// split distributes a random set of voxels over models.
func (c *C) split(maxSide, maxModels int, full bool) [][]V3 {
	r := c.R
	var n V3
	for i := range n {
		n[i] = 1 + r.Intn(maxSide)
		if full && n[i] < 3 {
			n[i] = 3
		}
	}
	k := 1 + r.Intn(maxModels)
	d := []float64{0.15, 0.5, 0.85, 0.97, 1, 1}[r.Intn(6)]
	parts := make([][]V3, k)
	mode := r.Intn(4)
	cut := r.Intn(3)
	for x := 0; x < n[0]; x++ {
		for y := 0; y < n[1]; y++ {
			for z := 0; z < n[2]; z++ {
				if r.Float64() >= d {
					continue
				}
				v := V3{x, y, z}
				m := r.Intn(k)
				switch mode {
				case 0: // slabs
					m = v[cut] * k / n[cut]
				case 1: // one voxel apart from the rest
					m = 0
					if v == (V3{n[0] / 2, n[1] / 2, n[2] / 2}) {
						m = k - 1
					}
				case 2: // checkerboard
					m = (x + y + z) % k
				}
				parts[m] = append(parts[m], v)
			}
		}
	}
	return parts
}

// again adds voxels to a model that the shell lists already.
func (p *part) again(c *C, vs *vshell.VShell, pitch float64, world V3) {
	d := []float64{0.1, 0.6, 1}[c.R.Intn(3)]
	at := [3]float64{vs.TX, vs.TY, vs.TZ}
	p.vox = append([]V3{}, p.vox...)
	for _, v := range shellVox(vs) {
		if c.R.Float64() >= d {
			continue
		}
		var q V3
		for i := range q {
			q[i] = v[i] + int(math.Round(at[i]/pitch-float64(world[i])))
			p.n[i] += max(0, p.o[i]-q[i])
			p.o[i] = min(p.o[i], q[i])
			p.n[i] = max(p.n[i], q[i]-p.o[i]+1)
		}
		p.vox = append(p.vox, q)
	}
}

// farApart moves the voxels beyond some place along some axes, far away.
func farApart(r *rand.Rand, parts [][]V3) {
	for ax := 0; ax < 3; ax++ {
		if r.Intn(3) == 0 {
			continue
		}
		from := r.Intn(5)
		far := []int{120, 250, 1000, 4090, 8190, 32760, 65530, 70000}[r.Intn(8)] + r.Intn(12)
		for _, p := range parts {
			for i := range p {
				if p[i][ax] >= from {
					p[i][ax] += far
				}
			}
		}
	}
}

// aliases moves models, or voxels, to places that differ in what tables with
// keys of few bits, or dense ones, could take for the same.
func aliases(r *rand.Rand, parts [][]V3) {
	shifts := []V3{{}}
	for len(shifts) < 4 {
		var d V3
		a := r.Intn(3)
		d[a] = 1 << (8 + r.Intn(6)) // 256..8192
		if r.Intn(4) == 0 {
			d[a] = []int{1000, 10000, 1 << 15, 1 << 16, 1 << 20}[r.Intn(5)]
		}
		if r.Intn(2) == 0 {
			d[(a+1+r.Intn(2))%3] += r.Intn(5) - 2
		}
		shifts = append(shifts, d)
	}
	each := r.Intn(3) == 0
	for _, p := range parts {
		d := shifts[r.Intn(len(shifts))]
		for i := range p {
			if each {
				d = shifts[r.Intn(len(shifts))]
			}
			for j := range d {
				p[i][j] += d[j]
			}
		}
	}
}

// shellmerge merges models into a shell and records the shell after every step.
func shellmerge(c *C) {
	r := c.R
	var parts [][]V3
	slack := -1
	if c.Raw != nil {
		var gc struct {
			Slack int    `json:"slack"`
			Parts [][]V3 `json:"parts"`
		}
		c.Case(&gc)
		parts, slack = gc.Parts, gc.Slack
	} else {
		parts = c.split(6, 5, r.Intn(2) == 0)
		if c.I%40 == 39 {
			farApart(r, parts)
		} else if c.I%4 == 2 {
			aliases(r, parts)
		}
	}
	pitches := []float64{1, 0.5, 0.1, 1.0 / 3, 0.0254, 7, 1e-6, 2500, 3e8}
	pitch := pitches[r.Intn(len(pitches))]
	world := V3{}
	if r.Intn(2) == 0 {
		world = V3{r.Intn(2001) - 1000, r.Intn(2001) - 1000, r.Intn(2001) - 1000}
	}
	noisy := r.Intn(2) == 0
	var ps []*part
	for _, vox := range parts {
		p := &part{vox: vox}
		lo, hi := V3{}, V3{}
		for i := range lo {
			lo[i], hi[i] = math.MaxInt32, math.MinInt32
			for _, v := range vox {
				lo[i], hi[i] = min(lo[i], v[i]), max(hi[i], v[i])
			}
			if len(vox) == 0 {
				lo[i], hi[i] = r.Intn(9)-4, 4
			}
			p.o[i] = lo[i]
			if slack >= 0 {
				p.o[i] -= slack
			} else if r.Intn(2) == 0 {
				p.o[i] -= r.Intn(4)
			}
			p.n[i] = hi[i] - p.o[i] + 1
			if slack < 0 && r.Intn(2) == 0 {
				p.n[i] += r.Intn(4)
			}
			if noisy {
				p.noise[i] = []float64{-0.2, 0, 0, 0.2}[r.Intn(4)]
			}
		}
		ps = append(ps, p)
	}
	r.Shuffle(len(ps), func(i, j int) {
		if slack < 0 {
			ps[i], ps[j] = ps[j], ps[i]
		}
	})
	model := func(p *part, pitch float64) *Model {
		m := &Model{N: p.n, Vox: map[V3]bool{}, Scale: pitch * float64(max(p.n[0], p.n[1], p.n[2]))}
		for i := range m.T {
			m.T[i] = (float64(p.o[i]+world[i]) + p.noise[i]) * pitch
		}
		for _, v := range p.vox {
			m.Vox[V3{v[0] - p.o[0], v[1] - p.o[1], v[2] - p.o[2]}] = true
		}
		return m
	}
	bin := func(m *Model) *binvox.BinVOX {
		kind := r.Intn(6) // white, now and then in color or both
		b := binvox.New(m.N[0], m.N[1], m.N[2], m.T[0], m.T[1], m.T[2], m.Scale, kind == 0)
		if kind == 1 {
			b.ColorVoxels = binvox.ColorVoxelMap{}
		}
		if b.WhiteVoxels == nil {
			b.WhiteVoxels = binvox.WhiteVoxelMap{}
		}
		for i, v := range m.sorted() {
			if kind == 0 || kind == 1 && i%2 == 0 {
				b.AddColor(v[0], v[1], v[2], binvox.White)
			} else {
				b.Add(v[0], v[1], v[2])
			}
		}
		return b
	}
	var vs *vshell.VShell
	var steps []Ev
	step := func(kind string, add []V3, noise [3]float64, err error) Ev {
		e := Ev{"kind": kind, "add": add, "err": "", "noise": []int{milli(noise[0]), milli(noise[1]), milli(noise[2])}}
		if add == nil {
			e["add"] = []V3{}
		}
		if err != nil {
			e["err"] = "error"
		}
		if vs != nil {
			e["n"] = V3{vs.NX, vs.NY, vs.NZ}
			e["pos"] = []int{milli(vs.TX/pitch - float64(world[0])), milli(vs.TY/pitch - float64(world[1])), milli(vs.TZ/pitch - float64(world[2]))}
			e["pitch"] = ppm(vs.Scale / float64(max(vs.NX, vs.NY, vs.NZ)) / pitch)
			e["vox"] = shellVox(vs)
		}
		return e
	}
	large := false
	for _, p := range ps {
		large = large || float64(p.n[0])*float64(p.n[1])*float64(p.n[2]) > 1e6
	}
	if c.Raw == nil && !noisy && !large && r.Intn(4) == 0 { // from files
		var names []string
		var all []V3
		var noise [3]float64
		for i, p := range ps {
			m := model(p, pitch)
			name := c.Path(fmt.Sprintf("m%d.binvox", i))
			writeBinvox(name, m)
			names = append(names, name)
			all = append(all, p.vox...)
		}
		var err error
		vs, err = vshell.Merge(names)
		steps = append(steps, step("add", all, noise, err))
		c.Emit(Ev{"steps": steps})
		return
	}
	filled, again := false, r.Intn(3) == 0
	for i, p := range ps {
		if vs != nil && len(vs.Voxels) > 0 && len(p.vox) > 0 && again {
			p.again(c, vs, pitch, world)
		}
		b := bin(model(p, pitch))
		var err error
		switch {
		case i == 0 && r.Intn(8) == 0:
			vs = &vshell.VShell{}
			err = vs.Add(b)
		case i == 0:
			vs, err = vshell.New(b)
		default:
			err = vs.Add(b)
		}
		steps = append(steps, step("add", p.vox, p.noise, err))
		if err != nil || vs == nil {
			break
		}
		filled = filled || len(p.vox) > 0
		if filled && r.Intn(3) == 0 {
			before := fmt.Sprintf("%#v", *vs)
			var err error
			kind := ""
			if r.Intn(3) == 0 {
				kind = "nil"
				err = vs.Add(nil)
			} else {
				kind = "badpitch"
				f := 1 + []float64{1, 0.5, 0.1, 0.01, 0.001, -0.001, -0.01, -0.3, -0.5}[r.Intn(9)]
				q := &part{n: V3{1 + r.Intn(3), 1 + r.Intn(3), 1 + r.Intn(3)}, o: V3{r.Intn(9) - 4, r.Intn(9) - 4, r.Intn(9) - 4}}
				q.vox = []V3{q.o}
				err = vs.Add(bin(model(q, pitch*f)))
			}
			e := step(kind, nil, p.noise, err)
			e["unchanged"] = before == fmt.Sprintf("%#v", *vs)
			steps = append(steps, e)
		}
	}
	c.Emit(Ev{"steps": steps})
}
