package main

import (
	"fmt"
	"math"

	"github.com/gmlewis/stldice/v4/binvox"
	"github.com/gmlewis/stldice/v4/vshell"
)

func init() {
	drivers["model"] = modelCase
	drivers["box"] = boxCase
}

type modelStep struct {
	M  int    `json:"m"`
	Op string `json:"op"`
	V  int    `json:"v"`
	C  int    `json:"c"`
}

// modelColor returns color k, which is not white.
func modelColor(k int) binvox.Color {
	if k == 1 {
		return binvox.Black
	}
	f := float64(k)
	return binvox.Color{R: 1 / f, G: 1 - 1/f, B: f / 7, A: float64(k % 2)}
}

// modelAt returns what is at a voxel: -1 for nothing, 0 for white, the number of the color, or -2.
func modelAt(b *binvox.BinVOX, v V3) int {
	c, ok := b.Get(v[0], v[1], v[2])
	if !ok {
		return -1
	}
	if c == binvox.White {
		return 0
	}
	for k := 1; k < 12; k++ {
		if c == modelColor(k) {
			return k
		}
	}
	return -2
}

// modelCase puts voxels into models, and looks at all of the models after each step.
func modelCase(c *C) {
	r := c.R
	var steps []modelStep
	places := []V3{{}, {}}
	if c.Raw != nil {
		c.Case(&steps)
	} else {
		places = make([]V3, 2+r.Intn(6))
		for k := 1 + r.Intn(40); k > 0; k-- {
			s := modelStep{M: 1 + r.Intn(3), Op: "add", V: 1 + r.Intn(len(places))}
			if r.Intn(2) == 0 {
				s.Op, s.C = "color", 1+r.Intn(11)
			}
			steps = append(steps, s)
		}
	}
	for i := range places { // different places that have a lot in common
		for again := true; again; {
			places[i] = places[r.Intn(i+1)]
			for j := 1 + r.Intn(3); j > 0; j-- {
				places[i][r.Intn(3)] = []int{0, 1, 2, 3, -1, 127, 128, 255, 256, 1023, 1024, 65535, 65536, 1 << 21, 1 << 30}[r.Intn(15)]
			}
			again = false
			for _, p := range places[:i] {
				again = again || p == places[i]
			}
		}
	}
	white, color := map[int]bool{}, map[int]bool{}
	num := 2
	for _, s := range steps {
		num = max(num, s.M)
		if s.Op == "add" {
			white[s.M] = true
		} else {
			color[s.M] = true
		}
	}
	e := Ev{"op": "history", "steps": steps, "got": [][][]int{}, "err": ""}
	var models []*binvox.BinVOX
	for m := 1; m <= num; m++ {
		b := binvox.New(4, 4, 4, 0, 0, 0, 4, color[m] && !white[m])
		switch {
		case color[m] && white[m]: // both, which New does not make
			b.ColorVoxels = binvox.ColorVoxelMap{}
		case !color[m] && r.Intn(3) == 0: // from a file
			name := c.Path(fmt.Sprint("m", m))
			must(b.Write(name, 0, 0, 0, 0, 0, 0))
			g, err := binvox.Read(name, 0, 0, 0, 0, 0, 0)
			if err != nil {
				e["err"] = err.Error()
				c.Emit(e)
				return
			}
			b = g
		}
		models = append(models, b)
	}
	got, at := [][][]int{}, []int{}
	for i := range places {
		at = append(at, i+1)
	}
	for _, s := range steps {
		b, v := models[s.M-1], places[s.V-1]
		if s.Op == "add" {
			b.Add(v[0], v[1], v[2])
		} else {
			b.AddColor(v[0], v[1], v[2], modelColor(s.C))
		}
		now := [][]int{}
		for _, b := range models {
			row := []int{}
			for _, p := range places {
				row = append(row, modelAt(b, p))
			}
			now = append(now, row)
		}
		got = append(got, now)
	}
	e["got"], e["places"] = got, at
	c.Emit(e)
}

// boxCase asks models and shells for their size and place.
func boxCase(c *C) {
	r := c.R
	size := func() int {
		switch r.Intn(6) {
		case 0:
			return 1
		case 1:
			return []int{127, 128, 255, 256, 257, 1024, 32768, 65536, 100000}[r.Intn(9)]
		}
		return 1 + r.Intn(40)
	}
	n, at := V3{size(), size(), size()}, V3{}
	for i := range at {
		at[i] = r.Intn(2001) - 1000
	}
	pitch := []float64{1, 0.25, 0.1, 1.0 / 3, 0.0127, 25.4, 1e-5, 1e4}[r.Intn(8)]
	scale := pitch * float64(max(n[0], n[1], n[2]))
	if r.Intn(12) == 0 { // not a scale: a voxel per millimeter
		pitch, scale = 1, []float64{0, -1, -1e9}[r.Intn(3)]
	}
	t := [3]float64{float64(at[0]) * pitch, float64(at[1]) * pitch, float64(at[2]) * pitch}
	b := binvox.New(n[0], n[1], n[2], t[0], t[1], t[2], scale, r.Intn(2) == 0)
	vs := &vshell.VShell{NX: n[0], NY: n[1], NZ: n[2], TX: t[0], TY: t[1], TZ: t[2], Scale: scale}
	if r.Intn(2) == 0 {
		var err error
		vs, err = vshell.New(b)
		must(err)
	}
	whole := func(f float64) int {
		if f = math.Round(f * 1000); math.Abs(f) < 1e9 {
			return int(f)
		}
		return 1 << 30
	}
	for k := 0; k < 2; k++ {
		e := Ev{"op": "box", "kind": k, "n": n, "at": at, "pitch": fmt.Sprint(pitch)}
		box, dim, vpmm := b.MBB(), b.Dim(), b.VoxelsPerMM()
		_ = b.String()
		if k == 1 {
			box, dim, vpmm = vs.MBB(), vs.Dim(), vs.VoxelsPerMM()
			_ = vs.String()
		}
		e["dim"], e["res"] = dim, whole(vpmm*pitch)
		e["lo"] = V3{whole(box.Min.X / pitch), whole(box.Min.Y / pitch), whole(box.Min.Z / pitch)}
		e["hi"] = V3{whole(box.Max.X / pitch), whole(box.Max.Y / pitch), whole(box.Max.Z / pitch)}
		c.Emit(e)
	}
}

