package main

import (
	"encoding/binary"
	"errors"
	"math"
	"math/rand"
	"os"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
)

func init() {
	drivers["blockmesh"] = blockmesh
}

// parseSTL parses a binary STL file.
func parseSTL(name string) ([][3][3]float64, error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	if len(b) < 84 {
		return nil, errors.New("too short")
	}
	n := int(binary.LittleEndian.Uint32(b[80:]))
	if len(b) != 84+50*n {
		return nil, errors.New("size does not match the number of triangles")
	}
	ts := make([][3][3]float64, n)
	for i := range ts {
		for j := range ts[i] {
			for k := range ts[i][j] {
				ts[i][j][k] = float64(math.Float32frombits(binary.LittleEndian.Uint32(b[84+50*i+12+12*j+4*k:])))
			}
		}
	}
	return ts, nil
}

func meshTris(m *gl.Mesh) [][3][3]float64 {
	var ts [][3][3]float64
	for _, t := range m.Triangles {
		var q [3][3]float64
		for j, v := range []gl.Vertex{t.V1, t.V2, t.V3} {
			q[j] = [3]float64{v.Position.X, v.Position.Y, v.Position.Z}
		}
		ts = append(ts, q)
	}
	return ts
}

// lattice maps triangles to the lattice of 1/parts of the voxels; false if a corner is not on the lattice.
func lattice(ts [][3][3]float64, origin [3]float64, pitch float64, parts int, tol float64) ([]Tri, bool) {
	out := []Tri{}
	on := true
	for _, t := range ts {
		var q Tri
		for j := range t {
			for k := range t[j] {
				f := (t[j][k] - origin[k]) / pitch * float64(parts)
				if math.IsNaN(f) || math.Abs(f) > 1e8 {
					on, f = false, 0
				}
				q[j][k] = int(math.Round(f))
				if math.Abs(f-math.Round(f)) > tol*float64(parts) {
					on = false
				}
			}
		}
		out = append(out, q)
	}
	return out, on
}

// randSolid returns voxels within a box that make large faces, holes, and voxels that touch at edges and corners only.
func randSolid(r *rand.Rand, n V3) map[V3]bool {
	m := map[V3]bool{}
	total := n[0] * n[1] * n[2]
	switch r.Intn(3) {
	case 0:
		return randVox(r, n, []float64{0.1, 0.3, 0.5, 0.7, 0.9}[r.Intn(5)])
	case 1: // boxes, minus boxes
		for j := 1 + r.Intn(4); j > 0; j-- {
			var lo, hi V3
			for i := range lo {
				lo[i] = r.Intn(n[i])
				hi[i] = lo[i] + 1 + r.Intn(n[i]-lo[i])
			}
			add := r.Intn(3) > 0
			for p := 0; p < total; p++ {
				v := cellAt(n, p)
				in := true
				for i := range v {
					in = in && lo[i] <= v[i] && v[i] < hi[i]
				}
				if in && add {
					m[v] = true
				} else if in {
					delete(m, v)
				}
			}
		}
	default: // a walk
		v := V3{r.Intn(n[0]), r.Intn(n[1]), r.Intn(n[2])}
		for j := 1 + r.Intn(40); j > 0; j-- {
			m[v] = true
			for k := 1 + r.Intn(2); k > 0; k-- { // sometimes around an edge
				i := r.Intn(3)
				if w := v[i] + 2*r.Intn(2) - 1; w >= 0 && w < n[i] {
					v[i] = w
				}
			}
		}
	}
	return m
}

// aliased returns the voxels with some of them far away, see aliases.
func aliased(r *rand.Rand, vox map[V3]bool) map[V3]bool {
	list := sortedVox(vox)
	parts := make([][]V3, 1+r.Intn(4))
	for i, v := range list {
		k := i % len(parts)
		parts[k] = append(parts[k], v)
	}
	aliases(r, parts)
	m := map[V3]bool{}
	for _, p := range parts {
		for _, v := range p {
			m[v] = true
		}
	}
	return m
}

// blockmesh makes block meshes, in process and with voxcut.
func blockmesh(c *C) {
	r := c.R
	if c.Raw == nil && (r.Intn(4) == 0 || c.I%400 == 399) {
		cutmesh(c)
		return
	}
	var gc struct{ Vox []V3 }
	var vox map[V3]bool
	n := V3{1 + r.Intn(6), 1 + r.Intn(6), 1 + r.Intn(6)}
	if r.Intn(6) == 0 {
		n[r.Intn(3)] = 14 // long rectangles
	}
	if c.Raw != nil {
		c.Case(&gc)
		vox = setOf(gc.Vox)
		n = V3{3, 3, 3}
	} else {
		vox = randSolid(r, n)
	}
	var off V3 // voxels may lie outside of the grid, too
	if r.Intn(3) == 0 {
		far := []int{1, 20, 1000, 20000}[r.Intn(4)]
		off = V3{r.Intn(7) - 3, (r.Intn(7) - 3) * far, (r.Intn(40) - 20) * far}
		ax := r.Intn(3)
		off[0], off[ax] = off[ax], off[0]
	}
	pitch := randPitch(r)
	var origin [3]float64
	for i := range origin {
		origin[i] = float64(r.Intn(401)-200) * []float64{0, 1, 0.37}[r.Intn(3)] * pitch
	}
	color := r.Intn(3) == 0
	mixed := color && r.Intn(2) == 0 // white voxels, too
	b := binvox.New(n[0], n[1], n[2], origin[0], origin[1], origin[2], pitch*float64(max(n[0], n[1], n[2])), color)
	if mixed {
		b.WhiteVoxels = binvox.WhiteVoxelMap{}
	}
	for _, v := range sortedVox(vox) {
		for i := range v {
			v[i] += off[i]
		}
		if color && !(mixed && r.Intn(2) == 0) {
			b.AddColor(v[0], v[1], v[2], binvox.Color{R: r.Float64(), G: 0.5, B: 1, A: r.Float64()})
		} else {
			b.Add(v[0], v[1], v[2])
		}
	}
	for i := range origin {
		origin[i] += float64(off[i]) * pitch
	}
	tris, on := lattice(meshTris(b.ToMesh()), origin, pitch, 1, 1e-6)
	c.Emit(Ev{"op": "mesh", "vox": sortedVox(vox), "tris": tris, "on": on})
}

// cutmesh runs voxcut with STL output.
func cutmesh(c *C) {
	r := c.R
	cf := randCutFiles(r, 6)
	if c.I%400 == 399 { // more triangles than 16 bits can count
		cf = &cutFiles{base: &Model{N: V3{23, 23, 23}, Vox: map[V3]bool{}}}
		for p := 0; p < 23*23*23; p += 2 {
			cf.base.Vox[cellAt(cf.base.N, p)] = true
		}
	}
	if r.Intn(2) == 0 {
		cf.cuts, cf.off = nil, nil
	}
	cf.write(c, r.Intn(2) == 0)
	e := cf.event("cutmesh")
	out := c.Path("out.stl")
	args := append(cf.sectionArgs(), "-ostl", out, cf.nbase)
	args = append(args, cf.files...)
	if r.Intn(6) == 0 { // of no importance for the triangles
		args = append([]string{"-smooth=60"}, args...)
	}
	if r.Intn(6) == 0 {
		args = append([]string{"-obinvox", c.Path("also.binvox")}, args...)
	}
	e["exit"], _, _ = tool(c.Dir, nil, "voxcut", args...)
	ts, err := parseSTL(out)
	e["wrote"] = !errors.Is(err, os.ErrNotExist)
	if err != nil && e["wrote"].(bool) {
		e["bad"] = err.Error()
	}
	e["tris"], e["on"] = lattice(ts, cf.origin, cf.pitch, 1, 1e-3)
	c.Emit(e)
}

// edges splits the edges of triangles into primitive segments of the lattice, [from, to, how often so far].
func edges(tris []Tri) [][3]any {
	gcd := func(a, b int) int {
		for b != 0 {
			a, b = b, a%b
		}
		return max(a, -a)
	}
	seen := map[[2]V3]int{}
	out := [][3]any{}
	for _, t := range tris {
		for j := range t {
			p, q := t[j], t[(j+1)%3]
			d := sub(q, p)
			g := gcd(gcd(d[0], d[1]), d[2])
			for i := 0; i < g; i++ {
				to := V3{p[0] + d[0]/g, p[1] + d[1]/g, p[2] + d[2]/g}
				k := [2]V3{p, to}
				seen[k]++
				out = append(out, [3]any{p, to, seen[k]})
				p = to
			}
		}
	}
	return out
}

var corners = [8]V3{{0, 1, 0}, {1, 1, 0}, {1, 0, 0}, {0, 0, 0}, {0, 1, 1}, {1, 1, 1}, {1, 0, 1}, {0, 0, 1}}

func init() {
	drivers["manifold"] = func(c *C) { meshcells(c, (*binvox.BinVOX).ManifoldMesh, "manifold-mesh") }
	drivers["marching"] = func(c *C) { meshcells(c, (*binvox.BinVOX).MarchingCubes, "marching-cubes") }
}

// meshcells records the surface of one configuration of the corners of a cell, or of a random model.
func meshcells(c *C, make func(*binvox.BinVOX) *gl.Mesh, cmd string) {
	r := c.R
	if c.Raw != nil {
		var gc struct{ C int }
		c.Case(&gc)
		b := binvox.New(2, 2, 2, 0, 0, 0, 2, false)
		for i, v := range corners {
			if gc.C>>i&1 == 1 {
				b.Add(v[0], v[1], v[2])
			}
		}
		all, on := lattice(meshTris(make(b)), [3]float64{1, 1, 1}, 1, 4, 1e-6)
		tris := []Tri{}
		for _, t := range all {
			in := true
			for a := 0; a < 3; a++ {
				m := t[0][a] + t[1][a] + t[2][a] // thrice the middle
				in = in && -6 < m && m <= 6
			}
			if in {
				tris = append(tris, t)
			}
		}
		c.Emit(Ev{"op": "cell", "c": gc.C, "tris": tris, "segs": edges(tris), "on": on, "key": gc.C})
		return
	}
	n := V3{1 + r.Intn(4), 1 + r.Intn(4), 1 + r.Intn(4)}
	vox := randSolid(r, n)
	cli := r.Intn(5) == 0
	if !cli && c.I%12 == 5 {
		vox = aliased(r, vox)
	}
	var off V3
	if !cli && r.Intn(3) == 0 {
		far := []int{1, 20, 1000}[r.Intn(3)]
		off = V3{r.Intn(7) - 3, (r.Intn(7) - 3) * far, (r.Intn(40) - 20) * far}
	}
	m := &Model{N: n, Vox: map[V3]bool{}}
	pitch := randPitch(r)
	m.Scale = pitch * float64(max(n[0], n[1], n[2]))
	for i := range m.T {
		m.T[i] = float64(r.Intn(201)-100) * []float64{0, 1, 0.37}[r.Intn(3)] * pitch
	}
	moved := []V3{}
	origin := m.T
	for i := range origin {
		origin[i] += float64(off[i]) * pitch
	}
	for _, v := range sortedVox(vox) {
		for i := range v {
			v[i] += off[i]
		}
		moved = append(moved, v)
		m.Vox[v] = true
	}
	e := Ev{"op": "model", "vox": sortedVox(vox)}
	var tris []Tri
	var on bool
	if cli {
		in, out := c.Path("in.binvox"), c.Path("out.stl")
		writeBinvox(in, m)
		if cmd == "manifold-mesh" && r.Intn(2) == 0 {
			e["exit"], _, _ = tool(c.Dir, nil, "voxcut", "-manifold", "-ostl", out, in)
		} else {
			e["exit"], _, _ = tool(c.Dir, nil, cmd, in, out)
		}
		ts, err := parseSTL(out)
		tris, on = lattice(ts, origin, pitch, 4, 1e-3)
		if err != nil {
			e["exit"] = 97
		}
	} else {
		color := r.Intn(3) == 0
		mixed := color && r.Intn(2) == 0 // white voxels, too
		b := binvox.New(n[0], n[1], n[2], m.T[0], m.T[1], m.T[2], m.Scale, color)
		if mixed {
			b.WhiteVoxels = binvox.WhiteVoxelMap{}
		}
		for _, v := range moved {
			if color && !(mixed && r.Intn(2) == 0) {
				b.AddColor(v[0], v[1], v[2], binvox.Color{R: r.Float64(), G: 0.5, B: 1, A: r.Float64()})
			} else {
				b.Add(v[0], v[1], v[2])
			}
		}
		tris, on = lattice(meshTris(make(b)), origin, pitch, 4, 1e-6)
	}
	e["tris"], e["segs"], e["on"] = tris, edges(tris), on
	c.Emit(e)
}
