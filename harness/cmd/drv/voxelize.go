package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
)

func init() {
	drivers["voxelize"] = voxelize
	drivers["subdivide"] = subdivide
}

const unit = 8 // parts of a voxel in integer coordinates

// Tri is a triangle with integer coordinates.
type Tri [3]V3

func sub(a, b V3) V3  { return V3{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func dot(a, b V3) int { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func cross(a, b V3) V3 {
	return V3{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}

// hull returns the convex hull of points; false if four of its points are coplanar, or there is none.
func hull(ps []V3) ([]Tri, bool) {
	var tris []Tri
	for i := range ps {
		for j := i + 1; j < len(ps); j++ {
			for k := j + 1; k < len(ps); k++ {
				n := cross(sub(ps[j], ps[i]), sub(ps[k], ps[i]))
				pos, neg, zero := 0, 0, 0
				for l, p := range ps {
					if l == i || l == j || l == k {
						continue
					}
					switch d := dot(n, sub(p, ps[i])); {
					case d > 0:
						pos++
					case d < 0:
						neg++
					default:
						zero++
					}
				}
				switch {
				case pos > 0 && neg > 0:
				case zero > 0:
					return nil, false
				case pos > 0:
					tris = append(tris, Tri{ps[i], ps[k], ps[j]})
				default:
					tris = append(tris, Tri{ps[i], ps[j], ps[k]})
				}
			}
		}
	}
	return tris, len(tris) >= 4
}

// prism returns a prism over a convex polygon along an axis.
func prism(r *rand.Rand, lo, hi V3) []Tri {
	ax := r.Intn(3)
	u, v := (ax+1)%3, (ax+2)%3
	var pts [][2]int
	for i := 3 + r.Intn(5); i > 0; i-- {
		pts = append(pts, [2]int{lo[u] + r.Intn(hi[u]-lo[u]+1), lo[v] + r.Intn(hi[v]-lo[v]+1)})
	}
	// Andrew's monotone chain, without collinear points.
	sort.Slice(pts, func(i, j int) bool { return pts[i][0] < pts[j][0] || pts[i][0] == pts[j][0] && pts[i][1] < pts[j][1] })
	turn := func(a, b, c [2]int) int { return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]) }
	var h [][2]int
	for pass := 0; pass < 2; pass++ {
		base := len(h)
		for _, p := range pts {
			for len(h) >= base+2 && turn(h[len(h)-2], h[len(h)-1], p) <= 0 {
				h = h[:len(h)-1]
			}
			h = append(h, p)
		}
		h = h[:len(h)-1]
		for i, j := 0, len(pts)-1; i < j; i, j = i+1, j-1 {
			pts[i], pts[j] = pts[j], pts[i]
		}
	}
	if len(h) < 3 {
		return nil
	}
	z0 := lo[ax] + r.Intn(hi[ax]-lo[ax])
	z1 := z0 + 1 + r.Intn(hi[ax]-z0)
	at := func(p [2]int, z int) V3 {
		var q V3
		q[u], q[v], q[ax] = p[0], p[1], z
		return q
	}
	var tris []Tri
	for i := range h {
		p, q := h[i], h[(i+1)%len(h)]
		if r.Intn(2) == 0 {
			tris = append(tris, Tri{at(p, z0), at(q, z0), at(q, z1)}, Tri{at(p, z0), at(q, z1), at(p, z1)})
		} else {
			tris = append(tris, Tri{at(p, z0), at(q, z0), at(p, z1)}, Tri{at(q, z0), at(q, z1), at(p, z1)})
		}
		if i >= 1 && i+1 < len(h) {
			tris = append(tris, Tri{at(h[0], z1), at(h[i], z1), at(h[i+1], z1)}, Tri{at(h[0], z0), at(h[i+1], z0), at(h[i], z0)})
		}
	}
	return tris
}

func randHull(r *rand.Rand, lo, hi V3) []Tri {
	for {
		var ps []V3
		for i := 4 + r.Intn(5); i > 0; i-- {
			var p V3
			for j := range p {
				p[j] = lo[j] + r.Intn(hi[j]-lo[j]+1)
			}
			ps = append(ps, p)
		}
		if t, ok := hull(ps); ok {
			return t
		}
	}
}

func inside(tris []Tri, p V3) bool {
	for _, t := range tris {
		if dot(cross(sub(t[1], t[0]), sub(t[2], t[0])), sub(p, t[0])) >= 0 {
			return false
		}
	}
	return true
}

// world maps integer coordinates relative to a grid into world space.
type world struct {
	origin [3]float64 // in voxels
	pitch  float64
	exact  bool // no rounding errors
}

func randWorld(r *rand.Rand, far float64) *world {
	w := &world{pitch: randPitch(r)}
	if w.exact = r.Intn(3) == 0; w.exact {
		w.pitch = []float64{1, 0.5, 4, 0.03125, 1.0 / 65536, 4096}[r.Intn(6)]
	}
	for i := range w.origin {
		w.origin[i] = float64(r.Intn(401)-200) * []float64{0, 1}[r.Intn(2)]
		if !w.exact {
			w.origin[i] *= []float64{1, 0.37, 0.37, 370, far * 0.37}[r.Intn(5)]
		}
	}
	return w
}

func (w *world) point(p V3) gl.Vector {
	var f [3]float64
	for i := range f {
		f[i] = (w.origin[i] + float64(p[i])/unit) * w.pitch
	}
	return gl.V(f[0], f[1], f[2])
}

func (w *world) mesh(r *rand.Rand, tris []Tri) *gl.Mesh {
	var ts []*gl.Triangle
	for _, t := range tris {
		k := r.Intn(3)
		ts = append(ts, gl.NewTriangleForPoints(w.point(t[k]), w.point(t[(k+1)%3]), w.point(t[(k+2)%3])))
	}
	r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	m := gl.NewTriangleMesh(ts)
	switch r.Intn(8) { // the normals of the vertices are only for looking at
	case 0:
		m.SmoothNormals()
	case 1:
		m.SmoothNormalsThreshold(1)
	case 2:
		for _, t := range m.Triangles {
			t.V1.Normal, t.V2.Normal, t.V3.Normal = gl.Vector{}, gl.V(0, 0, 1), gl.V(-1, 0, 0)
		}
	}
	return m
}

// region returns an empty model of the grid at off (in voxels).
func (w *world) region(n V3, off V3) *binvox.BinVOX {
	return binvox.New(n[0], n[1], n[2], (w.origin[0]+float64(off[0]))*w.pitch, (w.origin[1]+float64(off[1]))*w.pitch, (w.origin[2]+float64(off[2]))*w.pitch,
		float64(max(n[0], n[1], n[2]))*w.pitch, false)
}

// cells returns the boundary of the cells of a grid of lines, as triangles.
func cells(r *rand.Rand, lines [3][]int, occ map[V3]bool) (tris []Tri, boxes [][2]V3) {
	for _, b := range sortedVox(occ) {
		boxes = append(boxes, [2]V3{{lines[0][b[0]], lines[1][b[1]], lines[2][b[2]]}, {lines[0][b[0]+1], lines[1][b[1]+1], lines[2][b[2]+1]}})
		for ax := 0; ax < 3; ax++ {
			for s := 0; s < 2; s++ {
				nb := b
				nb[ax] += 2*s - 1
				if occ[nb] {
					continue
				}
				u, v := (ax+1)%3, (ax+2)%3
				p := func(du, dv int) V3 {
					var q V3
					q[ax], q[u], q[v] = lines[ax][b[ax]+s], lines[u][b[u]+du], lines[v][b[v]+dv]
					return q
				}
				q := [4]V3{p(0, 0), p(1, 0), p(1, 1), p(0, 1)}
				if s == 0 {
					q[1], q[3] = q[3], q[1]
				}
				if r.Intn(2) == 0 {
					tris = append(tris, Tri{q[0], q[1], q[2]}, Tri{q[0], q[2], q[3]})
				} else {
					tris = append(tris, Tri{q[0], q[1], q[3]}, Tri{q[1], q[2], q[3]})
				}
			}
		}
	}
	return tris, boxes
}

func randLines(r *rand.Rand, num, n int, offGrid bool, mid int) []int {
	x := r.Intn(unit*n+1) - unit*n/3
	wide := -1
	if r.Intn(4) == 0 { // a large cell, over the region and far beyond it
		wide = r.Intn(num)
		x -= r.Intn(unit * 20)
	}
	var l []int
	for i := 0; i < num; i++ {
		for offGrid && (x%unit+unit)%unit == mid {
			x++
		}
		l = append(l, x)
		x += 1 + r.Intn([]int{5, 12, 40}[r.Intn(3)])
		if i == wide {
			x += r.Intn(unit * 30)
		}
	}
	return l
}

// bigLines returns lines over n voxels, some at the limits of numbers of bits.
func bigLines(r *rand.Rand, num, n int, offGrid bool, mid int) []int {
	at := map[int]bool{}
	for len(at) < num {
		x := unit * bigIndex(r, n)
		switch {
		case r.Intn(8) == 0:
			x = -1 - r.Intn(unit*20)
		case r.Intn(8) == 0:
			x = unit*n + r.Intn(unit*20)
		}
		x += r.Intn(unit)
		for i := 1 + r.Intn(2); i >= 0 && len(at) < num; i-- {
			for offGrid && (x%unit+unit)%unit == mid {
				x++
			}
			at[x] = true
			x += 1 + r.Intn(40)
		}
	}
	var l []int
	for x := range at {
		l = append(l, x)
	}
	sort.Ints(l)
	return l
}

// bigSide returns a number about a limit of numbers of bits.
func bigSide(r *rand.Rand) int {
	if r.Intn(3) == 0 {
		return 130 + r.Intn(1100)
	}
	return []int{128, 256, 257, 258, 512, 1024}[r.Intn(6)] + r.Intn(3)
}

// bigCells makes a solid of cells in a large region, or of many.
func bigCells(r *rand.Rand, k int, offGrid bool) (n V3, tris []Tri, boxes [][2]V3) {
	occ := map[V3]bool{}
	num := V3{5, 4, 4}
	n = V3{1 + r.Intn(4), 1 + r.Intn(4), 1 + r.Intn(4)}
	thin := false
	switch k %= 8; k {
	case 0, 1, 2:
		n[k] = bigSide(r)
	case 3, 4, 5:
		n = V3{1, 1, 1}
		n[k-3] = 65538 + r.Intn(900)
		num = V3{2, 2, 2}
		num[k-3] = 6
	case 6: // thin cells
		n = V3{260 + r.Intn(30), 260 + r.Intn(30), 260 + r.Intn(30)}
		thin = true
	case 7: // many cells
		n = V3{20 + r.Intn(9), 20 + r.Intn(9), 5 + r.Intn(4)}
		num = V3{14, 14, 4}
	}
	var lines [3][]int
	for i := range lines {
		mid := 0
		if i == 2 {
			mid = unit / 2
		}
		switch {
		case k == 7:
			x := -r.Intn(unit)
			for len(lines[i]) < num[i] {
				for offGrid && (x%unit+unit)%unit == mid {
					x++
				}
				lines[i] = append(lines[i], x)
				x += 1 + r.Intn(2*unit*n[i]/num[i])
			}
		case n[i] > 100:
			lines[i] = bigLines(r, num[i], n[i], offGrid, mid)
		case k >= 3 && k <= 5:
			lines[i] = []int{-3, unit + 3}
		default: // over all of the few voxels
			for x := -3; len(lines[i]) < num[i]; x += 1 + r.Intn(2*unit*n[i]/(num[i]-1)+2) {
				for offGrid && (x%unit+unit)%unit == mid {
					x++
				}
				lines[i] = append(lines[i], x)
			}
		}
	}
	d := 0.3 + 0.4*r.Float64()
	for x := 0; x+1 < num[0]; x++ {
		for y := 0; y+1 < num[1]; y++ {
			for z := 0; z+1 < num[2]; z++ {
				small := 1
				for i, j := range [3]int{x, y, z} {
					small *= (lines[i][j+1]-lines[i][j])/unit + 1
				}
				if r.Float64() < d && (!thin || small < 3000) {
					occ[V3{x, y, z}] = true
				}
			}
		}
	}
	tris, boxes = cells(r, lines, occ)
	return n, tris, boxes
}

// voxelize voxelizes solids made of boxes, and convex bodies.
func voxelize(c *C) {
	r := c.R
	w := randWorld(r, 1<<16)
	var n V3
	for i := range n {
		n[i] = 1 + r.Intn(9)
	}
	if c.Raw == nil && r.Intn(30) == 0 {
		n[r.Intn(3)] = 0
	}
	e := Ev{"n": n}
	var tris []Tri
	switch {
	case c.Raw != nil:
		var gc struct {
			Xs, Ys []int
			Occ    [][2]int
		}
		c.Case(&gc)
		w.exact = false
		n = V3{5, 5, 2}
		e["n"] = n
		occ := map[V3]bool{}
		for _, o := range gc.Occ {
			occ[V3{o[0], o[1], 0}] = true
		}
		var boxes [][2]V3
		tris, boxes = cells(r, [3][]int{gc.Xs, gc.Ys, {1, 13}}, occ)
		e["op"], e["boxes"] = "boxes", boxes
	case c.I%50 == 49:
		var boxes [][2]V3
		n, tris, boxes = bigCells(r, c.I/50, !w.exact)
		if boxes == nil {
			boxes = [][2]V3{}
		}
		e["op"], e["boxes"], e["n"] = "boxes", boxes, n
	case r.Intn(2) == 0:
		occ := map[V3]bool{}
		d := []float64{0.2, 0.5, 0.8}[r.Intn(3)]
		for i := 0; i < 36; i++ {
			if r.Float64() < d {
				occ[V3{i % 4, i / 4 % 3, i / 12}] = true
			}
		}
		var boxes [][2]V3
		tris, boxes = cells(r, [3][]int{randLines(r, 5, n[0], !w.exact, 0), randLines(r, 4, n[1], !w.exact, 0), randLines(r, 4, n[2], !w.exact, unit/2)}, occ)
		if boxes == nil {
			boxes = [][2]V3{}
		}
		e["op"], e["boxes"] = "boxes", boxes
	default:
		type body struct {
			Tris   []Tri `json:"tris"`
			Cavity bool  `json:"cavity"`
		}
		var bodies []body
		lo := V3{}
		hi := V3{}
		for i := range lo {
			lo[i] = -unit * r.Intn(4)
			hi[i] = unit*n[i] + unit*(1+r.Intn(4))
			if r.Intn(4) == 0 { // far beyond the region
				lo[i] -= unit * r.Intn(20)
				hi[i] += unit * r.Intn(6)
			}
			if r.Intn(8) == 0 { // outside of the region
				lo[i] += 2 * unit * n[i]
				hi[i] += 2 * unit * n[i]
			}
		}
		num := 1 + r.Intn(3)
		ax := r.Intn(3)
		at := lo[ax]
		overlap := r.Intn(3) == 0
		for i := 0; i < num; i++ {
			l, h := lo, hi
			if !overlap { // next to each other
				l[ax] = at
				at = lo[ax] + (hi[ax]-lo[ax])*(i+1)/num
				h[ax] = at
				at += r.Intn(3) * r.Intn(unit)
				if h[ax]-l[ax] < 2 {
					break
				}
			}
			var t []Tri
			if r.Intn(2) == 0 {
				t = prism(r, l, h)
			} else {
				t = randHull(r, l, h)
			}
			if t == nil {
				continue
			}
			bodies = append(bodies, body{t, false})
			tris = append(tris, t...)
			if !overlap && r.Intn(2) == 0 { // with a cavity
				var mid V3
				for _, q := range t {
					for _, p := range q {
						for j := range mid {
							mid[j] += p[j]
						}
					}
				}
				for j := range mid {
					mid[j] /= 3 * len(t)
				}
				scale := 5 + r.Intn(4) // of 10
				var in []Tri
				seen := map[V3]bool{}
				var ps []V3
				ok := true
				for _, q := range t {
					for _, p := range q {
						for j := range p {
							p[j] = mid[j] + (p[j]-mid[j])*scale/10
						}
						if !seen[p] {
							seen[p] = true
							ps = append(ps, p)
						}
						ok = ok && inside(t, p)
					}
				}
				if ok && len(ps) < 12 {
					if in, ok = hull(ps); ok {
						bodies = append(bodies, body{in, true})
						for _, q := range in {
							tris = append(tris, Tri{q[0], q[2], q[1]})
						}
					}
				}
			}
		}
		if bodies == nil {
			bodies = []body{}
		}
		e["op"], e["bodies"] = "bodies", bodies
	}
	mesh := w.mesh(r, tris)
	b := w.region(n, V3{})
	var err error
	if r.Intn(4) == 0 && c.I%50 != 49 {
		zi := 0
		if n[2] > 0 {
			zi = r.Intn(n[2])
		}
		e["zi"] = zi
		err = b.VoxelizeZ(mesh, zi)
	} else {
		err = b.Voxelize(mesh)
	}
	if err != nil {
		e["err"] = err.Error()
	}
	e["got"] = voxOf(b)
	c.Emit(e)
}

// randMesh returns a closed mesh with coordinates off all lattices, of about the given size.
func randMesh(r *rand.Rand, size float64) []*gl.Triangle {
	a, b, g := r.Float64()*7, r.Float64()*7, r.Float64()*7
	rot := gl.Identity().Rotate(gl.V(0, 0, 1), a).Rotate(gl.V(0, 1, 0), b).Rotate(gl.V(1, 0, 0), g)
	center := gl.V(r.Float64()*size, r.Float64()*size, r.Float64()*size)
	var pt func(i, j int) gl.Vector
	nu, nv := 5+r.Intn(12), 4+r.Intn(9)
	torus := r.Intn(2) == 0
	r1, r2 := size*(0.2+0.3*r.Float64()), size*(0.05+0.15*r.Float64())
	if torus {
		pt = func(i, j int) gl.Vector {
			u, v := float64(i%nu)/float64(nu)*2*math.Pi, float64(j%nv)/float64(nv)*2*math.Pi
			return gl.V((r1+r2*math.Cos(v))*math.Cos(u), (r1+r2*math.Cos(v))*math.Sin(u), r2*math.Sin(v))
		}
	} else { // a star-shaped body
		rad := map[[2]int]float64{}
		pt = func(i, j int) gl.Vector {
			k := [2]int{i % nu, j}
			if j == 0 || j == nv {
				k[0] = 0
			}
			if _, ok := rad[k]; !ok {
				rad[k] = r1 * (0.4 + 0.6*r.Float64())
			}
			u, v := float64(k[0])/float64(nu)*2*math.Pi, float64(j)/float64(nv)*math.Pi
			return gl.V(math.Sin(v)*math.Cos(u), math.Sin(v)*math.Sin(u), math.Cos(v)).MulScalar(rad[k])
		}
	}
	w := func(i, j int) gl.Vector { return rot.MulPosition(pt(i, j)).Add(center) }
	var ts []*gl.Triangle
	for i := 0; i < nu; i++ {
		for j := 0; j < nv; j++ {
			p, q, s, t := w(i, j), w(i+1, j), w(i+1, j+1), w(i, j+1)
			if !torus {
				p, q, s, t = t, s, q, p
			}
			for _, x := range [][3]gl.Vector{{p, q, s}, {p, s, t}} {
				if x[0] != x[1] && x[1] != x[2] && x[2] != x[0] {
					ts = append(ts, gl.NewTriangleForPoints(x[0], x[1], x[2]))
				}
			}
		}
	}
	return ts
}

// subdivide voxelizes a mesh as a whole, by layers, by regions, repeatedly, and several at once.
func subdivide(c *C) {
	r := c.R
	procs := runtime.GOMAXPROCS(0)
	defer runtime.GOMAXPROCS(procs)
	runtime.GOMAXPROCS([]int{1, 2, 4, procs}[r.Intn(4)])
	w := randWorld(r, 1)
	var n V3
	for i := range n {
		n[i] = 2 + r.Intn(11)
	}
	size := float64(max(n[0], n[1], n[2]))
	long := -1
	if c.I%15 == 14 { // long regions
		long = c.I / 15 % 3
		n = V3{2 + r.Intn(3), 2 + r.Intn(3), 2 + r.Intn(3)}
		n[long] = bigSide(r) / 2
		if c.I%30 == 14 {
			n[long] = 257 + r.Intn(3)
		}
		size = 5
	}
	var ts []*gl.Triangle
	for i := 1 + r.Intn(2); i > 0; i-- {
		ts = append(ts, randMesh(r, size)...)
	}
	for i := 8 + r.Intn(4); long >= 0 && i > 0; i-- { // bodies along it
		add := randMesh(r, size)
		off := [3]float64{}
		stretch := [3]float64{1, 1, 1}
		off[long] = float64(bigIndex(r, n[long])) + r.Float64() - 3
		if r.Intn(2) == 0 {
			stretch[long] = 1 + 20*r.Float64()
		}
		for _, t := range add {
			for _, v := range []*gl.Vertex{&t.V1, &t.V2, &t.V3} {
				v.Position = v.Position.Mul(gl.V(stretch[0], stretch[1], stretch[2])).Add(gl.V(off[0], off[1], off[2]))
			}
		}
		ts = append(ts, add...)
	}
	for _, t := range ts {
		for _, v := range []*gl.Vertex{&t.V1, &t.V2, &t.V3} {
			v.Position = v.Position.Add(gl.V(w.origin[0], w.origin[1], w.origin[2])).MulScalar(w.pitch)
		}
		t.FixNormals()
	}
	mesh := gl.NewTriangleMesh(ts)
	before := snapshot(mesh)

	whole := w.region(n, V3{})
	must(whole.Voxelize(mesh))
	e := Ev{"op": "subdivide", "n": n, "whole": voxOf(whole)}

	// At once: the whole again, the layers, and the regions of a division.
	type part struct {
		Off V3   `json:"off"`
		N   V3   `json:"n"`
		Vox []V3 `json:"vox"`
	}
	var cuts [3][]int
	for i := range cuts {
		cuts[i] = []int{0}
		step := 1 + r.Intn(n[i])
		for at := 0; at < n[i]; {
			if r.Intn(3) == 0 {
				step = 1 + r.Intn(n[i])
			}
			at = min(at+step, n[i])
			cuts[i] = append(cuts[i], at)
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	parts := []part{}
	layers := []V3{}
	again := make([][]V3, 2)
	var fails []string
	started := 0
	do := func(f func() error) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := f(); err != nil {
				mu.Lock()
				fails = append(fails, err.Error())
				mu.Unlock()
			}
		}()
	}
	for i := range again {
		do(func() error {
			b := w.region(n, V3{})
			err := b.Voxelize(mesh)
			again[i] = voxOf(b)
			return err
		})
	}
	for z := 0; z < n[2]; z++ {
		do(func() error {
			b := w.region(n, V3{})
			err := b.VoxelizeZ(mesh, z)
			mu.Lock()
			defer mu.Unlock()
			for _, v := range voxOf(b) {
				if v[2] != z {
					return fmt.Errorf("layer %d has voxel %v", z, v)
				}
				layers = append(layers, v)
			}
			return err
		})
	}
	for i := 1; i < len(cuts[0]); i++ {
		for j := 1; j < len(cuts[1]); j++ {
			for k := 1; k < len(cuts[2]); k++ {
				if started++; started%40 == 0 {
					wg.Wait()
				}
				do(func() error {
					p := part{Off: V3{cuts[0][i-1], cuts[1][j-1], cuts[2][k-1]}}
					p.N = sub(V3{cuts[0][i], cuts[1][j], cuts[2][k]}, p.Off)
					b := w.region(p.N, p.Off)
					err := b.Voxelize(mesh)
					p.Vox = voxOf(b)
					mu.Lock()
					parts = append(parts, p)
					mu.Unlock()
					return err
				})
			}
		}
	}
	wg.Wait()
	if len(fails) > 0 {
		again = append(again, []V3{{-1, -1, -1}})
	}
	e["parts"], e["layers"], e["again"], e["changed"] = parts, layers, again, before != snapshot(mesh)
	c.Emit(e)
}

// snapshot describes a mesh exactly.
func snapshot(m *gl.Mesh) string {
	var b strings.Builder
	for _, t := range m.Triangles {
		fmt.Fprintln(&b, t.V1, t.V2, t.V3)
	}
	return b.String()
}
