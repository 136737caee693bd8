package main

import (
	"bytes"
	"context"
	"image"
	"image/color"
	"image/png"
	"math"
	"math/rand"
	"net"
	"sort"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/stl2svx/agent"
	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"google.golang.org/grpc"
)

func init() {
	drivers["slice"] = slice
}

// registrar is a master that only registers agents.
type registrar struct{ pb.MasterServer }

func (registrar) RegisterAgent(context.Context, *pb.RegisterAgentRequest) (*pb.RegisterAgentResponse, error) {
	return &pb.RegisterAgentResponse{}, nil
}

var theAgent pb.AgentServer

// newAgent makes a real agent, which works in this process.
func newAgent() pb.AgentServer {
	if theAgent != nil {
		return theAgent
	}
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := grpc.NewServer()
	pb.RegisterMasterServer(s, registrar{})
	go s.Serve(lis)
	a, err := agent.New(context.Background(), "nowhere", lis.Addr().String())
	must(err)
	s.Stop()
	theAgent = a
	return a
}

// innerLines returns the lines of cells over 0..l, and beyond nothing.
func innerLines(r *rand.Rand, num, l int, offGrid bool, mid int) []int {
	seen := map[int]bool{0: true, l: true}
	for i := 0; i < num*4 && len(seen) < num; i++ {
		x := 1 + r.Intn(max(1, l-1))
		if x >= l || offGrid && x%unit == mid {
			continue
		}
		seen[x] = true
	}
	out := []int{}
	for x := range seen {
		out = append(out, x)
	}
	sort.Ints(out)
	return out
}

// loose tells that the model is so far away that its size is not exact.
func (s *solid) loose() bool {
	for _, o := range s.w.origin {
		if math.Abs(o) > 1e5 && !s.w.exact {
			return true
		}
	}
	return false
}

// baseBoxes makes a solid of boxes whose bounding box is exactly 0..l.
func baseBoxes(r *rand.Rand, l V3, offGrid bool) (tris []Tri, boxes [][2]V3) {
	lines := [3][]int{innerLines(r, 5, l[0], offGrid, 0), innerLines(r, 4, l[1], offGrid, 0), innerLines(r, 4, l[2], offGrid, unit/2)}
	occ := map[V3]bool{}
	p := []float64{0.2, 0.5, 0.9}[r.Intn(3)]
	var m V3
	for i := range m {
		m[i] = len(lines[i]) - 1
	}
	for x := 0; x < m[0]; x++ {
		for y := 0; y < m[1]; y++ {
			for z := 0; z < m[2]; z++ {
				if r.Float64() < p {
					occ[V3{x, y, z}] = true
				}
			}
		}
	}
	for ax := range m { // something at each limit
		for s := 0; s < 2; s++ {
			v := V3{r.Intn(m[0]), r.Intn(m[1]), r.Intn(m[2])}
			v[ax] = s * (m[ax] - 1)
			occ[v] = true
		}
	}
	return cells(r, lines, occ)
}

// baseHull makes a convex solid with extremes on all sides of 0..l.
func baseHull(r *rand.Rand, l V3) []Tri {
	for k := 0; k < 1000; k++ {
		var ps []V3
		for i := r.Intn(4); i >= 0; i-- {
			ps = append(ps, V3{r.Intn(l[0] + 1), r.Intn(l[1] + 1), r.Intn(l[2] + 1)})
		}
		for ax := range l {
			for s := 0; s < 2; s++ {
				p := V3{r.Intn(l[0] + 1), r.Intn(l[1] + 1), r.Intn(l[2] + 1)}
				p[ax] = s * l[ax]
				ps = append(ps, p)
			}
		}
		if t, ok := hull(ps); ok {
			return t
		}
	}
	return nil
}

// file makes the message of a mesh.
func (w *world) file(r *rand.Rand, tris []Tri) *pb.STLFile {
	f := &pb.STLFile{}
	for _, t := range w.mesh(r, tris).Triangles {
		f.Triangles = append(f.Triangles, &pb.Triangle{
			V1: &pb.Vertex{X: t.V1.Position.X, Y: t.V1.Position.Y, Z: t.V1.Position.Z},
			V2: &pb.Vertex{X: t.V2.Position.X, Y: t.V2.Position.Y, Z: t.V2.Position.Z},
			V3: &pb.Vertex{X: t.V3.Position.X, Y: t.V3.Position.Y, Z: t.V3.Position.Z}})
	}
	return f
}

// pixels describes an image: its size, its white pixels, and whether all pixels are black or white.
func pixels(e Ev, b []byte) {
	e["white"], e["w"], e["h"], e["gray"] = [][2]int{}, 0, 0, true
	img, err := png.Decode(bytes.NewReader(b))
	if err != nil {
		return
	}
	e["gray"] = false
	if _, ok := img.(*image.Gray); !ok {
		e["gray"] = true
	}
	w, h := img.Bounds().Dx(), img.Bounds().Dy()
	white := [][2]int{}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			switch color.GrayModel.Convert(img.At(img.Bounds().Min.X+x, img.Bounds().Min.Y+y)).(color.Gray).Y {
			case 0:
			case 255:
				white = append(white, [2]int{x, y})
			default:
				e["gray"] = true
			}
		}
	}
	e["white"], e["w"], e["h"] = white, w, h
}

// solid is a model for the SVX service.
type solid struct {
	w    *world
	l    V3 // size of the bounding box of the base
	dim  int
	req  *pb.NewJobRequest
	desc Ev // how the solid is described to the specification
}

// newSolid makes a random base with cuts.
func newSolid(r *rand.Rand, maxDim int) *solid { return newSolidAlong(r, maxDim, -1) }

// newSolidAlong makes a base that is long along an axis, unless that is negative.
func newSolidAlong(r *rand.Rand, maxDim, long int) *solid {
	s := &solid{w: randWorld(r, 1<<16)}
	s.dim = 1 + r.Intn(maxDim)
	if long >= 0 {
		s.dim = bigSide(r)
		if maxDim > 100 {
			s.dim = maxDim
		}
	}
	for i := range s.l {
		s.l[i] = 1 + r.Intn(unit*s.dim)
		if r.Intn(3) == 0 {
			s.l[i] = unit * (1 + r.Intn(s.dim))
		}
	}
	if s.l[2]%unit == unit/2 { // the top is not in the middle plane of a layer
		s.l[2]--
	}
	if long < 0 {
		s.l[r.Intn(3)] = unit * s.dim
	} else {
		s.l = V3{unit * (1 + r.Intn(4)), unit * (1 + r.Intn(4)), unit * (1 + r.Intn(4))}
		s.l[long] = unit * s.dim
	}
	s.req = &pb.NewJobRequest{Dim: int64(s.dim), NX: 1, NY: 1, NZ: 1, OutPrefix: "out"}
	var tris []Tri
	num := r.Intn(4)
	n := V3{(s.l[0] + unit - 1) / unit, (s.l[1] + unit - 1) / unit, (s.l[2] + unit - 1) / unit}
	if long < 0 && r.Intn(4) == 0 { // off all lattices
		size := float64(s.dim)
		mesh := func() *pb.STLFile {
			f := &pb.STLFile{}
			for _, t := range randMesh(r, size) {
				v := func(p gl.Vector) *pb.Vertex {
					return &pb.Vertex{X: (p.X + s.w.origin[0]) * s.w.pitch, Y: (p.Y + s.w.origin[1]) * s.w.pitch, Z: (p.Z + s.w.origin[2]) * s.w.pitch}
				}
				f.Triangles = append(f.Triangles, &pb.Triangle{V1: v(t.V1.Position), V2: v(t.V2.Position), V3: v(t.V3.Position)})
			}
			return f
		}
		for i := 0; i <= num; i++ {
			s.req.StlFiles = append(s.req.StlFiles, mesh())
		}
		s.l = V3{unit, unit, unit} // (not known)
		s.desc = Ev{"op": "generic"}
	} else if r.Intn(3) > 0 {
		var models [][][2]V3
		var boxes [][2]V3
		tris, boxes = baseBoxes(r, s.l, !s.w.exact)
		s.req.StlFiles = append(s.req.StlFiles, s.w.file(r, tris))
		models = append(models, boxes)
		for i := 0; i < num; i++ {
			occ := map[V3]bool{}
			p := []float64{0, 0.15, 0.5, 0.9}[r.Intn(4)]
			for i := 0; i < 36; i++ {
				if r.Float64() < p {
					occ[V3{i % 4, i / 4 % 3, i / 12}] = true
				}
			}
			tris, boxes := cells(r, [3][]int{randLines(r, 5, n[0], !s.w.exact, 0), randLines(r, 4, n[1], !s.w.exact, 0), randLines(r, 4, n[2], !s.w.exact, unit/2)}, occ)
			if boxes == nil {
				boxes = [][2]V3{}
			}
			s.req.StlFiles = append(s.req.StlFiles, s.w.file(r, tris))
			models = append(models, boxes)
		}
		s.desc = Ev{"op": "boxes", "models": models}
	} else {
		type body struct {
			Tris   []Tri `json:"tris"`
			Cavity bool  `json:"cavity"`
		}
		if tris = baseHull(r, s.l); tris == nil {
			return newSolidAlong(r, maxDim, long)
		}
		bodies := []body{{tris, false}}
		s.req.StlFiles = append(s.req.StlFiles, s.w.file(r, tris))
		for i := 0; i < num; i++ {
			var lo, hi V3
			for i := range lo {
				lo[i] = r.Intn(s.l[i]+1) - unit*r.Intn(4)
				hi[i] = lo[i] + 2 + r.Intn(s.l[i]+2*unit)
			}
			var t []Tri
			if r.Intn(2) == 0 {
				t = prism(r, lo, hi)
			}
			if t == nil {
				t = randHull(r, lo, hi)
			}
			bodies = append(bodies, body{t, true})
			s.req.StlFiles = append(s.req.StlFiles, s.w.file(r, t))
		}
		s.desc = Ev{"op": "bodies", "bodies": bodies}
	}
	if s.desc["op"] != "generic" {
		s.desc["len"], s.desc["loose"] = s.l, s.loose()
	}
	s.desc["dim"] = s.dim
	return s
}

// slice lets a real agent make the image of a layer, for several divisions.
func slice(c *C) {
	r := c.R
	long := -1
	if c.I%40 == 39 {
		long = c.I / 40 % 3
	}
	s := newSolidAlong(r, 12, long)
	a := newAgent()
	e := s.desc
	n := V3{(s.l[0] + unit - 1) / unit, (s.l[1] + unit - 1) / unit, (s.l[2] + unit - 1) / unit}
	if e["op"] == "generic" { // about
		lo, hi := [3]float64{math.Inf(1), math.Inf(1), math.Inf(1)}, [3]float64{math.Inf(-1), math.Inf(-1), math.Inf(-1)}
		for _, t := range s.req.StlFiles[0].Triangles {
			for _, v := range []*pb.Vertex{t.V1, t.V2, t.V3} {
				for i, x := range []float64{v.X, v.Y, v.Z} {
					lo[i], hi[i] = min(lo[i], x), max(hi[i], x)
				}
			}
		}
		size := max(hi[0]-lo[0], hi[1]-lo[1], hi[2]-lo[2])
		for i := range n {
			n[i] = max(1, int((hi[i]-lo[i])/size*float64(s.dim)))
		}
	}
	z := r.Intn(n[2])
	if long == 2 {
		z = bigIndex(r, n[2])
	}
	e["z"] = z
	imgs := []Ev{}
	for k := 0; k < 4; k++ {
		d := V3{1, 1, 1}
		if k > 0 {
			for i := range d {
				d[i] = 1 + r.Intn(min(5, n[i]+r.Intn(2)))
				if e["op"] == "generic" {
					d[i] = 1 + r.Intn(3)
				} else if r.Intn(6) == 0 && n[i] < 100 {
					d[i] = n[i]
				}
			}
		}
		req := s.req
		req.NX, req.NY, req.NZ = int64(d[0]), int64(d[1]), int64(d[2])
		resp, err := a.SliceJob(context.Background(), &pb.SliceJobRequest{NewJobRequest: req, Z: int64(z)})
		im := Ev{"div": d, "ok": err == nil && resp.GetError() == ""}
		if err == nil {
			pixels(im, resp.GetPngFile())
		} else {
			im["err"] = err.Error()
		}
		imgs = append(imgs, im)
	}
	e["imgs"] = imgs
	c.Emit(e)
}
