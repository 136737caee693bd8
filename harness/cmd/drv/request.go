package main

import (
	"archive/zip"
	"bytes"
	"context"
	"io"
	"math"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gmlewis/stldice/v4/stl2svx/agent"
	"github.com/gmlewis/stldice/v4/stl2svx/master"
	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() {
	drivers["request"] = requestCase
	timeouts["request"] = 120 * time.Second
}

// service is a real master with real agents, reached over the network.
type service struct {
	master pb.MasterClient
	agents []pb.AgentClient
	lonely pb.MasterClient // a master without agents
}

var theService *service

func dial(addr string) *grpc.ClientConn {
	conn, err := grpc.Dial(addr, grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(1<<30), grpc.MaxCallSendMsgSize(1<<30)))
	must(err)
	return conn
}

func serve(register func(*grpc.Server)) (addr string) {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := grpc.NewServer(grpc.MaxRecvMsgSize(1 << 30))
	register(s)
	go s.Serve(lis)
	return lis.Addr().String()
}

func newService(agents int) *service {
	if theService != nil {
		return theService
	}
	s := &service{}
	at := serve(func(g *grpc.Server) { pb.RegisterMasterServer(g, master.New()) })
	s.master = pb.NewMasterClient(dial(at))
	s.lonely = pb.NewMasterClient(dial(serve(func(g *grpc.Server) { pb.RegisterMasterServer(g, master.New()) })))
	for i := 0; i < agents; i++ {
		var real pb.AgentServer
		ready := make(chan struct{})
		addr := serve(func(g *grpc.Server) { pb.RegisterAgentServer(g, later{ready, &real}) })
		a, err := agent.New(context.Background(), addr, at)
		must(err)
		real = a
		close(ready)
		s.agents = append(s.agents, pb.NewAgentClient(dial(addr)))
	}
	theService = s
	return s
}

// later is an agent that exists soon.
type later struct {
	ready chan struct{}
	a     *pb.AgentServer
}

func (l later) SliceJob(ctx context.Context, in *pb.SliceJobRequest) (*pb.SliceJobResponse, error) {
	<-l.ready
	return (*l.a).SliceJob(ctx, in)
}

const answerTime = 20 * time.Second

// dropped tells that a call was not answered: the service still works on it, and nothing more can be learned from it.
var dropped atomic.Bool

// answer describes how a call ended.
func answer(e Ev, err error, msg string) bool {
	code := status.Code(err)
	e["answered"] = code != codes.DeadlineExceeded && code != codes.Unavailable
	if e["answered"] == false {
		dropped.Store(true)
	}
	e["ok"] = err == nil && msg == ""
	e["err"] = msg
	if err != nil {
		e["err"] = err.Error()
	}
	return err == nil
}

// slice asks an agent for a layer.
func (s *service) slice(e Ev, a int, req *pb.SliceJobRequest) {
	ctx, cancel := context.WithTimeout(context.Background(), answerTime)
	defer cancel()
	resp, err := s.agents[a].SliceJob(ctx, req)
	e["imgs"] = []Ev{}
	if answer(e, err, resp.GetError()) && e["ok"] == true {
		im := Ev{"ok": true, "z": req.Z}
		pixels(im, resp.GetPngFile())
		e["imgs"] = []Ev{im}
	}
}

// job asks the master for a whole model.
func job(m pb.MasterClient, e Ev, req *pb.NewJobRequest) {
	ctx, cancel := context.WithTimeout(context.Background(), answerTime)
	defer cancel()
	resp, err := m.NewJob(ctx, req)
	e["imgs"] = []Ev{}
	if answer(e, err, resp.GetError()) && e["ok"] == true {
		e["imgs"] = archiveImages(resp.GetSvxFile())
	}
}

// archiveImages describes the images of an SVX file in the order of their names, without the first and the last one.
func archiveImages(b []byte) []Ev {
	imgs := []Ev{}
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return imgs
	}
	sort.Slice(zr.File, func(i, j int) bool { return zr.File[i].Name < zr.File[j].Name })
	var pngs []*zip.File
	for _, f := range zr.File {
		if strings.HasSuffix(f.Name, ".png") {
			pngs = append(pngs, f)
		}
	}
	for i, f := range pngs {
		if i == 0 || i == len(pngs)-1 {
			continue
		}
		im := Ev{"ok": false, "z": i - 1, "white": []int{}, "w": 0, "h": 0, "gray": true}
		if rc, err := f.Open(); err == nil {
			if b, err := io.ReadAll(rc); err == nil {
				im["ok"] = true
				pixels(im, b)
			}
			rc.Close()
		}
		imgs = append(imgs, im)
	}
	return imgs
}

// oddRequest says what is unusual about a request.
type oddRequest struct {
	To, Base, Cut, Dim, Dx, Dy, Dz, Z string
	Hopeless                          bool
}

// spoil makes a mesh unsound.
func spoil(r *rand.Rand, f *pb.STLFile, kind string) {
	if len(f.Triangles) == 0 {
		f.Triangles = append(f.Triangles, &pb.Triangle{V1: &pb.Vertex{}, V2: &pb.Vertex{X: 1}, V3: &pb.Vertex{Y: 1}})
	}
	t := f.Triangles[r.Intn(len(f.Triangles))]
	vs := []*pb.Vertex{t.V1, t.V2, t.V3}
	set := func(x float64) { setCoord(vs[r.Intn(3)], r.Intn(3), x) }
	switch kind {
	case "nil1":
		t.V1 = nil
	case "nil2":
		t.V2 = nil
	case "nil3":
		t.V3 = nil
	case "nan":
		set(math.NaN())
	case "inf":
		set(math.Inf(1))
	case "-inf":
		set(math.Inf(-1))
	case "huge":
		for k := r.Intn(4); k >= 0; k-- {
			set([]float64{1e300, -1e300, 1.7e308, -1.7e308, 1e39, 5e200}[r.Intn(6)])
		}
	case "tiny":
		k := math.Pow(10, []float64{-300, -306, -307, -308, -310, -312, -320}[r.Intn(7)])
		for _, t := range f.Triangles {
			for _, v := range []*pb.Vertex{t.V1, t.V2, t.V3} {
				v.X, v.Y, v.Z = v.X*k, v.Y*k, v.Z*k
			}
		}
	case "empty":
		f.Triangles = nil
	case "flat", "point":
		ax := r.Intn(3)
		for _, t := range f.Triangles {
			for _, v := range []*pb.Vertex{t.V1, t.V2, t.V3} {
				for a := 0; a < 3; a++ {
					if a == ax || kind == "point" {
						setCoord(v, a, 2.5)
					}
				}
			}
		}
	}
}

func near(x int64) int64 { return max(-1000000000, min(1000000000, x)) }

// request makes a request with what is unusual about it, and its description.
func request(r *rand.Rand, o oddRequest, maxDim int) (*pb.SliceJobRequest, Ev) {
	var s *solid
	for s == nil || s.desc["op"] != "boxes" {
		s = newSolid(r, maxDim)
		if maxDim > 100 { // many layers
			s = newSolidAlong(r, maxDim, 2)
		}
	}
	e, req := s.desc, s.req
	var n [3]int64
	for i := range n {
		n[i] = int64((s.l[i] + unit - 1) / unit)
	}
	models := e["models"].([][][2]V3)
	cuts := []string{}
	for range req.StlFiles[1:] {
		cuts = append(cuts, "ok")
	}
	if o.Cut == "no" && r.Intn(2) == 0 {
		req.StlFiles, models, cuts = req.StlFiles[:1], models[:1], []string{}
	} else if o.Cut != "no" && o.Cut != "ok" { // another model at any place in the list
		f := &pb.STLFile{}
		if k := r.Intn(len(req.StlFiles)); k > 0 {
			f = proto.Clone(req.StlFiles[k]).(*pb.STLFile)
		}
		spoil(r, f, o.Cut)
		at := r.Intn(len(cuts) + 1)
		req.StlFiles = append(req.StlFiles[:at+1:at+1], append([]*pb.STLFile{f}, req.StlFiles[at+1:]...)...)
		cuts = append(cuts[:at:at], append([]string{o.Cut}, cuts[at:]...)...)
	}
	switch o.Base {
	case "ok":
	case "none":
		req.StlFiles, cuts = nil, []string{}
	default:
		spoil(r, req.StlFiles[0], o.Base)
	}
	switch o.Dim {
	case "zero":
		req.Dim = 0
	case "neg":
		req.Dim = -1 - r.Int63n(1<<r.Intn(62))
	case "min":
		req.Dim = math.MinInt64
	case "far":
		req.Dim = 1<<40 + r.Int63n(1<<60)
	case "max":
		req.Dim = math.MaxInt64
	}
	div := func(o string, n int64) int64 {
		switch o {
		case "all":
			return n
		case "over":
			return n + 1 + r.Int63n(1<<r.Intn(62))
		case "zero":
			return 0
		case "neg":
			return -1 - r.Int63n(1<<r.Intn(62))
		case "min":
			return math.MinInt64
		case "max":
			return math.MaxInt64
		}
		return 1 + r.Int63n(min(n, 3))
	}
	req.NX, req.NY, req.NZ = div(o.Dx, n[0]), div(o.Dy, n[1]), div(o.Dz, n[2])
	z := r.Int63n(n[2])
	switch o.Z {
	case "first":
		z = 0
	case "last":
		z = n[2] - 1
	case "end":
		z = n[2] + r.Int63n(2)*r.Int63n(1<<r.Intn(62))
	case "neg":
		z = -1 - r.Int63n(1<<r.Intn(62))
	case "min":
		z = math.MinInt64
	case "max":
		z = math.MaxInt64
	}
	e["to"], e["base"], e["cuts"], e["dim"], e["div"], e["z"] = o.To, o.Base, cuts, near(req.Dim), [3]int64{near(req.NX), near(req.NY), near(req.NZ)}, near(z)
	e["models"] = models
	sr := &pb.SliceJobRequest{NewJobRequest: req, Z: z}
	if o.Base == "none" && o.To == "agent" && r.Intn(2) == 0 {
		sr.NewJobRequest = nil
	}
	return sr, e
}

func setCoord(v *pb.Vertex, axis int, x float64) {
	*[]*float64{&v.X, &v.Y, &v.Z}[axis] = x
}

// requestCase sends unusual requests to the service while it works on usual ones.
func requestCase(c *C) {
	r := c.R
	if dropped.Load() {
		return
	}
	var in struct{ Reqs []oddRequest }
	c.Case(&in)
	s := newService(3)
	var mu sync.Mutex
	var evs []Ev
	var wg sync.WaitGroup
	do := func(o oddRequest, seed int64, maxDim int, when string) {
		r := rand.New(rand.NewSource(seed))
		req, e := request(r, o, maxDim)
		e["when"] = when
		if o.To == "agent" {
			s.slice(e, r.Intn(len(s.agents)), req)
		} else {
			m := s.master
			if o.Hopeless && r.Intn(4) == 0 {
				m, e["to"] = s.lonely, "lonely"
			}
			job(m, e, req.NewJobRequest)
		}
		mu.Lock()
		evs = append(evs, e)
		mu.Unlock()
	}
	usual := func(to string) oddRequest {
		return oddRequest{To: to, Base: "ok", Cut: "no", Dim: "ok", Dx: "some", Dy: "some", Dz: "some", Z: "some"}
	}
	stop := make(chan struct{})
	for i := 1 + r.Intn(2); i > 0; i-- { // usual jobs
		seed := r.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := int64(0); k < 3; k++ {
				do(usual("master"), seed+k, 10, "meanwhile")
				select {
				case <-stop:
					return
				default:
				}
			}
		}()
	}
	var odd sync.WaitGroup
	together := r.Intn(2) == 0
	for _, o := range in.Reqs {
		seed := r.Int63()
		if dropped.Load() {
			break
		}
		odd.Add(1)
		f := func() {
			defer odd.Done()
			do(o, seed, 6, "odd")
		}
		if together {
			go f()
		} else {
			f()
		}
	}
	odd.Wait()
	close(stop)
	wg.Wait()
	if !dropped.Load() {
		do(usual("master"), r.Int63(), 6, "after")
		do(usual("agent"), r.Int63(), 6, "after")
	}
	for _, e := range evs {
		c.Emit(e)
	}
}
