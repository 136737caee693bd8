package main

import (
	"archive/zip"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/xml"
	"errors"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"image/png"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"sort"
	"sync"
	"time"

	"github.com/gmlewis/stldice/v4/stl2svx/master"
	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() {
	drivers["svx"] = svxCase
	timeouts["svx"] = 400 * time.Second
}

// svxWorld is the surroundings of one real master: clients and agents, and the log of what happens between them.
type svxWorld struct {
	c      *C
	mu     sync.Mutex // protects all that follows
	log    []Ev
	agents []*svxAgent
	jobs   []*svxJob
	calls  int
	change chan struct{} // gets closed at every change
	m      pb.MasterServer
	ip     string
	turn   int // where the list of triangles begins
	mark   int // how the number of a job is part of its request
	final  []func()
	stuck  bool      // nothing happened for a long time though something should
	last   time.Time // of the last answer
	end    time.Time // of the last job
}

type svxAgent struct {
	w    *svxWorld
	id   int
	addr string
	srv  *grpc.Server
	dead bool
	open []*svxCall
}

type svxCall struct {
	id, j, z int
	agent    *svxAgent
	reply    chan func() (*pb.SliceJobResponse, error)
}

type svxJob struct {
	id, layers, w, h int
	unit             float64
	req              *pb.NewJobRequest
	cancel           context.CancelFunc
	asked, ended     bool
	failed           bool // an agent answered with an error
	done             map[int]bool
}

func (w *svxWorld) add(e Ev) { // with w.mu held
	w.log = append(w.log, e)
	close(w.change)
	w.change = make(chan struct{})
}

// slicePNG makes the image number id.
func slicePNG(id, w, h int) []byte {
	img := image.NewGray(image.Rect(0, 0, w, h))
	for k := 0; k < w*h && k < 30; k++ {
		if id>>k&1 == 1 {
			img.SetGray(k%w, k/w, color.Gray{255})
		}
	}
	var b bytes.Buffer
	must(png.Encode(&b, img))
	return b.Bytes()
}

// withComment adds a chunk of n bytes to a PNG file.
func withComment(b []byte, n int) []byte {
	chunk := append([]byte("tEXtComment\x00"), bytes.Repeat([]byte("x"), n)...)
	end := len(b) - 12 // (IEND)
	out := append(append([]byte{}, b[:end]...), binary.BigEndian.AppendUint32(nil, uint32(len(chunk)-4))...)
	out = append(out, chunk...)
	out = binary.BigEndian.AppendUint32(out, crc32.ChecksumIEEE(chunk))
	return append(out, b[end:]...)
}

// imageID is the inverse of slicePNG; -1 is an image that cannot be read, -2 one of an unknown kind.
func imageID(b []byte) (id, w, h int) {
	img, err := png.Decode(bytes.NewReader(b))
	if err != nil {
		return -1, 0, 0
	}
	w, h = img.Bounds().Dx(), img.Bounds().Dy()
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			v := color.GrayModel.Convert(img.At(img.Bounds().Min.X+x, img.Bounds().Min.Y+y)).(color.Gray).Y
			switch k := y*w + x; {
			case v == 0:
			case v == 255 && k < 30:
				id |= 1 << k
			default:
				return -2, w, h
			}
		}
	}
	return id, w, h
}

// boxSTL makes a box; its position tells its number.
func boxSTL(x0, y0, z0, dx, dy, dz float64) *pb.STLFile {
	s := &pb.STLFile{}
	for _, t := range boxTris([3]float64{x0, y0, z0}, [3]float64{x0 + dx, y0 + dy, z0 + dz}) {
		v := func(i int) *pb.Vertex { return &pb.Vertex{X: t[i][0], Y: t[i][1], Z: t[i][2]} }
		s.Triangles = append(s.Triangles, &pb.Triangle{V1: v(0), V2: v(1), V3: v(2)})
	}
	return s
}

func boxTris(lo, hi [3]float64) (ts [][3][3]float64) {
	at := func(k int) [3]float64 {
		p := lo
		for a := 0; a < 3; a++ {
			if k>>a&1 == 1 {
				p[a] = hi[a]
			}
		}
		return p
	}
	for a := 0; a < 3; a++ {
		u, v := 1<<((a+1)%3), 1<<((a+2)%3)
		ts = append(ts, [3][3]float64{at(0), at(v), at(u)}, [3][3]float64{at(u), at(v), at(u | v)})
		n := 1 << a
		ts = append(ts, [3][3]float64{at(n), at(n | u), at(n | v)}, [3][3]float64{at(n | u), at(n | u | v), at(n | v)})
	}
	return ts
}

const jobStep = 4096

// jobOf tells which job a request is of.
func (w *svxWorld) jobOf(in *pb.NewJobRequest) int {
	fs := in.GetStlFiles()
	if len(fs) == 0 {
		return 0
	}
	f := fs[0]
	if w.mark == 2 {
		f = fs[len(fs)-1]
	}
	ts := f.GetTriangles()
	if len(ts) == 0 {
		return 0
	}
	x := ts[len(ts)-1].GetV1().GetX()
	if w.mark == 1 {
		return int(x * 1024)
	}
	return int(math.Floor(x / jobStep))
}

// SliceJob is the call of the real master.
func (a *svxAgent) SliceJob(ctx context.Context, in *pb.SliceJobRequest) (*pb.SliceJobResponse, error) {
	w := a.w
	w.mu.Lock()
	if a.dead {
		w.mu.Unlock()
		return nil, status.Error(codes.Unavailable, "dead")
	}
	j := w.jobOf(in.GetNewJobRequest())
	if j < 1 || j > len(w.jobs) {
		fail("call for the job %d", j)
	}
	job := w.jobs[j-1]
	delete(job.done, int(in.GetZ())) // (if it was done, the answer has not arrived)
	w.calls++
	call := &svxCall{id: w.calls, j: j, z: int(in.GetZ()), agent: a, reply: make(chan func() (*pb.SliceJobResponse, error), 1)}
	a.open = append(a.open, call)
	w.add(Ev{"ev": "call", "a": a.id, "j": j, "z": call.z + 1, "id": call.id, "same": proto.Equal(in.GetNewJobRequest(), job.req)})
	w.mu.Unlock()
	f := <-call.reply // (also after the master has given up)
	if f == nil {
		return nil, status.Error(codes.Unavailable, "dead")
	}
	return f()
}

// reply lets an agent answer.
func (w *svxWorld) reply(call *svxCall, bad bool) { // with w.mu held
	a := call.agent
	for i := range a.open {
		if a.open[i] == call {
			a.open = append(a.open[:i:i], a.open[i+1:]...)
			break
		}
	}
	job := w.jobs[call.j-1]
	st := "ok"
	f := func() (*pb.SliceJobResponse, error) {
		b := slicePNG(call.id, job.w, job.h)
		if w.c.I%60 == 7 && call.id%4 == 1 { // a large image: with a comment
			b = withComment(b, 5<<20)
		}
		return &pb.SliceJobResponse{PngFile: b}, nil
	}
	if bad {
		st = "err"
		job.failed = true
		k := w.c.R.Intn(6)
		f = func() (*pb.SliceJobResponse, error) {
			switch k {
			case 0:
				return nil, errors.New("broken")
			case 1:
				return nil, status.Error(codes.InvalidArgument, "bad request")
			case 2:
				return nil, status.Error(codes.ResourceExhausted, "no memory")
			case 3:
				return &pb.SliceJobResponse{Error: "broken"}, nil
			case 4:
				return nil, status.Error(codes.Internal, "broken")
			}
			return nil, status.Error(codes.Unknown, "")
		}
	} else {
		job.done[call.z] = true
	}
	w.last = time.Now()
	w.add(Ev{"ev": "reply", "a": a.id, "id": call.id, "j": call.j, "z": call.z + 1, "st": st})
	call.reply <- f
}

// agent starts an agent; old is one whose address it takes over, if not nil.
func (w *svxWorld) agent(old *svxAgent) {
	addr, id := w.ip+":0", 0
	if old != nil {
		addr, id = old.addr, old.id
	}
	lis, err := net.Listen("tcp", addr)
	if err != nil && old != nil {
		old = nil
		lis, err = net.Listen("tcp", w.ip+":0")
	}
	must(err)
	w.mu.Lock()
	a := &svxAgent{w: w, id: id, addr: lis.Addr().String(), srv: grpc.NewServer()}
	if old == nil {
		a.id = 1
		for _, b := range w.agents {
			a.id = max(a.id, b.id+1)
		}
		w.agents = append(w.agents, a)
	} else {
		for i, b := range w.agents {
			if b == old {
				w.agents[i] = a
			}
		}
	}
	w.mu.Unlock()
	pb.RegisterAgentServer(a.srv, a)
	go a.srv.Serve(lis)
	w.mu.Lock()
	w.add(Ev{"ev": "register", "a": a.id})
	w.mu.Unlock()
	_, err = w.m.RegisterAgent(context.Background(), &pb.RegisterAgentRequest{Address: a.addr})
	if err != nil {
		w.mu.Lock()
		w.add(Ev{"ev": "refused", "a": a.id})
		w.mu.Unlock()
	}
}

// die ends an agent.
func (w *svxWorld) die(a *svxAgent) {
	w.mu.Lock()
	if d := time.Since(w.last); d < 100*time.Millisecond { // let its last answer arrive, in most cases
		w.mu.Unlock()
		time.Sleep([]time.Duration{0, 100, 100, 100, 100, 100, 100, 100}[w.c.R.Intn(8)] * time.Millisecond)
		w.mu.Lock()
	}
	a.dead = true
	open := a.open
	a.open = nil
	w.add(Ev{"ev": "die", "a": a.id})
	w.mu.Unlock()
	a.srv.Stop()
	for _, c := range open {
		c.reply <- nil
	}
}

// job starts a job.
func (w *svxWorld) job(r *rand.Rand, layers int) {
	w.mu.Lock()
	j := len(w.jobs) + 1
	wx, wy := 3+r.Intn(2), 2+r.Intn(3)
	unit := []float64{1, 0.5, 2, 0.25}[r.Intn(4)]
	if j > 1 && r.Intn(2) == 0 { // jobs that look alike
		wx, wy = w.jobs[0].w-2, w.jobs[0].h-2
		unit = w.jobs[0].unit
		switch r.Intn(3) {
		case 0:
			layers = w.jobs[0].layers
		case 1:
			unit /= 2
		}
	}
	req := &pb.NewJobRequest{Dim: int64(max(wx, wy, layers)), NX: int64(1 + r.Intn(2)), NY: int64(1 + r.Intn(2)), NZ: int64(1 + r.Intn(layers)),
		OutPrefix: []string{"out", "out", "a", fmt.Sprint("j", j)}[r.Intn(4)]}
	x0 := float64(j)*jobStep + float64(r.Intn(100))*unit
	if j > 1 && r.Intn(2) == 0 {
		if o := w.jobs[0].req; int(o.NZ) <= layers {
			req.NX, req.NY, req.NZ = o.NX, o.NY, o.NZ
		}
	}
	y0, z0 := float64(r.Intn(40)-20)*unit, float64(r.Intn(40)-20)*unit
	if w.mark > 0 {
		x0, y0, z0 = 0, 0, 0
	}
	base := boxSTL(x0, y0, z0, float64(wx)*unit, float64(wy)*unit, float64(layers)*unit)
	k := w.turn % len(base.Triangles)
	base.Triangles = append(append([]*pb.Triangle{}, base.Triangles[k:]...), base.Triangles[:k]...)
	req.StlFiles = append(req.StlFiles, base)
	for r.Intn(3) == 0 {
		req.StlFiles = append(req.StlFiles, boxSTL(x0, 0, 0, 2, 2, 2))
	}
	switch v := func(x float64) *pb.Vertex { return &pb.Vertex{X: x} }; w.mark {
	case 1: // an empty triangle tells the number of the job
		base.Triangles = append(base.Triangles, &pb.Triangle{V1: v(float64(j) / 1024), V2: v(0), V3: v(0)})
	case 2:
		req.StlFiles = append(req.StlFiles, boxSTL(jobStep*float64(j), 0, 0, 1, 1, 1))
	}
	ctx, cancel := context.WithCancel(context.Background())
	job := &svxJob{id: j, layers: layers, unit: unit, w: wx + 2, h: wy + 2, req: req, cancel: cancel, done: map[int]bool{}}
	w.jobs = append(w.jobs, job)
	w.add(Ev{"ev": "job", "j": j, "layers": layers, "w": job.w, "h": job.h, "unit": int(unit * 1000)})
	w.mu.Unlock()
	go func() {
		resp, err := w.m.NewJob(ctx, proto.Clone(req).(*pb.NewJobRequest))
		e := Ev{"ev": "end", "j": j, "ok": err == nil && resp.GetError() == ""}
		var was []byte
		if err == nil {
			was = append(was, resp.GetSvxFile()...)
			readSVX(e, was)
		}
		w.mu.Lock()
		w.final = append(w.final, func() { // the reply is sent after NewJob has returned
			if err == nil && !bytes.Equal(was, resp.GetSvxFile()) {
				e["good"] = false
			}
		})
		job.ended = true
		w.end = time.Now()
		w.add(e)
		w.mu.Unlock()
		cancel()
	}()
}

// readSVX describes an archive: the manifest, and the images in the order of the archive.
func readSVX(e Ev, b []byte) {
	images := []Ev{}
	e["images"] = images
	e["good"] = false
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return
	}
	e["manifests"] = 0
	slices := ""
	type part struct {
		name string
		b    []byte
	}
	var parts []part
	for _, f := range zr.File {
		rc, err := f.Open()
		if err != nil {
			return
		}
		b, err := io.ReadAll(rc)
		if err != nil {
			return
		}
		rc.Close()
		if f.Name != "manifest.xml" {
			parts = append(parts, part{f.Name, b})
			continue
		}
		e["manifests"] = e["manifests"].(int) + 1
		var g struct {
			X  int     `xml:"gridSizeX,attr"`
			Y  int     `xml:"gridSizeY,attr"`
			Z  int     `xml:"gridSizeZ,attr"`
			V  float64 `xml:"voxelSize,attr"`
			Ch []struct {
				Type   string `xml:"type,attr"`
				Slices string `xml:"slices,attr"`
			} `xml:"channels>channel"`
		}
		if err := xml.Unmarshal(b, &g); err != nil {
			return
		}
		for _, ch := range g.Ch {
			if ch.Type == "DENSITY" {
				slices = ch.Slices
			}
		}
		e["grid"] = []int{g.X, g.Y, g.Z}
		e["voxel"] = int(math.Round(g.V * 1e6)) // in thousandths of a millimeter
	}
	if slices == "" {
		return
	}
	for _, p := range parts {
		layer := -1
		if g, ok := e["grid"].([]int); ok {
			for z := 0; z < min(g[1], 1<<16); z++ {
				if fmt.Sprintf(slices, z) == p.name {
					layer = z
				}
			}
		}
		id, w, h := imageID(p.b)
		images = append(images, Ev{"layer": layer, "id": id, "w": w, "h": h})
	}
	e["images"] = images
	e["good"] = true
}

// settled tells whether all that can be expected to happen without the driver has happened. (It only decides how long
// to wait: what must happen is up to the specification.)
func (w *svxWorld) settled() bool { // with w.mu held
	wait := 0
	for _, j := range w.jobs {
		if j.ended {
			continue
		}
		if j.asked || j.failed || len(j.done) == j.layers {
			return false
		}
		wait += j.layers - len(j.done)
	}
	live := 0
	for _, a := range w.agents {
		if a.dead {
			continue
		}
		if len(a.open) == 0 {
			live++
			continue
		}
		for _, c := range a.open {
			if j := w.jobs[c.j-1]; !j.ended {
				wait--
			}
		}
	}
	return live == 0 || wait <= 0
}

const quietTime = 10 * time.Second

// svxStuck counts the cases that got stuck, which take long.
var svxStuck int

// settle waits until nothing more happens; it notes when that took suspiciously long.
func (w *svxWorld) settle() {
	t := time.NewTimer(quietTime)
	for {
		w.mu.Lock()
		if w.settled() {
			w.mu.Unlock()
			return
		}
		ch := w.change
		w.mu.Unlock()
		t.Reset(quietTime)
		select {
		case <-ch:
		case <-t.C:
			w.mu.Lock()
			w.add(Ev{"ev": "quiet"})
			w.stuck = true
			w.mu.Unlock()
			return
		}
	}
}

// busy lists the calls that wait for an answer.
func (w *svxWorld) busy() (cs []*svxCall) { // with w.mu held
	for _, a := range w.agents {
		cs = append(cs, a.open...)
	}
	sort.Slice(cs, func(i, k int) bool { return cs[i].id < cs[k].id })
	return cs
}

type svxCmd struct {
	Op  string
	K   int
	Bad bool
	N   int
}

func (w *svxWorld) do(r *rand.Rand, cmd svxCmd) {
	alive, dead := []*svxAgent{}, []*svxAgent{}
	w.mu.Lock()
	for _, a := range w.agents {
		if !a.dead && (cmd.Bad == (len(a.open) > 0)) { // bad: one that works
			alive = append(alive, a)
		}
		if a.dead {
			dead = append(dead, a)
		}
	}
	busy := w.busy()
	jobs := []*svxJob{}
	for _, j := range w.jobs {
		if !j.ended && !j.asked {
			jobs = append(jobs, j)
		}
	}
	w.mu.Unlock()
	switch cmd.Op {
	case "job":
		w.job(r, cmd.N)
	case "cancel":
		if len(jobs) > 0 {
			j := jobs[cmd.K%len(jobs)]
			w.mu.Lock()
			if !j.ended {
				j.asked = true
				w.add(Ev{"ev": "cancel", "j": j.id})
			}
			w.mu.Unlock()
			j.cancel()
		}
	case "reply":
		if len(busy) > 0 {
			w.mu.Lock()
			call := busy[cmd.K%len(busy)]
			if !call.agent.dead {
				w.reply(call, cmd.Bad)
			}
			w.mu.Unlock()
		}
	case "die":
		if len(alive) > 0 {
			w.die(alive[cmd.K%len(alive)])
		}
	case "register":
		w.agent(nil)
	case "return":
		if len(dead) > 0 {
			w.settle() // (what it answered has arrived)
			// (nobody is about to call it any more at its old address, also for a job that has just ended)
			w.mu.Lock()
			end := w.end
			w.mu.Unlock()
			if w.running() {
				end = time.Now()
			}
			slow := w.slow()
			time.Sleep(time.Second - time.Since(end))
			if slow = w.slow() || slow; !slow {
				w.agent(dead[cmd.K%len(dead)])
			} else if len(w.agents) < 8 { // a second may not be enough
				w.agent(nil)
			}
		}
	default:
		fail("unknown command %q", cmd.Op)
	}
}

// slow tells whether this machine is so busy that a call to a dead agent may not fail at once.
func (w *svxWorld) slow() bool {
	for i := 0; i < 4; i++ {
		t := time.Now()
		conn, err := grpc.Dial(w.ip+":1", grpc.WithInsecure())
		must(err)
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		pb.NewAgentClient(conn).SliceJob(ctx, &pb.SliceJobRequest{})
		cancel()
		conn.Close()
		if time.Since(t) > 80*time.Millisecond {
			return true
		}
	}
	return false
}

func (w *svxWorld) running() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, j := range w.jobs {
		if !j.ended {
			return true
		}
	}
	return false
}

func (w *svxWorld) isStuck() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.stuck
}

func svxCase(c *C) {
	r := c.R
	w := &svxWorld{c: c, mark: r.Intn(3), turn: r.Intn(12), change: make(chan struct{}), m: master.New(),
		ip: fmt.Sprintf("127.%d.%d.%d", 1+os.Getpid()>>8&0x7f, os.Getpid()&0xff, 1+c.I%250)}
	var gc struct {
		Agents int
		Cmds   []svxCmd
		Rush   bool
	}
	if svxStuck >= 3 {
		return // there is enough to judge
	}
	settled, most := true, 5
	if c.Raw != nil {
		c.Case(&gc)
		settled = !gc.Rush
	} else {
		settled = r.Intn(3) == 0
		gc.Agents = r.Intn(4)
		for i := 5 + r.Intn(20); i > 0; i-- {
			k := r.Intn(100)
			cmd := svxCmd{K: k, N: 1 + r.Intn(4)}
			switch x := r.Intn(20); {
			case x < 4:
				cmd.Op = "job"
			case x < 12:
				cmd.Op = "reply"
				cmd.Bad = r.Intn(8) == 0
			case x < 14:
				cmd.Op = "cancel"
			case x < 16:
				cmd.Op = "die"
				cmd.Bad = r.Intn(2) == 0
			case x < 18:
				cmd.Op = "register"
			default:
				cmd.Op = "return"
			}
			gc.Cmds = append(gc.Cmds, cmd)
		}
		switch c.I % 120 {
		case 59: // many agents
			gc.Agents = 10 + r.Intn(5)
			most = 20
			gc.Cmds = append([]svxCmd{{Op: "job", N: 30 + r.Intn(10)}}, gc.Cmds...)
		case 119: // many layers
			gc.Agents = 4 + r.Intn(3)
			gc.Cmds = []svxCmd{{Op: "job", N: 257 + r.Intn(20)}}
			if r.Intn(2) == 0 {
				gc.Cmds = append(gc.Cmds, svxCmd{Op: "reply"}, svxCmd{Op: "die"}, svxCmd{Op: "job", N: 2})
			}
		}
	}
	for i := 0; i < gc.Agents; i++ {
		w.agent(nil)
	}
	jobs, agents := 0, gc.Agents
	for _, cmd := range gc.Cmds {
		if w.isStuck() {
			break
		}
		if cmd.Op == "job" {
			if jobs++; jobs > 4 {
				continue
			}
		}
		if cmd.Op == "register" {
			if agents++; agents > most {
				continue
			}
		}
		w.do(r, cmd)
		if settled {
			w.settle()
		} else if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(120)) * time.Millisecond)
		}
	}
	// In the end all goes well: every job comes to its end, and every agent is used.
	w.settle()
	w.agent(nil)
	drain := func() {
		for k := 0; k < 400; k++ {
			w.settle()
			w.mu.Lock()
			left := false
			for _, j := range w.jobs {
				left = left || !j.ended
			}
			b := w.busy()
			w.mu.Unlock()
			if len(b) == 0 {
				if !left {
					break
				}
				w.mu.Lock()
				quiet := w.log[len(w.log)-1]["ev"] == "quiet"
				w.mu.Unlock()
				if quiet {
					break
				}
				continue
			}
			for _, call := range b {
				w.mu.Lock()
				w.reply(call, false)
				w.mu.Unlock()
			}
		}
	}
	drain()
	live := 0
	w.mu.Lock()
	for _, a := range w.agents {
		if !a.dead {
			live++
		}
	}
	w.mu.Unlock()
	w.do(r, svxCmd{Op: "job", N: live})
	drain()
	w.mu.Lock()
	log := w.log
	w.log = append([]Ev{}, log...)
	for _, a := range w.agents {
		for _, call := range a.open {
			call.reply <- nil
		}
		a.open, a.dead = nil, true
	}
	w.mu.Unlock()
	for _, j := range w.jobs {
		j.cancel()
	}
	for _, a := range w.agents {
		a.srv.Stop()
	}
	for _, f := range w.final {
		f()
	}
	if w.isStuck() {
		svxStuck++
	}
	c.Emit(Ev{"op": "svx", "log": log, "big": c.Raw == nil && c.I%60 == 59})
}
