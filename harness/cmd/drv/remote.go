package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
)

func init() {
	drivers["remote"] = remoteCase
	timeouts["remote"] = 170 * time.Second
}

// proc is a process of the service.
type proc struct {
	cmd  *exec.Cmd
	out  bytes.Buffer
	done chan struct{} // closed when it has ended
	exit int
	addr string
}

// startProc starts a tool; it is killed when the driver is.
func startProc(dir, name string, args ...string) *proc {
	p := &proc{cmd: exec.Command(filepath.Join(bin, name), args...), done: make(chan struct{})}
	p.cmd.Dir = dir
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	p.cmd.WaitDelay = time.Second
	must(p.cmd.Start())
	go func() {
		err := p.cmd.Wait()
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			p.exit = ee.ExitCode()
			if p.exit < 0 || strings.Contains(p.out.String(), "panic:") || strings.Contains(p.out.String(), "fatal error:") {
				p.exit = crashed
			}
		} else if err != nil {
			p.exit = crashed
		}
		close(p.done)
	}()
	return p
}

func (p *proc) ended(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

func (p *proc) kill() {
	p.cmd.Process.Signal(syscall.SIGKILL)
	<-p.done
}

// remote is a service of real processes.
type remote struct {
	c       *C
	r       *rand.Rand
	ip      string // an address of the loopback network that no other driver uses
	port    int
	master  *proc
	agents  []*proc // those that the master knows, and that are alive
	all     []*proc
	clients []*client
	evs     []Ev
}

type client struct {
	*proc
	e            Ev
	out          string
	old          []byte
	before       []string
	lived, ended bool
	more         time.Duration // that it may take
}

var has6 = sync.OnceValue(func() bool {
	l, err := net.Listen("tcp", "[::1]:0")
	if err != nil {
		return false
	}
	l.Close()
	return true
})

func (m *remote) startMaster() {
	for try := 0; ; try++ {
		p := startProc(m.c.Dir, "stl2svx-server", "-port", fmt.Sprintf("%s:%d", m.ip, m.port))
		m.all = append(m.all, p)
		for i := 0; i < 400 && !p.ended(0); i++ {
			if conn, err := net.Dial("tcp", m.masterAddr()); err == nil {
				conn.Close()
				m.master = p
				return
			}
			time.Sleep(10 * time.Millisecond)
		}
		if try > 20 {
			m.evs = append(m.evs, Ev{"op": "server", "why": "master", "exit": 98})
			m.master = p
			return
		}
		p.kill()
		m.port = 20000 + m.r.Intn(12000)
	}
}

func (m *remote) masterAddr() string { return fmt.Sprintf("%s:%d", m.ip, m.port) }

func (m *remote) startAgent() {
	kinds := []string{"127.0.0.1:0", "0.0.0.0:0", ":0", "localhost:0", m.ip + ":0", "127.0.0.2:0", "default"}
	if has6() {
		kinds = append(kinds, "[::1]:0", "[::]:0")
	}
	k := kinds[m.r.Intn(len(kinds))]
	args := []string{"-port=" + k, "-master=" + m.masterAddr()}
	if k == "default" {
		args = args[1:]
	}
	p := startProc(m.c.Dir, "stl2svx-server", args...)
	p.addr = k
	m.agents = append(m.agents, p)
	m.all = append(m.all, p)
}

// startClient runs the client with a request that is sound or not.
func (m *remote) startClient(bad bool) {
	r := m.r
	k := len(m.clients)
	o := oddRequest{To: "master", Base: "ok", Cut: []string{"no", "ok"}[r.Intn(2)], Dim: "ok", Dx: "some", Dy: "some", Dz: "some", Z: "some"}
	why := ""
	if bad {
		switch why = []string{"base", "cut", "dim", "div", "load", "load", "dir", "nodir", "full", "address", "nothing"}[r.Intn(11)]; why {
		case "base":
			o.Base = []string{"empty", "flat", "point", "nan", "inf"}[r.Intn(5)]
		case "cut":
			o.Cut = []string{"nan", "inf", "empty"}[r.Intn(3)]
		case "dim":
			o.Dim = []string{"zero", "neg", "far", "max", "min"}[r.Intn(5)]
		case "div":
			*[]*string{&o.Dx, &o.Dy, &o.Dz}[r.Intn(3)] = []string{"over", "zero", "neg", "max", "min"}[r.Intn(5)]
		}
	}
	// Requests and archives that are too large for the usual limit of 4 MB of messages: the prefix is in the archive,
	// twice for each of many layers, and a cut has many triangles that are far away.
	large := !bad && k == 0 && m.c.I%10 == 9
	if large {
		o.Cut = "ok"
		if m.c.I/10%2 == 0 {
			o.Cut = "no"
		}
	}
	layers, dim := large && m.c.I/10%2 == 0, 8
	if layers {
		dim = 560
		for len(m.agents) < 3 {
			m.startAgent()
		}
	}
	sr, e := request(r, o, dim)
	for large && layers == (len(e["cuts"].([]string)) > 0) {
		sr, e = request(r, o, dim)
	}
	req := sr.NewJobRequest
	e["op"], e["why"] = "client", why
	cl := &client{e: e, lived: true}
	if large {
		cl.more = clientTime
	}
	names := []string{}
	for i, f := range req.StlFiles {
		if cuts := e["cuts"].([]string); i > 0 && len(f.Triangles) == 0 {
			cuts[i-1] = "empty"
		}
		n := fmt.Sprintf("m%d-%d.stl", k, i)
		tris, exact := trisOf(f)
		if large && !layers && i > 0 && i == len(req.StlFiles)-1 {
			far := boxTris([3]float64{3e7, 3e7, 3e7}, [3]float64{4e7, 4e7, 4e7})
			for len(tris) < 70000 {
				tris = append(tris, far...)
			}
		}
		writeSTL(m.c.Path(n), tris, !exact || r.Intn(2) == 0)
		names = append(names, n)
	}
	e["loads"], e["fits"], e["reach"] = true, true, true
	master := m.masterAddr()
	switch why {
	case "load":
		e["loads"] = false
		i := r.Intn(len(names))
		switch r.Intn(4) {
		case 0:
			names[i] = "missing.stl"
		case 1:
			names[i] = "."
		case 2:
			b, err := os.ReadFile(m.c.Path(names[i]))
			must(err)
			must(os.WriteFile(m.c.Path(names[i]), b[:min(len(b), 10+r.Intn(60))], 0644))
		case 3:
			names[i] = ""
		}
	case "nothing":
		e["loads"] = false
		names = nil
	case "address":
		e["reach"] = false
		master = []string{m.ip + ":1", "", "127.0.0.1", "x"}[r.Intn(4)]
	}
	prefix := []string{"out", "out", "a b", "100%", "ü", "sub/x", "%d", "x.svx", "a-1-2", m.c.Path("abs")}[r.Intn(10)]
	if r.Intn(3) > 0 {
		prefix += strconv.Itoa(k) // (otherwise several clients may use the same one; the driver waits then)
	}
	if why == "nodir" {
		prefix = "nodir/x" + strconv.Itoa(k)
	}
	if layers {
		prefix = "sub/" + strings.Repeat("./", 1900) + "x" + strconv.Itoa(k)
	}
	req.OutPrefix = prefix
	cl.out = fmt.Sprintf("%s-%d-%d-%d-%d.svx", prefix, req.Dim, req.NX, req.NY, req.NZ)
	if !filepath.IsAbs(cl.out) {
		cl.out = m.c.Path(cl.out)
	}
	for _, x := range m.clients {
		if x.out == cl.out {
			m.wait(x)
		}
	}
	os.Remove(cl.out)
	switch {
	case why == "dir":
		must(os.MkdirAll(cl.out, 0755))
		e["fits"] = false
	case why == "nodir":
		e["fits"] = false
	case why == "full":
		must(os.Symlink("/dev/full", cl.out))
		e["fits"] = false
	case r.Intn(3) == 0: // an older file, that is longer than the new one
		cl.old = bytes.Repeat([]byte("old"), 20000)
		must(os.WriteFile(cl.out, cl.old, 0644))
	}
	args := []string{"-prefix=" + prefix, "-master=" + master, fmt.Sprintf("-dim=%d", req.Dim), fmt.Sprintf("-nx=%d", req.NX), fmt.Sprintf("-ny=%d", req.NY), fmt.Sprintf("-nz=%d", req.NZ)}
	if names != nil {
		args = append(args, "-stl="+strings.Join(names, ","))
	}
	e["args"] = args
	cl.proc = startProc(m.c.Dir, "stl2svx-client", args...)
	m.all = append(m.all, cl.proc)
	m.clients = append(m.clients, cl)
}

// trisOf returns the triangles of a message, and whether a binary file can hold them exactly.
func trisOf(f *pb.STLFile) (ts [][3][3]float64, exact bool) {
	exact = true
	for _, t := range f.Triangles {
		var q [3][3]float64
		for j, v := range []*pb.Vertex{t.V1, t.V2, t.V3} {
			q[j] = [3]float64{v.X, v.Y, v.Z}
			for _, x := range q[j] {
				exact = exact && float64(float32(x)) == x
			}
		}
		ts = append(ts, q)
	}
	return ts, exact
}

func (m *remote) running() (cs []*client) {
	for _, cl := range m.clients {
		if !cl.ended && !cl.proc.ended(0) {
			cs = append(cs, cl)
		}
	}
	return cs
}

const clientTime = 40 * time.Second

// wait waits until a client has ended, and describes what it left.
func (m *remote) wait(cl *client) {
	if cl.ended {
		return
	}
	if len(m.agents) == 0 && m.master != nil {
		m.startAgent()
	}
	m.finish(cl, clientTime+cl.more)
}

func (m *remote) finish(cl *client, d time.Duration) {
	if cl.ended {
		return
	}
	e := cl.e
	e["killed"] = false
	switch {
	case cl.proc.ended(d):
		e["exit"] = cl.exit
	case d == 0:
		cl.kill()
		e["exit"], e["killed"] = 0, true
	default:
		cl.kill()
		e["exit"] = 98
	}
	cl.ended = true
	e["lived"] = cl.lived
	fi, err := os.Lstat(cl.out)
	e["exists"] = err == nil
	e["new"], e["whole"], e["imgs"] = false, false, []Ev{}
	if err == nil && fi.Mode().IsRegular() {
		b, err := os.ReadFile(cl.out)
		must(err)
		e["new"] = !bytes.Equal(b, cl.old)
		if parts, err := unzip(b); err == nil && len(parts) > 0 && endsWithDirectory(b) {
			for _, p := range parts {
				if p.name == "manifest.xml" {
					e["whole"] = true
				}
			}
			e["imgs"] = archiveImages(b)
		}
	}
	o := cl.proc.out.String()
	e["said"] = o[max(0, len(o)-200):]
	m.evs = append(m.evs, e)
}

// endsWithDirectory tells whether nothing follows the end record of a zip archive.
func endsWithDirectory(b []byte) bool {
	i := bytes.LastIndex(b, []byte("PK\x05\x06"))
	return i >= 0 && i+22 <= len(b) && i+22+int(b[i+20])+int(b[i+21])<<8 == len(b)
}

func (m *remote) pause() {
	time.Sleep(time.Duration(m.r.Intn([]int{1, 30, 150, 500}[m.r.Intn(4)])) * time.Millisecond)
}

// oddServer starts a server that cannot work.
func (m *remote) oddServer() {
	why := []string{"no master", "busy port", "bad port", "not its address"}[m.r.Intn(4)]
	var args []string
	switch why {
	case "no master":
		args = []string{"-port=127.0.0.1:0", "-master=" + m.ip + ":1"}
	case "busy port":
		args = []string{"-port=" + m.masterAddr()}
	case "bad port":
		args = []string{"-port=" + []string{"x", "127.0.0.1:99999", "127.0.0.1"}[m.r.Intn(3)]}
	case "not its address":
		args = []string{"-port=192.0.2.1:0", "-master=" + m.masterAddr()}
	}
	p := startProc(m.c.Dir, "stl2svx-server", args...)
	m.all = append(m.all, p)
	exit := 98
	if p.ended(20 * time.Second) {
		exit = p.exit
	}
	m.evs = append(m.evs, Ev{"op": "server", "why": why, "exit": exit})
}

func remoteCase(c *C) {
	r := c.R
	var in struct{ Cmds []string }
	c.Case(&in)
	pid := os.Getpid()
	m := &remote{c: c, r: r, ip: fmt.Sprintf("127.%d.%d.%d", 1+pid>>14&63, 1+pid>>7&127, 1+pid&127), port: 20000 + r.Intn(12000)}
	defer func() {
		for _, p := range m.all {
			p.kill()
		}
	}()
	must(os.MkdirAll(c.Path("sub"), 0755))
	m.startMaster()
	for _, cmd := range in.Cmds {
		switch cmd {
		case "agent":
			m.startAgent()
			if r.Intn(2) == 0 { // let it register
				time.Sleep(100 * time.Millisecond)
			}
		case "kill", "freeze":
			if len(m.agents) == 0 {
				break
			}
			k := r.Intn(len(m.agents))
			a := m.agents[k]
			if cmd == "freeze" {
				a.cmd.Process.Signal(syscall.SIGSTOP)
				time.Sleep(250 * time.Millisecond)
			}
			a.kill()
			m.agents = append(m.agents[:k:k], m.agents[k+1:]...)
		case "job", "bad":
			m.startClient(cmd == "bad")
		case "cancel":
			if cs := m.running(); len(cs) > 0 && c.I%10 != 9 {
				cs[r.Intn(len(cs))].finishKilled(m)
			}
		case "master":
			for _, cl := range m.running() {
				cl.lived = false
			}
			m.master.kill()
			m.agents = nil
			m.startMaster()
		case "wait":
			for _, cl := range m.running() {
				m.wait(cl)
			}
		}
		m.pause()
	}
	if r.Intn(8) == 0 {
		m.oddServer()
	}
	for _, cl := range m.clients {
		m.wait(cl)
	}
	up := 0
	for _, a := range m.agents {
		if !a.ended(0) {
			up++
		}
	}
	m.evs = append(m.evs, Ev{"op": "end", "master": !m.master.ended(0), "up": up, "started": len(m.agents)})
	for _, e := range m.evs {
		e["cmds"] = in.Cmds
		c.Emit(e)
	}
}

func (cl *client) finishKilled(m *remote) { m.finish(cl, 0) }
