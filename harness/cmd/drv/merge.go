package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/stl"
)

func init() {
	drivers["stlmerge"] = stlmerge
	drivers["mergetool"] = mergetool
}

// idTri is the triangle number k.
func idTri(k int) [3][3]float64 {
	f := float64(k)
	return [3][3]float64{{f, 0, 0}, {f, 1, 0}, {f, 0, 1}}
}

func idTris(ids []int) (ts [][3][3]float64) {
	for _, k := range ids {
		ts = append(ts, idTri(k))
	}
	return ts
}

// triIDs returns the numbers of triangles, -1 for others.
func triIDs(ts [][3][3]float64) []int {
	out := []int{}
	for _, t := range ts {
		k := int(t[0][0])
		if t != idTri(k) {
			k = -1
		}
		out = append(out, k)
	}
	return out
}

// badSTL makes a file that cannot be read.
func badSTL(r *rand.Rand, name string) {
	switch r.Intn(8) {
	case 0:
		must(os.Mkdir(name, 0755))
	case 1:
		must(os.WriteFile(name, nil, 0644))
	case 2:
		must(os.WriteFile(name, make([]byte, 1+r.Intn(83)), 0644))
	case 3: // incomplete
		writeSTL(name, idTris([]int{1, 2, 3, 4}), false)
		must(os.Truncate(name, int64(84+r.Intn(200))))
	case 4: // more than it says
		writeSTL(name, idTris([]int{1, 2, 3, 4}), false)
		f, err := os.OpenFile(name, os.O_APPEND|os.O_WRONLY, 0)
		must(err)
		f.Write(make([]byte, 1+r.Intn(60)))
		must(f.Close())
	default:
		writeSTL(name, idTris([]int{1, 2, 3, 4}), true)
		b, err := os.ReadFile(name)
		must(err)
		s := string(b)
		at := strings.LastIndex(s, "vertex")
		if r.Intn(3) > 0 { // anywhere, also behind a triangle
			at = 84 + r.Intn(strings.Index(s, "endsolid")+4-84)
			if r.Intn(2) == 0 {
				at = strings.LastIndex(s[:at], "endfacet") + len("endfacet\n")
			}
			at = max(at, 90)
			if (at-84)%50 == 0 {
				at++ // (a size that could be that of a binary file)
			}
		}
		must(os.WriteFile(name, []byte(s[:at]), 0644))
	}
}

// lease is a file whose opening is held up.
type lease struct{ f *os.File }

func fcntl(f *os.File, cmd, arg int) (int, error) {
	r, _, e := syscall.Syscall(syscall.SYS_FCNTL, f.Fd(), uintptr(cmd), uintptr(arg))
	if e != 0 {
		return 0, e
	}
	return int(r), nil
}

const setLease, getLease = 1024, 1025

func hold(name string) *lease {
	f, err := os.OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		return nil
	}
	if _, err := fcntl(f, setLease, syscall.F_WRLCK); err != nil {
		f.Close()
		return nil
	}
	return &lease{f}
}

// wanted tells whether someone is opening the file.
func (l *lease) wanted() bool {
	v, err := fcntl(l.f, getLease, 0)
	return err != nil || v != syscall.F_WRLCK
}

func (l *lease) release() {
	fcntl(l.f, setLease, syscall.F_UNLCK)
	l.f.Close()
}

// stlmerge merges files, with control of the order in which they are read.
func stlmerge(c *C) {
	r := c.R
	signal.Ignore(syscall.SIGIO)
	procs := runtime.GOMAXPROCS(0)
	defer runtime.GOMAXPROCS(procs)
	runtime.GOMAXPROCS([]int{1, 2, 4, procs}[r.Intn(4)])
	var gc struct {
		N, Num int
		Bad    []int
		Prio   []int
	}
	held, many := true, 0
	if c.Raw != nil {
		c.Case(&gc)
	} else {
		gc.N = r.Intn(12)
		gc.Num = r.Intn(gc.N+3) - 1
		if r.Intn(3) == 0 {
			held = false
			gc.N = r.Intn(60)
			gc.Num = []int{1, 2, 3, 10, 100}[r.Intn(5)]
		}
		switch c.I % 250 {
		case 249: // very many triangles
			held, gc.N, gc.Num = false, 1+r.Intn(3), 1+r.Intn(3)
			many = 1 + r.Intn(gc.N)
		case 124: // very many files
			held, gc.N, gc.Num = false, 257+r.Intn(20), 1+r.Intn(300)
		}
		gc.Prio = r.Perm(gc.N)
		if r.Intn(3) == 0 && c.I%125 != 124 {
			for i := 1 + r.Intn(3); i > 0 && gc.N > 0; i-- {
				gc.Bad = append(gc.Bad, 1+r.Intn(gc.N))
			}
		}
	}
	isBad := map[int]bool{}
	for _, b := range gc.Bad {
		isBad[b] = true
	}
	names := []string{}
	files := []Ev{}
	leases := map[int]*lease{}
	next := 1
	for i := 1; i <= gc.N; i++ {
		name := c.Path(fmt.Sprintf("f%d.stl", i))
		ids := []int{}
		switch {
		case isBad[i] && r.Intn(6) == 0: // missing
		case isBad[i]:
			badSTL(r, name)
		default:
			num := []int{0, 1, 1, 2, 7, 8, 9, 40}[r.Intn(8)]
			if i == many {
				num = 65500 + r.Intn(100)
			}
			for ; num > 0; num-- {
				ids = append(ids, next)
				if many > 0 || r.Intn(4) > 0 { // now and then again
					next++
				}
			}
			writeSTL(name, idTris(ids), r.Intn(4) == 0 && len(ids) > 0 && i != many)
		}
		names = append(names, name)
		files = append(files, Ev{"bad": isBad[i], "ids": ids})
		if fi, err := os.Stat(name); held && err == nil && !fi.IsDir() {
			if l := hold(name); l != nil {
				leases[i] = l
			}
		}
	}
	type result struct {
		m   *gl.Mesh
		err error
	}
	done := make(chan result, 1)
	args := append([]string{}, names...)
	go func() {
		m, err := stl.Merge(args, gc.Num)
		done <- result{m, err}
	}()
	e := Ev{"op": "merge", "num": gc.Num, "files": files, "exit": 0, "ok": false, "got": []int{}}
	log := []Ev{}
	var res *result
	last := time.Now()
	waiting := func() []int {
		w := []int{}
		for i, l := range leases {
			if l.wanted() {
				w = append(w, i)
			}
		}
		sort.Ints(w)
		return w
	}
	for res == nil {
		select {
		case x := <-done:
			res = &x
			continue
		default:
		}
		if time.Since(last) > 20*time.Second {
			e["exit"] = 98
			break
		}
		w := waiting()
		if len(leases) == 0 || len(w) == 0 {
			time.Sleep(100 * time.Microsecond)
			continue
		}
		for t := time.Now(); len(w) < min(gc.Num, len(leases)) && time.Since(t) < 4*time.Millisecond; w = waiting() {
			time.Sleep(100 * time.Microsecond)
		}
		time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond) // for one too many
		w = waiting()
		best := w[0]
		for _, i := range w {
			if gc.Prio[i-1] < gc.Prio[best-1] {
				best = i
			}
		}
		log = append(log, Ev{"waiting": w, "release": best})
		leases[best].release()
		delete(leases, best)
		last = time.Now()
	}
	for _, l := range leases {
		l.release()
	}
	e["log"] = log
	if res != nil {
		e["ok"] = res.err == nil
		if res.err == nil && res.m != nil {
			e["got"] = triIDs(meshTris(res.m))
		}
	}
	c.Emit(e)
}

// describe returns the state of a file.
func describe(name string) string {
	fi, err := os.Lstat(name)
	if err != nil {
		return "none"
	}
	s := fi.Mode().Type().String()
	if fi.Mode()&os.ModeSymlink != 0 {
		l, _ := os.Readlink(name)
		s += l
		if strings.HasPrefix(l, "/dev") {
			return s
		}
	}
	b, err := os.ReadFile(name)
	return fmt.Sprint(s, " ", err == nil, " ", string(b))
}

// mergetool runs merge-stl or merge-binvox in a directory.
func mergetool(c *C) {
	r := c.R
	cmd, ext, outExt := "merge-stl", ".stl", ".stl"
	many := c.I%150 == 149 // very many triangles, or files
	if r.Intn(2) == 0 && !many {
		cmd, ext, outExt = "merge-binvox", ".binvox", ".vsh"
	}
	must(os.MkdirAll(c.Path("d"), 0755))
	base := []string{"out", "o", "x-8-2-2-1", "a.b"}[r.Intn(4)]
	sub := []string{"", "", "d"}[r.Intn(3)]
	prefix := filepath.Join(sub, base)
	switch r.Intn(5) {
	case 0:
		prefix = "./" + prefix
	case 1:
		prefix = filepath.Join(c.Dir, prefix)
	case 2:
		if sub != "" {
			prefix = []string{"d//" + base, "d/../d/" + base, "d/./" + base}[r.Intn(3)]
		}
	}
	at := func(suffix string) string { return filepath.Join(c.Dir, sub, base+suffix) }
	out := at(outExt)
	e := Ev{"tool": cmd, "force": r.Intn(2) == 0, "mismatch": false, "full": false, "num": 10}

	// The files.
	suffixes := []string{"-00-00-00", "-00-00-01", "-01-00-00", "1", "-2", "x", ".y", "-z z", "-10", "_"}
	if ext != outExt {
		suffixes = append(suffixes, "")
	}
	r.Shuffle(len(suffixes), func(i, j int) { suffixes[i], suffixes[j] = suffixes[j], suffixes[i] })
	suffixes = suffixes[:r.Intn(6)]
	if many && c.I/150%2 == 1 {
		for i := 0; i < 110; i++ {
			suffixes = append(suffixes, fmt.Sprintf("-%02d-", i))
		}
	} else if many {
		suffixes = []string{"1", "2"}
	}
	badAt := -1
	if r.Intn(4) == 0 && len(suffixes) > 0 && !many {
		badAt = r.Intn(len(suffixes))
	}
	files := []Ev{}
	pitch := randPitch(r)
	var origin [3]float64
	for i := range origin {
		origin[i] = float64(r.Intn(401)-200) * []float64{0, 1, 0.37}[r.Intn(3)] * pitch
	}
	world := randVox(r, V3{5, 5, 4}, []float64{0.1, 0.5, 1}[r.Intn(3)])
	next, filled, mismatch := 1, 0, -1
	if r.Intn(5) == 0 {
		mismatch = 1 + r.Intn(3)
	}
	sort.Strings(suffixes)
	for i, s := range suffixes {
		name := at(s + ext)
		if ext == ".stl" {
			ids := []int{}
			if i == badAt {
				if r.Intn(4) == 0 {
					must(os.Symlink("nowhere", name))
				} else {
					badSTL(r, name)
				}
			} else {
				k := r.Intn(12)
				if many && i == 0 {
					k = 65530 + r.Intn(100)
				}
				for ; k > 0; k-- {
					ids = append(ids, next)
					if many || r.Intn(4) > 0 {
						next++
					}
				}
				writeSTL(name, idTris(ids), r.Intn(4) == 0 && len(ids) > 0 && !many)
			}
			files = append(files, Ev{"bad": i == badAt, "ids": ids})
			continue
		}
		ids := []V3{}
		m := &Model{Vox: map[V3]bool{}}
		var off V3
		for j := range off {
			off[j] = r.Intn(3) - 1
			m.N[j] = 7
		}
		for v := range world {
			if (v[0]+2*v[1]+3*v[2])%max(1, len(suffixes)) == i {
				ids = append(ids, v)
				m.Vox[V3{v[0] - off[0] + 1, v[1] - off[1] + 1, v[2] - off[2] + 1}] = true
			}
		}
		for j := range off {
			off[j]--
		}
		p := pitch
		if filled > 0 && filled == mismatch && len(ids) > 0 && badAt < 0 {
			p *= []float64{1.5, 1.01, 0.99, 2}[r.Intn(4)]
			e["mismatch"] = true
		}
		if len(ids) > 0 {
			filled++
		}
		m.Scale = p * 7
		for j := range m.T {
			m.T[j] = origin[j] + float64(off[j])*pitch
		}
		if i == badAt {
			switch r.Intn(4) {
			case 0:
				must(os.Mkdir(name, 0755))
			case 1:
				must(os.Symlink("nowhere", name))
			case 2:
				must(os.WriteFile(name, nil, 0644))
			default:
				must(os.WriteFile(name, []byte("#binvox 1\ndim 2 2\ndata\n"), 0644))
			}
		} else {
			writeBinvox(name, m)
		}
		files = append(files, Ev{"bad": i == badAt, "ids": ids})
	}
	// Files that do not match.
	for _, n := range []string{"other-1" + ext, "x" + base + "-1" + ext, base + "-1" + strings.ToUpper(ext), base + "-1" + ext + ".tmp", base + "-1.txt", base[:len(base)-1] + "-1" + ext} {
		if r.Intn(3) == 0 && !(strings.HasPrefix(n, base) && strings.HasSuffix(n, ext)) {
			must(os.WriteFile(filepath.Join(c.Dir, sub, n), []byte("other"), 0644))
		}
	}
	if sub == "" && r.Intn(3) == 0 { // in another directory
		must(os.WriteFile(filepath.Join(c.Dir, "d", base+"-1"+ext), []byte("other"), 0644))
	}
	e["files"] = files
	e["old"] = r.Intn(2) == 0
	if many {
		e["force"] = true
	}
	if e["old"].(bool) {
		k := r.Intn(5)
		if many {
			k = 4
		}
		switch k {
		case 0:
			must(os.Symlink("target", out)) // a link to nothing yet
		case 1:
			must(os.Symlink("/dev/full", out))
			e["full"] = true
		case 2:
			must(os.Mkdir(out, 0755))
			e["full"] = true
		case 3:
			must(os.WriteFile(out, []byte("an old file that is longer than what is written now, perhaps"+strings.Repeat("x", r.Intn(3000))), 0644))
		default:
			writeSTL(out, idTris([]int{100, 101}), false)
		}
	}
	state := func() map[string]string {
		m := map[string]string{}
		must(filepath.Walk(c.Dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && p != out && !fi.IsDir() {
				m[p] = describe(p)
			}
			return nil
		}))
		delete(m, filepath.Join(filepath.Dir(out), "target"))
		return m
	}
	oldOut, before := describe(out), state()
	args := []string{"-prefix", prefix}
	if e["force"].(bool) {
		args = append(args, "-f")
	}
	if cmd == "merge-stl" && r.Intn(3) == 0 && !many {
		e["num"] = []int{-1, 0, 1, 2, 3, 50}[r.Intn(6)]
		args = append([]string{fmt.Sprintf("-num=%d", e["num"])}, args...)
	}
	if prefix == "out" && r.Intn(2) == 0 { // the default
		args = args[:len(args)-2-map[bool]int{true: 1}[e["force"].(bool)]]
		if e["force"].(bool) {
			args = append(args, "-f")
		}
	}
	e["exit"], _, _ = tool(c.Dir, nil, cmd, args...)
	after := state()
	e["changed"] = fmt.Sprint(before) != fmt.Sprint(after)
	e["same"] = describe(out) == oldOut
	e["got"] = []int{}
	if e["exit"] == 0 && !e["full"].(bool) {
		if ext == ".stl" {
			ts, err := parseSTL(out)
			if err != nil {
				e["unreadable"] = true
			}
			e["got"] = triIDs(ts)
		} else {
			_, t, scale, vox, err := readShell(out)
			n, _, _, _, _ := readShell(out)
			if err != nil {
				e["unreadable"] = true
			}
			got := [][]int{}
			for _, v := range vox {
				got = append(got, []int{v.P[0], v.P[1], v.P[2], int(v.N)})
			}
			e["got"] = got
			e["pos"] = []int{milli((t[0] - origin[0]) / pitch), milli((t[1] - origin[1]) / pitch), milli((t[2] - origin[2]) / pitch)}
			e["pitch"] = ppm(scale / float64(max(n[0], n[1], n[2], 1)) / pitch)
		}
	}
	c.Emit(e)
}
