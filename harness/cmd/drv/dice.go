package main

import (
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func init() {
	drivers["dice"] = dice
	drivers["dicecrash"] = dicecrash
	drivers["dicescript"] = dicescript
}

// writeSTL writes a mesh file.
func writeSTL(name string, tris [][3][3]float64, ascii bool) {
	if ascii {
		var b strings.Builder
		b.WriteString("solid model\n")
		for _, t := range tris {
			b.WriteString(" facet normal 0 0 0\n  outer loop\n")
			for _, p := range t {
				fmt.Fprintf(&b, "   vertex %v %v %v\n", p[0], p[1], p[2])
			}
			b.WriteString("  endloop\n endfacet\n")
		}
		b.WriteString("endsolid model\n")
		must(os.WriteFile(name, []byte(b.String()), 0644))
		return
	}
	b := make([]byte, 84, 84+50*len(tris))
	copy(b, "binary STL")
	binary.LittleEndian.PutUint32(b[80:], uint32(len(tris)))
	for _, t := range tris {
		var e [50]byte
		for j, p := range t {
			for k, f := range p {
				binary.LittleEndian.PutUint32(e[12+12*j+4*k:], math.Float32bits(float32(f)))
			}
		}
		b = append(b, e[:]...)
	}
	must(os.WriteFile(name, b, 0644))
}

// dicing is a set of meshes and a division.
type dicing struct {
	w      *world
	l      V3 // size of the bounding box, in parts of voxels
	dim    int
	div    V3
	boxes  [][][2]V3 // of each model
	args   []string
	names  []string // prefixes of the files of the models
	common string
	loose  bool // the file of the first model rounds its size
}

func randDim(r *rand.Rand, div V3) int {
	m := 1
	for _, d := range div {
		for m%d != 0 {
			m++ // small numbers
		}
	}
	return m * (1 + r.Intn(max(1, 12/m)))
}

// newDicing makes the files of a random dicing.
func newDicing(c *C, impossible, small bool, sub string) *dicing {
	r := c.R
	big := sub != "crash" && c.I%40 == 39
	if sub == "crash" {
		sub = ""
	}
	d := &dicing{w: randWorld(r, 1)}
	auto := r.Intn(3) == 0
	if small || auto { // so that float32 holds the result
		for i := range d.w.origin {
			d.w.origin[i] = math.Mod(d.w.origin[i], 50)
		}
	}
	for i := range d.div {
		d.div[i] = []int{1, 1, 2, 2, 3, 4}[r.Intn(6)]
	}
	d.dim = randDim(r, d.div)
	if big { // many regions, or a long model
		long := c.I / 40 % 3
		switch k := c.I / 120 % 4; k {
		case 0:
			d.div = V3{5, 5, 5}
			d.dim = 5 * (1 + r.Intn(2))
			long = -1
		case 1, 2:
			d.div = V3{1 + r.Intn(2), 1 + r.Intn(2), 1 + r.Intn(2)}
			d.div[long] = 101 + r.Intn(20)
			d.dim = d.div[long]
			for d.dim%2 == 1 {
				d.dim += d.div[long]
			}
		default:
			d.dim = 4 * (30 + r.Intn(300))
			d.div[0], d.div[1], d.div[2] = 1+r.Intn(2), 1+r.Intn(2), 1+r.Intn(2)
			d.div[long] = 4
		}
		impossible = false
		for i := range d.l {
			if d.l[i] = unit*(d.div[i]+r.Intn(3)) - r.Intn(unit); i == long || long < 0 {
				d.l[i] = unit * d.dim
			}
		}
	}
	for i := range d.l {
		if big {
			break
		}
		d.l[i] = 1 + r.Intn(unit*d.dim)
		if r.Intn(3) == 0 {
			d.l[i] = unit * (1 + r.Intn(d.dim))
		}
		if !impossible { // at least one voxel for each region
			d.l[i] = max(d.l[i], unit*(d.div[i]-1)+1)
		}
	}
	if !big {
		d.l[r.Intn(3)] = unit * d.dim
	}
	if impossible && r.Intn(8) == 0 {
		switch r.Intn(4) {
		case 0:
			if d.dim++; d.div == (V3{1, 1, 1}) {
				d.div[r.Intn(3)] = d.dim + 1
			}
		case 1:
			d.div[r.Intn(3)] = -1 - r.Intn(3)
		case 2:
			d.div[r.Intn(3)] = 5
		default:
			d.div[r.Intn(3)] = 0
		}
	}
	n := V3{(d.l[0] + unit - 1) / unit, (d.l[1] + unit - 1) / unit, (d.l[2] + unit - 1) / unit}
	ascii := r.Intn(4) == 0
	if auto && !(small && d.w.exact) && small {
		auto = false
	}
	num := 1 + r.Intn(3)
	base := []string{"base", "m", "part-1", "a.b", "x_y"}[r.Intn(5)]
	cut := []string{"cut", "cut", "base-2", base + "-8", "c.stl.d"}[r.Intn(5)]
	d.common = fmt.Sprintf("-%d-%d-%d-%d", d.dim, d.div[0], d.div[1], d.div[2])
	var files []string
	for m := 0; m < num; m++ {
		occ := map[V3]bool{}
		p := []float64{0.15, 0.4, 0.8}[r.Intn(3)]
		for i := 0; i < 36; i++ {
			if r.Float64() < p {
				occ[V3{i % 4, i / 4 % 3, i / 12}] = true
			}
		}
		if len(occ) == 0 {
			occ[V3{1, 1, 1}] = true
		}
		lines := [3][]int{randLines(r, 5, n[0], true, 0), randLines(r, 4, n[1], true, 0), randLines(r, 4, n[2], true, unit/2)}
		if big || r.Intn(2) == 0 { // all over the box
			for ax, l := range lines {
				for i := range l {
					l[i] = d.l[ax] * (2*i + 1) / (2 * len(l))
					if big {
						l[i] = d.l[ax] * i / (len(l) - 1)
					}
				}
				for i := range l {
					if i > 0 && l[i] <= l[i-1] {
						l[i] = l[i-1] + 1
					}
					mid := 0
					if ax == 2 {
						mid = unit / 2
					}
					if l[i]%unit == mid {
						l[i]++
					}
				}
			}
		}
		if auto && m == 0 { // exactly to the limits of the box
			for ax, l := range lines {
				for i := range l {
					l[i] = max(l[i], i)
					if i > 0 {
						l[i] = max(l[i], l[i-1]+1)
					}
				}
				l[0] = 0
				for i := len(l) - 1; i > 0; i-- {
					lim := d.l[ax] - (len(l) - 1 - i)
					l[i] = min(l[i], lim)
				}
				l[len(l)-1] = d.l[ax]
				// at least as wide as the lines
				for i := 1; i < len(l); i++ {
					if l[i] <= l[i-1] {
						auto = false
					}
					if i < len(l)-1 && (ax < 2 && l[i]%unit == 0 || ax == 2 && l[i]%unit == unit/2) {
						if l[i]+1 < l[i+1] {
							l[i]++
						} else {
							auto = false
						}
					}
				}
				if l[len(l)-1]%unit == unit/2 && ax == 2 {
					auto = false
				}
			}
			for ax := range lines { // something at each limit
				var a, b V3
				for i := range a {
					a[i], b[i] = r.Intn(len(lines[i])-1), r.Intn(len(lines[i])-1)
				}
				a[ax], b[ax] = 0, len(lines[ax])-2
				occ[a], occ[b] = true, true
			}
			if !auto { // a plain box, off the lattice
				occ = map[V3]bool{{0, 0, 0}: true}
				for ax := range lines {
					lines[ax] = []int{1, d.l[ax] + 2}
					if lines[ax][1]%unit == 0 || lines[ax][1]%unit == unit/2 {
						lines[ax][1]++
					}
				}
			}
		}
		tris, boxes := cells(r, lines, occ)
		var ts [][3][3]float64
		for _, t := range tris {
			var q [3][3]float64
			k := r.Intn(3)
			for j := range q {
				v := d.w.point(t[(j+k)%3])
				q[j] = [3]float64{v.X, v.Y, v.Z}
			}
			ts = append(ts, q)
		}
		for auto && m == 0 && len(ts) < 64 { // (fauxgl adds the origin to the bounding boxes of smaller meshes)
			t := ts[0]
			var q [3]float64
			for j := range q {
				q[j] = (t[0][j] + t[1][j] + t[2][j]) / 3
			}
			ts = append(ts[1:], [3][3]float64{t[0], t[1], q}, [3][3]float64{t[1], t[2], q}, [3][3]float64{t[2], t[0], q})
		}
		r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
		name := base
		if m == 1 {
			name = cut
		} else if m == 2 {
			name = cut + "-z"
		}
		name = sub + name
		writeSTL(c.Path(name+".stl"), ts, ascii)
		d.names = append(d.names, name)
		d.boxes = append(d.boxes, boxes)
		files = append(files, name+".stl")
	}
	flagOf := func(name string, v int) {
		if r.Intn(3) == 0 {
			d.args = append(d.args, fmt.Sprintf("-%s=%d", name, v))
		} else {
			d.args = append(d.args, "-"+name, strconv.Itoa(v))
		}
	}
	for _, i := range r.Perm(4) {
		switch {
		case i == 3:
			flagOf("dim", d.dim)
		case i == 2 && d.div[2] == 1 && r.Intn(2) == 0: // the default
		default:
			flagOf("n"+"xyz"[i:i+1], d.div[i])
		}
	}
	d.loose = auto && !ascii && !d.w.exact
	if !auto {
		lo, hi := d.w.point(V3{}), d.w.point(d.l)
		form := []string{"(%v,%v,%v)-(%v,%v,%v)", "[%v,%v,%v]-[%v,%v,%v]", " ( %v, %v ,%v ) - ( %v , %v,%v ) ", "%v,%v,%v - %v,%v,%v"}[r.Intn(4)]
		d.args = append(d.args, "-mbb", fmt.Sprintf(form, lo.X, lo.Y, lo.Z, hi.X, hi.Y, hi.Z))
	}
	if r.Intn(5) == 0 { // of no importance for the voxels
		d.args = append(d.args, "-smooth", []string{"30", "180", "5.5"}[r.Intn(3)])
	}
	d.args = append(d.args, files...)
	return d
}

// model returns the model that a file belongs to (0 = none) and the name of its region.
func (d *dicing) model(file string) (int, string) {
	best, rest := 0, ""
	for i, n := range d.names {
		p := n + d.common
		if s, ok := strings.CutPrefix(file, p); ok && strings.HasPrefix(s, "-") && strings.HasSuffix(s, ".binvox") && (best == 0 || len(n) > len(d.names[best-1])) {
			best, rest = i+1, strings.TrimSuffix(s, ".binvox")
		}
	}
	return best, rest
}

func listFiles(dir string) []string {
	var l []string
	must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			rel, _ := filepath.Rel(dir, p)
			l = append(l, rel)
		}
		return err
	}))
	sort.Strings(l)
	return l
}

func (d *dicing) event(op string) Ev {
	return Ev{"op": op, "len": d.l, "dim": d.dim, "div": d.div, "models": d.boxes, "loose": d.loose}
}

// files adds the region files to an event.
func (d *dicing) files(e Ev, dir string) {
	o := d.w.point(V3{})
	origin := [3]float64{o.X, o.Y, o.Z}
	files := []Ev{}
	for _, f := range listFiles(dir) {
		m, reg := d.model(f)
		if m == 0 {
			continue
		}
		x := Ev{"m": m, "r": reg}
		b, err := readBinvox(filepath.Join(dir, f))
		if err != nil {
			x["bad"], x["pos"], x["pitch"], x["n"], x["vox"] = err.Error(), V3{}, 0, V3{}, []V3{}
		} else {
			x["pos"] = []int{milli((b.T[0] - origin[0]) / d.w.pitch), milli((b.T[1] - origin[1]) / d.w.pitch), milli((b.T[2] - origin[2]) / d.w.pitch)}
			x["pitch"], x["n"], x["vox"] = ppm(b.pitch()/d.w.pitch), b.N, b.sorted()
		}
		files = append(files, x)
	}
	e["files"] = files
}

// script adds what the printed script does to an event.
func (d *dicing) script(e Ev, out string) {
	e["parsed"] = true
	cuts, merges := []Ev{}, []Ev{}
	type flags struct {
		val   map[string]string
		files []string
	}
	parse := func(args []string, bools string) flags {
		f := flags{val: map[string]string{}}
		for i := 0; i < len(args); i++ {
			a := args[i]
			if !strings.HasPrefix(a, "-") {
				f.files = append(f.files, a)
				continue
			}
			name, val, ok := strings.Cut(strings.TrimLeft(a, "-"), "=")
			if !ok && name != bools && i+1 < len(args) {
				i++
				val = args[i]
			}
			f.val[name] = val
		}
		return f
	}
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		w := strings.Fields(l)
		switch w[0] {
		case "voxcut":
			f := parse(w[1:], "")
			if len(f.val) != 1 || f.val["ostl"] == "" || len(f.files) == 0 {
				e["parsed"] = false
				continue
			}
			rs := make([]string, len(d.names))
			for i, n := range f.files {
				m, reg := d.model(n)
				if m == 0 || (i == 0) != (m == 1) || rs[m-1] != "" {
					rs[0] = "another file"
					break
				}
				rs[m-1] = reg
			}
			cuts = append(cuts, Ev{"r": rs[0], "rs": rs, "out": f.val["ostl"]})
		case "merge-stl":
			f := parse(w[1:], "f")
			_, force := f.val["f"]
			if f.val["prefix"] == "" || len(f.files) > 0 {
				e["parsed"] = false
			}
			merges = append(merges, Ev{"prefix": f.val["prefix"], "force": force})
		default:
			e["parsed"] = false
		}
	}
	for _, m := range merges {
		m["all"] = true
		for _, k := range cuts {
			o := k["out"].(string)
			if !strings.HasPrefix(o, m["prefix"].(string)) || !strings.HasSuffix(o, ".stl") || o == m["prefix"].(string)+".stl" {
				m["all"] = false
			}
		}
	}
	e["cuts"], e["merges"] = cuts, merges
}

// dice runs stldice.
func dice(c *C) {
	sub := ""
	if c.R.Intn(4) == 0 {
		sub = "d/"
		must(os.Mkdir(c.Path("d"), 0755))
	}
	d := newDicing(c, c.R.Intn(4) == 0, false, sub)
	e := d.event("dice")
	exit, out, _ := tool(c.Dir, nil, "stldice", d.args...)
	e["exit"] = exit
	d.files(e, c.Dir)
	d.script(e, out)
	c.Emit(e)
}

// dicescript runs stldice and the script that it prints.
func dicescript(c *C) {
	d := newDicing(c, false, true, "")
	e := d.event("dicescript")
	exit, out, _ := tool(c.Dir, nil, "stldice", d.args...)
	e["exit"], e["wrote"], e["on"], e["tris"] = exit, false, true, []Tri{}
	d.files(e, c.Dir)
	if exit == 0 {
		must(os.WriteFile(c.Path("run.sh"), []byte(out), 0755))
		if x, _, _ := tool(c.Dir, []string{"PATH=" + bin + ":" + os.Getenv("PATH")}, "/bin/bash", "run.sh"); x == 98 {
			e["exit"] = x
		}
		p := "out"
		if len(d.names) == 1 {
			p = d.names[0]
		}
		names, _ := filepath.Glob(c.Path(p + d.common + "*.stl"))
		final := c.Path(p + d.common + ".stl")
		if _, err := os.Stat(final); err != nil && len(names) == 1 && strings.Count(out, "voxcut ") == 1 { // only one region
			final = names[0]
		}
		ts, err := parseSTL(final)
		if !errors.Is(err, os.ErrNotExist) {
			e["wrote"] = true
			if err != nil {
				e["bad"] = err.Error()
			}
			o := d.w.point(V3{})
			e["tris"], e["on"] = lattice(ts, [3]float64{o.X, o.Y, o.Z}, d.w.pitch, 1, 2e-3)
		}
	}
	c.Emit(e)
}

var canTrace = sync.OnceValue(func() bool {
	exit, _, _ := toolPath("/", "strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=write", "/bin/true")
	return exit == 0
})

func toolPath(dir, name string, args ...string) (int, string, string) {
	return toolPathEnv(dir, nil, name, args...)
}

func toolPathEnv(dir string, env []string, name string, args ...string) (int, string, string) {
	p, err := exec.LookPath(name)
	if err != nil {
		return 127, "", ""
	}
	return tool(dir, env, p, args...)
}

var regionRE = regexp.MustCompile(`-\d+-\d+-\d+-\d+-\d+-\d+-\d+\.binvox$`)

// regions describes the region files of a directory.
func regions(dir string) [][2]string {
	out := [][2]string{}
	for _, f := range listFiles(dir) {
		if regionRE.MatchString(f) {
			b, err := os.ReadFile(filepath.Join(dir, f))
			must(err)
			out = append(out, [2]string{f, fmt.Sprintf("%x", sha256.Sum256(b))[:12]})
		}
	}
	return out
}

// dicecrash interrupts stldice, several times, and runs it again.
func dicecrash(c *C) {
	r := c.R
	d := newDicing(c, false, false, "crash")
	sd := filepath.Join(bin, "stldice")
	t0 := time.Now()
	exit, wantScript, _ := tool(c.Dir, nil, "stldice", d.args...)
	took := time.Since(t0)
	if exit != 0 {
		return
	}
	want := regions(c.Dir)
	biggest := 200
	clean := func() {
		for _, f := range listFiles(c.Dir) {
			if !strings.HasSuffix(f, ".stl") {
				must(os.Remove(c.Path(f)))
			}
		}
	}
	for _, f := range want {
		fi, err := os.Stat(c.Path(f[0]))
		must(err)
		biggest = max(biggest, int(fi.Size()))
	}
	clean()
	const calls = "write,pwrite64,openat,rename,renameat,renameat2,close,unlinkat,fsync,ftruncate,newfstatat"
	must(os.Setenv("GOMAXPROCS", "1"))
	for round := 0; round < 4; round++ {
		stops := []Ev{}
		for k := 1 + r.Intn(3); k > 0; k-- {
			var x int
			name := fmt.Sprint("kind ", k)
			kind := r.Intn(10)
			if !canTrace() {
				kind = 8 + r.Intn(2)
			}
			switch {
			case kind < 8:
				call := strings.Split(calls, ",")[[]int{0, 0, 0, 0, 0, 2, 2, 4, 4, 4, 6, 6, 10, r.Intn(11)}[r.Intn(14)]]
				what := "signal=SIGKILL"
				if r.Intn(2) == 0 {
					what = "error=" + []string{"ENOSPC", "EIO", "EDQUOT"}[r.Intn(3)]
					if call == "newfstatat" {
						what = "signal=SIGKILL"
					}
				}
				when := 1 + r.Intn(8+2*len(want))
				if r.Intn(2) == 0 {
					when = 1 + r.Intn(8)
				}
				only := ""
				if len(want) > 0 && r.Intn(2) == 0 { // at calls about the output only
					only = want[r.Intn(len(want))][0]
					when = 1 + r.Intn(3)
				}
				after := ""
				if strings.HasPrefix(what, "error") && r.Intn(3) == 0 {
					after = "+" // all later ones, too
				}
				a := []string{"-f", "-qq", "-o", "/dev/null", "-e", "trace=" + calls, "-e", fmt.Sprintf("inject=%s:%s:when=%d%s", call, what, when, after)}
				if only != "" {
					a = append(a, "-P", c.Path(only), "-P", c.Path(only+".tmp"), "-P", only, "-P", only+".tmp")
				}
				a = append(append(a, sd), d.args...)
				x, _, _ = toolPath(c.Dir, "strace", a...)
				name = fmt.Sprint(call, " ", what, " ", when, after, " ", only)
			case kind == 8: // after some time
				p := exec.Command(sd, d.args...)
				p.Dir = c.Dir
				must(p.Start())
				time.Sleep(time.Duration(r.Int63n(int64(took) + 1)))
				p.Process.Kill()
				x = 0
				if p.Wait() != nil {
					x = 1
				}
				name = "time"
			default: // when a file becomes too large
				lim := r.Intn(biggest + 1)
				x, _, _ = toolPath(c.Dir, "prlimit", append([]string{fmt.Sprintf("--fsize=%d", lim), sd}, d.args...)...)
				name = fmt.Sprint("size ", lim)
			}
			stops = append(stops, Ev{"how": name, "exit": x, "left": regions(c.Dir)})
		}
		exit, script, _ := tool(c.Dir, nil, "stldice", d.args...)
		c.Emit(Ev{"op": "crash", "stops": stops, "exit": exit, "got": regions(c.Dir), "want": want, "script": script, "wantScript": wantScript})
		clean()
	}
}
