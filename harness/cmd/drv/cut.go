package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

func init() {
	drivers["cut"] = cut
	drivers["voxfile"] = voxfile
	drivers["cutdice"] = cutdice
}

const crashed = 99 // exit status of a tool that panicked or was killed

// tool runs a command-line tool in dir; it returns its exit status and what it printed.
func tool(dir string, env []string, name string, args ...string) (exit int, stdout, stderr string) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	if !strings.Contains(name, "/") {
		cmd.Path, cmd.Err = filepath.Join(bin, name), nil
	}
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.WaitDelay = time.Second
	err := cmd.Run()
	var ee *exec.ExitError
	switch {
	case ctx.Err() != nil:
		exit = 98 // hangs
	case err == nil:
	case errors.As(err, &ee):
		exit = ee.ExitCode()
		if exit < 0 || strings.Contains(e.String(), "panic:") || strings.Contains(e.String(), "fatal error:") {
			exit = crashed
		}
	default:
		fail("%v: %v", name, err)
	}
	return exit, o.String(), e.String()
}

type genCut struct {
	N    V3   `json:"n"`
	Base []V3 `json:"base"`
	Cuts []struct {
		N   V3   `json:"n"`
		Off V3   `json:"off"`
		Vox []V3 `json:"vox"`
	} `json:"cuts"`
	S V3 `json:"s"`
	K V3 `json:"k"`
}

// cutFiles is a base and cutting models on a common lattice.
type cutFiles struct {
	base   *Model
	cuts   []*Model
	off    []V3
	s, k   V3
	pitch  float64
	files  []string
	nbase  string
	origin [3]float64
}

func setOf(vox []V3) map[V3]bool {
	m := map[V3]bool{}
	for _, v := range vox {
		m[v] = true
	}
	return m
}

func randVox(r *rand.Rand, n V3, d float64) map[V3]bool {
	m := map[V3]bool{}
	for p := 0; p < n[0]*n[1]*n[2]; p++ {
		if r.Float64() < d {
			m[cellAt(n, p)] = true
		}
	}
	return m
}

func randPitch(r *rand.Rand) float64 {
	pitches := []float64{1, 0.5, 0.1, 1.0 / 3, 0.0254, 7, 1e-6, 2500, 3e8}
	return pitches[r.Intn(len(pitches))]
}

// write places the models of cf in world space and writes their files.
func (cf *cutFiles) write(c *C, noisy bool) {
	r := c.R
	cf.pitch = randPitch(r)
	for i := range cf.origin {
		cf.origin[i] = float64(r.Intn(401)-200) * []float64{0, 1, 0.37}[r.Intn(3)] * cf.pitch
	}
	place := func(m *Model, off V3, noise bool) {
		m.Scale = cf.pitch * float64(max(m.N[0], m.N[1], m.N[2]))
		for i := range m.T {
			o := float64(off[i])
			if noise {
				o += []float64{-0.3, -0.1, 0, 0.1, 0.3}[r.Intn(5)]
			}
			m.T[i] = cf.origin[i] + o*cf.pitch
		}
	}
	place(cf.base, V3{}, false)
	cf.nbase = c.Path("base.binvox")
	writeBinvox(cf.nbase, cf.base)
	cf.files = nil
	for i, m := range cf.cuts {
		place(m, cf.off[i], noisy)
		f := c.Path(fmt.Sprintf("cut%d.binvox", i))
		writeBinvox(f, m)
		cf.files = append(cf.files, f)
	}
}

func (cf *cutFiles) event(op string) Ev {
	var cuts []Ev
	for i, m := range cf.cuts {
		cuts = append(cuts, Ev{"off": cf.off[i], "vox": m.sorted()})
	}
	if cuts == nil {
		cuts = []Ev{}
	}
	return Ev{"op": op, "n": cf.base.N, "base": cf.base.sorted(), "cuts": cuts, "s": cf.s, "k": cf.k}
}

func (cf *cutFiles) sectionArgs() []string {
	var a []string
	for i, n := range []string{"x", "y", "z"} {
		if cf.s[i] != 0 || cf.k[i] != 0 {
			a = append(a, "-s"+n, strconv.Itoa(cf.s[i]), "-c"+n, strconv.Itoa(cf.k[i]))
		}
	}
	return a
}

// result adds a written binvox file to the event.
func (cf *cutFiles) result(e Ev, name string) {
	o, err := readBinvox(name)
	e["wrote"] = true
	if errors.Is(err, os.ErrNotExist) {
		e["wrote"] = false
		return
	}
	if err != nil {
		e["bad"] = true
		return
	}
	e["rn"], e["rvox"] = o.N, o.sorted()
	e["pos"] = []int{milli((o.T[0] - cf.origin[0]) / cf.pitch), milli((o.T[1] - cf.origin[1]) / cf.pitch), milli((o.T[2] - cf.origin[2]) / cf.pitch)}
	e["pitch"] = 1000000
	if len(o.Vox) > 0 {
		e["pitch"] = ppm(o.pitch() / cf.pitch)
	}
}

func randCutFiles(r *rand.Rand, side int) *cutFiles {
	cf := &cutFiles{base: &Model{}}
	for i := range cf.base.N {
		cf.base.N[i] = 1 + r.Intn(side)
	}
	cf.base.Vox = randVox(r, cf.base.N, []float64{0.3, 0.8, 1}[r.Intn(3)])
	for j := r.Intn(4); j > 0; j-- {
		m := &Model{}
		var off V3
		small := r.Intn(3) == 0
		for i := range m.N {
			m.N[i] = 1 + r.Intn(side+3)
			if small {
				m.N[i] = 1 + r.Intn(max(1, cf.base.N[i]-1))
			}
			off[i] = r.Intn(cf.base.N[i]+m.N[i]+1) - m.N[i]
			switch r.Intn(6) {
			case 0:
				off[i] = 0
			case 1:
				off[i] *= 10
			}
		}
		m.Vox = randVox(r, m.N, []float64{0, 0.05, 0.2, 0.5, 1}[r.Intn(5)])
		cf.cuts, cf.off = append(cf.cuts, m), append(cf.off, off)
	}
	for i := range cf.s {
		if r.Intn(2) == 0 {
			cf.s[i] = r.Intn(cf.base.N[i])
			cf.k[i] = r.Intn(cf.base.N[i] + 2)
		}
	}
	return cf
}

func inBox(v, n V3) bool {
	for i := range v {
		if v[i] < 0 || v[i] >= n[i] {
			return false
		}
	}
	return true
}

// bigCutFiles is like randCutFiles, with a large base and cuts far from its corner.
func bigCutFiles(r *rand.Rand, k int) *cutFiles {
	cf := &cutFiles{base: &Model{N: bigGrid(r, k%7), Vox: map[V3]bool{}}}
	var some []V3
	for j := 0; j < 60; j++ {
		v := bigVoxel(r, cf.base.N)
		for i := 1 + r.Intn(8); i > 0; i-- { // some next to each other
			some = append(some, v)
			cf.base.Vox[v] = true
			ax := r.Intn(3)
			v[ax] = min(v[ax]+1, cf.base.N[ax]-1)
		}
	}
	for j := 1 + r.Intn(3); j > 0; j-- {
		m := &Model{N: bigGrid(r, r.Intn(7)), Vox: map[V3]bool{}}
		if r.Intn(2) == 0 {
			m.N = V3{1 + r.Intn(40), 1 + r.Intn(40), 1 + r.Intn(40)}
		}
		at, off := some[r.Intn(len(some))], V3{}
		for i := range at {
			off[i] = at[i] - r.Intn(m.N[i])
		}
		if r.Intn(3) == 0 { // the same grid
			m.N, off = cf.base.N, V3{r.Intn(3) - 1, r.Intn(3) - 1, r.Intn(3) - 1}
		}
		for v := range cf.base.Vox {
			w := sub(v, off)
			in := true
			for i := range w {
				in = in && 0 <= w[i] && w[i] < m.N[i]
			}
			if in && (v == at || v[0]*7%3 > 0) {
				m.Vox[w] = true
			}
		}
		for i := 0; i < 10; i++ {
			m.Vox[bigVoxel(r, m.N)] = true
		}
		for i := 0; i < 500; i++ { // cut a voxel that tables could take for another one, see aliases
			v := bigVoxel(r, cf.base.N)
			w, a := v, r.Intn(3)
			for cf.base.N[a] <= 256 {
				a = (a + 1) % 3
			}
			w[a] += (1 << (8 + r.Intn(9))) * (1 - 2*r.Intn(2))
			if r.Intn(2) == 0 {
				w[(a+1+r.Intn(2))%3] += 1 - 2*r.Intn(2)
			}
			if at := sub(w, off); inBox(w, cf.base.N) && inBox(at, m.N) {
				cf.base.Vox[v] = true
				m.Vox[at] = true
				delete(m.Vox, sub(v, off))
			}
		}
		cf.cuts, cf.off = append(cf.cuts, m), append(cf.off, off)
	}
	for i := range cf.s {
		if r.Intn(3) == 0 {
			cf.s[i] = bigIndex(r, cf.base.N[i])
			cf.k[i] = r.Intn(cf.base.N[i] + 2)
		}
	}
	return cf
}

// cut runs voxcut.
func cut(c *C) {
	r := c.R
	var cf *cutFiles
	if c.Raw != nil {
		var gc genCut
		c.Case(&gc)
		cf = &cutFiles{}
		ax := r.Intn(3) // the axis that the line of the case lies along
		turn := func(v V3) V3 { return V3{v[(3-ax)%3], v[(4-ax)%3], v[(5-ax)%3]} }
		vox := func(l []V3) map[V3]bool {
			s := map[V3]bool{}
			for _, v := range l {
				s[turn(v)] = true
			}
			return s
		}
		cf.base = &Model{N: turn(gc.N), Vox: vox(gc.Base)}
		cf.s, cf.k = turn(gc.S), turn(gc.K)
		for _, k := range gc.Cuts {
			cf.cuts = append(cf.cuts, &Model{N: turn(k.N), Vox: vox(k.Vox)})
			cf.off = append(cf.off, turn(k.Off))
		}
	} else if c.I%24 == 23 {
		cf = bigCutFiles(r, c.I/24)
	} else {
		cf = randCutFiles(r, 6)
	}
	cf.write(c, r.Intn(2) == 0)
	e := cf.event("cut")
	out := c.Path("out.binvox")
	args := append(cf.sectionArgs(), "-obinvox", out, cf.nbase)
	for _, j := range r.Perm(len(cf.files)) {
		if r.Intn(8) == 0 {
			args = append(args, c.Path("missing.binvox")) // a region in which the cutting model has no voxel
		}
		args = append(args, cf.files[j])
	}
	if r.Intn(4) == 0 {
		args = append(args, c.Path("missing.binvox"))
	}
	if r.Intn(8) == 0 { // of no importance here
		args = append([]string{"-smooth", "30", "-ostl", c.Path("also.stl")}, args...)
	}
	e["exit"], _, _ = tool(c.Dir, nil, "voxcut", args...)
	cf.result(e, out)
	c.Emit(e)
}

// voxfile runs voxcut with output in .vox format.
func voxfile(c *C) {
	r := c.R
	var cf *cutFiles
	if c.I%500 == 499 { // a number of voxels that needs more than 16 bits
		cf = &cutFiles{base: &Model{N: V3{256, 256, 2}, Vox: map[V3]bool{}}}
		if r.Intn(2) == 0 {
			cf.base.N = V3{2, 256, 256}
		}
		for p := 0; p < 65540+r.Intn(5); p++ {
			cf.base.Vox[cellAt(cf.base.N, p)] = true
		}
	} else if r.Intn(3) > 0 {
		cf = randCutFiles(r, 6)
	} else if r.Intn(4) == 0 { // around limits of one byte or two in the number of voxels or bytes
		cf = &cutFiles{base: &Model{Vox: map[V3]bool{}}}
		cf.base.N = []V3{{17, 16, 8}, {9, 20, 30}, {33, 9, 11}, {30, 24, 24}}[r.Intn(4)]
		total := cf.base.N[0] * cf.base.N[1] * cf.base.N[2]
		num := 256<<r.Intn(3) + r.Intn(3) - 1
		if total >= 16385 && r.Intn(3) == 0 {
			num = 16384 + r.Intn(3) - 1
		}
		for _, p := range r.Perm(total)[:min(num, total)] {
			cf.base.Vox[cellAt(cf.base.N, p)] = true
		}
	} else { // around the limit of the format
		cf = &cutFiles{base: &Model{Vox: map[V3]bool{}}}
		ax := r.Intn(3)
		cf.base.N = V3{1 + r.Intn(3), 1 + r.Intn(3), 1 + r.Intn(3)}
		cf.base.N[ax] = []int{255, 256, 257, 300, 520}[r.Intn(5)]
		total := cf.base.N[0] * cf.base.N[1] * cf.base.N[2]
		for j := 1 + r.Intn(20); j > 0; j-- {
			cf.base.Vox[cellAt(cf.base.N, r.Intn(total))] = true
		}
		if r.Intn(2) == 0 { // the last voxel that fits, or the first that does not
			v := V3{}
			v[ax] = min(cf.base.N[ax]-1, 254+r.Intn(3))
			cf.base.Vox[v] = true
		}
		if r.Intn(2) == 0 {
			cf.s[ax] = r.Intn(cf.base.N[ax])
			cf.k[ax] = []int{0, 255, 256, 257}[r.Intn(4)]
		}
	}
	cf.write(c, false)
	e := cf.event("vox")
	out := c.Path("out.vox")
	args := append(cf.sectionArgs(), "-ovox", out, cf.nbase)
	args = append(args, cf.files...)
	e["exit"], _, _ = tool(c.Dir, nil, "voxcut", args...)
	b, err := os.ReadFile(out)
	e["wrote"] = err == nil
	e["bytes"] = bytesToInts(b)
	c.Emit(e)
}

// parseFlags parses the arguments of a voxcut command.
func parseCutArgs(args []string) (Ev, bool) {
	e := Ev{}
	var s, k V3
	outs := []string{}
	files := []string{}
	for i := 0; i < len(args); i++ {
		a := args[i]
		if !strings.HasPrefix(a, "-") {
			files = append(files, a)
			continue
		}
		name, val, ok := strings.Cut(strings.TrimLeft(a, "-"), "=")
		if !ok {
			if i++; i >= len(args) {
				return nil, false
			}
			val = args[i]
		}
		switch name {
		case "sx", "sy", "sz", "cx", "cy", "cz":
			n, err := strconv.Atoi(val)
			if err != nil {
				return nil, false
			}
			j := strings.Index("xyz", name[1:])
			if name[0] == 's' {
				s[j] = n
			} else {
				k[j] = n
			}
		case "obinvox", "ostl", "ovox":
			outs = append(outs, name+" "+val)
		default:
			return nil, false
		}
	}
	e["s"], e["k"], e["outs"], e["files"] = s, k, outs, files
	return e, true
}

// cutdice runs voxcut-dice: dry, with a stand-in for voxcut, and for real.
func cutdice(c *C) {
	r := c.R
	cf := randCutFiles(r, 9)
	m := max(cf.base.N[0], cf.base.N[1], cf.base.N[2])
	size := 1 + r.Intn(m)
	if r.Intn(3) > 0 { // all kinds of remainders
		size = []int{2, 3, 8, 10, 16, 17, 32, 40}[r.Intn(8)]
		for {
			for i := range cf.base.N {
				cf.base.N[i] = max(1, r.Intn(4)*size+[]int{0, 0, 1, 1, 2, size / 2, size - 1}[r.Intn(7)])
			}
			if cf.base.N[0]*cf.base.N[1]*cf.base.N[2] < 60000 {
				break
			}
		}
		if r.Intn(12) == 0 { // places of five digits
			ax := r.Intn(3)
			cf.base.N = V3{1, 1, 1}
			cf.base.N[(ax+1)%3] = 1 + r.Intn(2)
			cf.base.N[ax] = []int{10001, 12000, 21000}[r.Intn(3)]
			size = 900 + r.Intn(9200)
			if r.Intn(2) == 0 {
				size = []int{1000, 2000, 2500, 5000, 10000}[r.Intn(5)]
			}
		}
		m = max(cf.base.N[0], cf.base.N[1], cf.base.N[2])
		cf.base.Vox = map[V3]bool{}
		for j := 0; j < 20; j++ {
			cf.base.Vox[cellAt(cf.base.N, r.Intn(cf.base.N[0]*cf.base.N[1]*cf.base.N[2]))] = true
		}
	}
	most := 70
	if c.I%80 == 79 {
		most, size = 300, 1
	}
	for (cf.base.N[0]/size+1)*(cf.base.N[1]/size+1)*(cf.base.N[2]/size+1) > most {
		size++
	}
	cf.write(c, false)
	kinds := []string{"obinvox", "ostl", "ovox"}
	r.Shuffle(3, func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	kinds = kinds[:1+r.Intn(3)]
	args := []string{"-size", strconv.Itoa(size)}
	want := map[string]string{}
	for _, k := range kinds {
		want[k] = "out-" + k[1:]
		args = append(args, "-"+k, want[k])
	}
	files := []string{"base.binvox"}
	for _, f := range cf.files {
		files = append(files, filepath.Base(f))
	}
	args = append(args, files...)

	e := Ev{"op": "dry", "n": cf.base.N, "size": size, "files": files, "kinds": kinds, "prefixes": want}
	exit, out, _ := tool(c.Dir, nil, "voxcut-dice", append([]string{"-n"}, args...)...)
	e["exit"], e["ok"] = exit, true
	cmds := []Ev{}
	var lines []string
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		f := strings.Fields(l)
		p, ok := parseCutArgs(f[1:])
		if f[0] != "voxcut" || !ok {
			e["ok"] = false
			break
		}
		var os []Ev
		for _, o := range p["outs"].([]string) {
			kind, name, _ := strings.Cut(o, " ")
			os = append(os, Ev{"kind": kind, "name": name, "named": strings.HasPrefix(name, want[kind]+"-")})
		}
		if os == nil {
			os = []Ev{}
		}
		p["outs"] = os
		cmds = append(cmds, p)
		lines = append(lines, strings.Join(f[1:], " "))
	}
	e["cmds"] = cmds
	c.Emit(e)

	// With a stand-in for voxcut that records its arguments and may fail.
	failAt := 0
	if r.Intn(3) == 0 {
		failAt = 1 + r.Intn(len(cmds)+1)
	}
	standin := c.Path("standin")
	must(os.Mkdir(standin, 0755))
	must(os.WriteFile(filepath.Join(standin, "voxcut"), []byte(fmt.Sprintf("#!/bin/sh\necho \"$*\" >> '%s/log'\n[ $(wc -l < '%s/log') -ne %d ]\n", standin, standin, failAt)), 0755))
	exit, _, _ = tool(c.Dir, []string{"PATH=" + standin + ":" + os.Getenv("PATH")}, "voxcut-dice", args...)
	var ran []string
	if b, err := os.ReadFile(filepath.Join(standin, "log")); err == nil {
		ran = strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	}
	if ran == nil {
		ran = []string{}
	}
	if lines == nil {
		lines = []string{}
	}
	c.Emit(Ev{"op": "run", "printed": lines, "ran": ran, "failAt": failAt, "exit": exit, "oversize": size > m})

	if size > 600 {
		return // (the box of a piece is a cube)
	}

	// For real: the pieces together are the base minus the cuts.
	cf.s, cf.k = V3{}, V3{}
	for len(cf.base.Vox) < 1000 && !dense(cf, size) { // leave something in every section
		cf.cuts, cf.off, cf.files = nil, nil, nil
		total := cf.base.N[0] * cf.base.N[1] * cf.base.N[2]
		for p := 0; p < total; p += 1 + r.Intn(2+total/1000) {
			cf.base.Vox[cellAt(cf.base.N, p)] = true
		}
		writeBinvox(cf.nbase, cf.base)
		break
	}
	e = cf.event("real")
	args = []string{"-size", strconv.Itoa(size), "-obinvox", "piece", cf.nbase}
	args = append(args, cf.files...)
	exit, _, _ = tool(c.Dir, []string{"PATH=" + bin + ":" + os.Getenv("PATH")}, "voxcut-dice", args...)
	e["exit"], e["size"] = exit, size
	names, _ := filepath.Glob(c.Path("piece*"))
	pieces := []Ev{}
	for _, n := range names {
		p := Ev{}
		cf.result(p, n)
		if _, bad := p["bad"]; bad {
			p["rvox"], p["pos"], p["pitch"] = []V3{}, V3{}, 0
		}
		pieces = append(pieces, p)
	}
	e["pieces"] = pieces
	c.Emit(e)
}

// dense tells whether every section keeps a voxel.
func dense(cf *cutFiles, size int) bool {
	full := map[V3]bool{}
	for v := range cf.base.Vox {
		keep := true
		for i, m := range cf.cuts {
			if m.Vox[V3{v[0] - cf.off[i][0], v[1] - cf.off[i][1], v[2] - cf.off[i][2]}] {
				keep = false
			}
		}
		if keep {
			full[V3{v[0] / size, v[1] / size, v[2] / size}] = true
		}
	}
	n := 1
	for i := range cf.base.N {
		n *= (cf.base.N[i] + size - 1) / size
	}
	return len(full) == n
}
