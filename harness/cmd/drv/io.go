package main

import (
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/gmlewis/stldice/v4/binvox"
	"github.com/gmlewis/stldice/v4/stl"
	"github.com/gmlewis/stldice/v4/vshell"
)

func init() { drivers["iofault"] = iofault }

// one performs a single operation of a library: drv one read|write binvox|vshell|stl FILE [FROM].
func one(args []string) {
	log.SetOutput(io.Discard)
	var err error
	switch f := args[2]; args[0] + " " + args[1] {
	case "read binvox":
		_, err = binvox.Read(f, 0, 0, 0, 0, 0, 0)
	case "read vshell":
		_, err = vshell.Read(f, 0, 0, 0, 0, 0, 0)
	case "read stl":
		_, err = stl.Load(f)
	case "write binvox":
		m, e := binvox.Read(args[3], 0, 0, 0, 0, 0, 0)
		must(e)
		err = m.Write(f, 0, 0, 0, 0, 0, 0)
	case "write vshell":
		m, e := vshell.Read(args[3], 0, 0, 0, 0, 0, 0)
		must(e)
		err = m.Write(f, 0, 0, 0, 0, 0, 0)
	case "write stl":
		m, e := stl.Load(args[3])
		must(e)
		err = stl.Save(f, m)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	os.Exit(0)
}

// Calls about a file that can be made to fail.
const ioCalls = "openat,read,pread64,readv,preadv,write,pwrite64,writev,close,fsync,fdatasync,rename,renameat,renameat2,ftruncate"

var callRE = regexp.MustCompile(`^(\d+) +(?:<\.\.\. (\w+) resumed>|(\w+)\()(.*)$`)
var resultRE = regexp.MustCompile(`\) += (-?\d+)(.*)$`)

type ioCall struct {
	call string // the system call
	kind string // what it does: "open" (for writing), "read", "write", "close", "sync", "rename"; "" is of no importance
	n    int    // its result
	inj  bool   // made to fail
}

// readTrace reads what strace has written.
func readTrace(name string) (out []ioCall) {
	b, _ := os.ReadFile(name)
	begun := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		m := callRE.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		call, rest := m[2]+m[3], m[4]
		if strings.HasSuffix(rest, "<unfinished ...>") {
			begun[m[1]] = rest
			continue
		}
		if m[2] != "" {
			rest = begun[m[1]] + rest
		}
		res := resultRE.FindStringSubmatch(rest)
		if res == nil {
			continue
		}
		k := ioCall{call: call, inj: strings.Contains(res[2], "INJECTED")}
		k.n, _ = strconv.Atoi(res[1])
		switch call {
		case "openat":
			if strings.Contains(rest, "O_WRONLY") || strings.Contains(rest, "O_RDWR") || strings.Contains(rest, "O_CREAT") {
				k.kind = "open"
			} else {
				k.kind = "look"
			}
		case "read", "pread64", "readv", "preadv":
			k.kind = "read"
		case "write", "pwrite64", "writev":
			k.kind = "write"
		case "close":
			k.kind = "close"
		case "fsync", "fdatasync", "ftruncate":
			k.kind = "sync"
		default:
			k.kind = "rename"
		}
		out = append(out, k)
	}
	return out
}

// content returns what a file holds, without regard to the order of its triangles or voxels.
func content(name string) string {
	b, err := os.ReadFile(name)
	if err != nil {
		return ""
	}
	head, size := 0, len(b)
	switch filepath.Ext(name) {
	case ".stl":
		head, size = 84, 50
	case ".vox":
		head, size = 4, 4
	}
	if len(b) < head || size == 0 {
		return string(b)
	}
	parts := []string{}
	for i := head; i < len(b); i += size {
		parts = append(parts, string(b[i:min(len(b), i+size)]))
	}
	sort.Strings(parts)
	return string(b[:head]) + strings.Join(parts, "")
}

// iofault lets system calls about one file fail.
func iofault(c *C) {
	if !canTrace() {
		c.Emit(Ev{"op": "untraced"})
		return
	}
	r := c.R
	tools := []string{"read binvox", "read vshell", "read stl", "write binvox", "write vshell", "write stl",
		"merge-stl", "merge-binvox", "voxcut", "manifold-mesh", "marching-cubes", "svx2stl", "stldice", "voxcut-dice", "script stldice", "script binvox-dice", "script voxcut-dice"}
	what := tools[c.I%len(tools)]
	big := r.Intn(3) > 0
	vox := func(name string) {
		m := &Model{N: V3{2 + r.Intn(2), 2, 2}}
		if big {
			m.N = V3{12 + r.Intn(9), 17, 16}
		}
		m.Vox = randVox(r, m.N, 0.5)
		m.Vox[V3{0, 0, 0}] = true
		m.Vox[V3{m.N[0] - 1, 1, 1}] = true
		if strings.HasPrefix(what, "ma") && big { // few triangles
			m.Vox = map[V3]bool{}
			for p := 0; p < m.N[0]*m.N[1]*m.N[2]; p++ {
				if v := cellAt(m.N, p); v[0]%6 == 0 && v[1]%2 == 0 && v[2]%2 == 0 {
					m.Vox[v] = true
				}
			}
		}
		m.Scale = float64(max(m.N[0], m.N[1], m.N[2]))
		must(os.WriteFile(c.Path(name), encodeBinvox(m, 1+r.Intn(3)), 0644))
	}
	tris := func(name string, ascii bool) {
		ids := []int{}
		n := 2 + r.Intn(5)
		if big {
			n = 200 + r.Intn(300)
		}
		for k := 1; k <= n; k++ {
			ids = append(ids, k)
		}
		writeSTL(c.Path(name), idTris(ids), ascii)
	}
	ascii := r.Intn(2) == 0
	var in, out []string // candidates
	var cmd string
	var args []string
	uncut := "" // the output without the input
	env := []string{"GODEBUG=asyncpreemptoff=1"}
	must(os.MkdirAll(c.Path("o"), 0755))
	switch what {
	case "read binvox", "read vshell", "read stl", "write binvox", "write vshell", "write stl":
		self, err := os.Executable()
		must(err)
		cmd, args = self, append([]string{"one"}, strings.Fields(what)...)
		if args[2] == "stl" {
			tris("in", ascii)
		} else {
			vox("in")
			if args[2] == "vshell" {
				b, err := binvox.Read(c.Path("in"), 0, 0, 0, 0, 0, 0)
				must(err)
				vs, err := vshell.New(b)
				must(err)
				must(vs.Write(c.Path("in"), 0, 0, 0, 0, 0, 0))
			}
		}
		if args[1] == "read" {
			in, args = []string{"in"}, append(args, c.Path("in"))
		} else {
			out, args = []string{"o/out"}, append(args, c.Path("o/out"), c.Path("in"))
		}
	case "merge-stl":
		tris("a1.stl", false)
		tris("a2.stl", ascii)
		cmd, args, in, out = what, []string{"-prefix", c.Path("a"), "-f"}, []string{"a1.stl", "a2.stl"}, []string{"a.stl"}
	case "merge-binvox":
		vox("a1.binvox")
		vox("a2.binvox")
		cmd, args, in, out = what, []string{"-prefix", c.Path("a")}, []string{"a1.binvox", "a2.binvox"}, []string{"a.vsh"}
	case "voxcut", "voxcut-dice":
		vox("base.binvox")
		vox("cut.binvox")
		cmd = what
		for _, o := range []string{"binvox", "stl", "vox"} {
			if len(out) == 0 || r.Intn(2) == 0 {
				if what == "voxcut" {
					out, args = append(out, "o/out."+o), append(args, "-o"+o, c.Path("o/out."+o))
				} else {
					out, args = append(out, "o/out-0000-0000-0000-0010-0010-0010."+o), append(args, "-o"+o, c.Path("o/out"))
				}
			}
		}
		if what == "voxcut-dice" {
			args = append(args, "-size", "10")
			env = append(env, "PATH="+bin+":"+os.Getenv("PATH"))
			if !big {
				return
			}
			out = nil // of other programs
		}
		args = append(args, c.Path("base.binvox"))
		in = []string{"base.binvox"}
		if what == "voxcut" && r.Intn(2) == 0 {
			uncut = out[0]
			if x, _, _ := tool(c.Dir, env, cmd, args...); x == 0 {
				uncut = content(c.Path(uncut))
			}
			in, args = []string{"cut.binvox"}, append(args, c.Path("cut.binvox"))
		}
	case "manifold-mesh", "marching-cubes":
		vox("a.binvox")
		cmd, args, in, out = what, []string{c.Path("a.binvox"), c.Path("o/a.stl")}, []string{"a.binvox"}, []string{"o/a.stl"}
	case "svx2stl":
		must(os.WriteFile(c.Path("a.svx"), makeArchive(r, "", -1), 0644))
		cmd, args, in, out = what, []string{c.Path("a.svx")}, []string{"a.svx"}, []string{"a.stl"}
	case "script voxcut-dice":
		vox("base.binvox")
		cmd, args = what, []string{"-n", "-obinvox", "x", "-size", strconv.Itoa(1 + r.Intn(2)), c.Path("base.binvox")}
	case "script binvox-dice":
		cmd, args = what, []string{"-factor", strconv.Itoa(1 + r.Intn(4)), "-mbb", "(0,0,0)-(8,8,8)", "a.stl", "b.stl"}
	case "stldice", "script stldice":
		var ts [][3][3]float64
		for k := 0; k < 70; k++ {
			x, y := float64(k%8), float64(k/8)
			ts = append(ts, [3][3]float64{{x, y, 0.1}, {x + 0.9, y, 5}, {x, y + 0.9, 7}})
		}
		writeSTL(c.Path("a.stl"), ts, ascii)
		cmd, args, in, out = what, []string{"-dim", "8", "-nx", "2", "-ny", "2", "-mbb", "(0,0,0)-(8,8,8)", c.Path("a.stl")}, []string{"a.stl"}, []string{"a-8-2-2-1-00-00-00.binvox", "a-8-2-2-1-01-01-00.binvox"}
	}
	if f, ok := strings.CutPrefix(what, "script "); ok { // the output of the program is the file
		cmd, args, in, out = "/bin/bash", append([]string{"-c", `exec "$0" "$@" > o/script`, filepath.Join(bin, f)}, args...), nil, []string{"o/script"}
	}
	program := cmd
	if !strings.Contains(cmd, "/") {
		program = filepath.Join(bin, cmd)
	}
	before := map[string]bool{}
	for _, f := range listFiles(c.Dir) {
		before[f] = true
	}
	reset := func() {
		for _, f := range listFiles(c.Dir) {
			if !before[f] || strings.HasPrefix(f, "o/") {
				os.Remove(c.Path(f))
			}
		}
	}
	run := func(file string, opts ...string) (int, []ioCall) {
		reset()
		tr := c.Path("trace.log")
		a := append([]string{"-f", "--seccomp-bpf", "-qq", "-s", "0", "-o", tr, "-e", "trace=" + ioCalls, "-e", "signal=none", "-P", c.Path(file), "-P", c.Path(file) + ".tmp"}, opts...)
		p, _, _ := toolPathEnv(c.Dir, env, "strace", append(append(a, program), args...)...)
		return p, readTrace(tr)
	}
	if len(in)+len(out) == 0 {
		return
	}
	type known struct {
		exit  int
		calls []ioCall
	}
	cleanRun := map[string]known{}
	for k := 0; k < 5; k++ {
		input := len(out) == 0 || len(in) > 0 && r.Intn(2) == 0
		file := ""
		if input {
			file = in[r.Intn(len(in))]
		} else {
			file = out[r.Intn(len(out))]
		}
		if _, ok := cleanRun[file]; !ok {
			exit, calls := run(file)
			cleanRun[file] = known{exit, calls}
			if what == "svx2stl" { // need not read everything (like checksums behind images)
				uncut = content(c.Path(out[0]))
			}
		}
		exit, clean := cleanRun[file].exit, cleanRun[file].calls
		e := Ev{"op": what, "file": file, "input": input, "skips": uncut != "" && input, "clean": exit}
		if exit != 0 || len(clean) == 0 {
			if exit == 0 {
				exit = 96 // the file is not used at all
			}
			e["clean"], e["exit"], e["calls"], e["total"], e["same"] = exit, exit, []Ev{}, 0, false
			c.Emit(e)
			return
		}
		total := 0
		var can []int
		for i, k := range clean {
			if k.kind == "read" {
				total += max(0, k.n)
			}
			if cmd == "/bin/bash" && k.kind != "write" {
				continue
			}
			if !input && k.kind != "look" && k.kind != "read" || input && k.kind == "read" {
				can = append(can, i)
			}
		}
		if len(can) == 0 {
			continue
		}
		at := can[r.Intn(len(can))]
		if r.Intn(3) == 0 { // the last ones
			at = can[len(can)-1-r.Intn(min(2, len(can)))]
		}
		nth := 0
		for _, k := range clean[:at+1] {
			if k.call == clean[at].call {
				nth++
			}
		}
		errs := []string{"EIO", "EIO", "ESTALE", "ENOMEM"}
		if !input {
			errs = []string{"EIO", "ENOSPC", "EDQUOT", "EFBIG"}
		}
		inject := fmt.Sprintf("inject=%s:error=%s:when=%d", clean[at].call, errs[r.Intn(4)], nth)
		if clean[at].call == "read" || clean[at].call == "write" {
			inject += "+" // it does not help to try again
		}
		exit, got := run(file, "-e", inject)
		calls := []Ev{}
		for _, k := range got {
			calls = append(calls, Ev{"c": k.kind, "ok": k.n >= 0, "n": max(0, k.n), "inj": k.inj})
		}
		if len(calls) > 60 { // only the first ones are of interest, and those that failed
			short := []Ev{}
			sum := 0
			for _, k := range calls {
				if k["ok"].(bool) && (k["c"] == "read" || k["c"] == "write") {
					sum += k["n"].(int)
					if n := len(short); n > 0 && short[n-1]["c"] == k["c"] && short[n-1]["ok"].(bool) {
						short[n-1]["n"] = short[n-1]["n"].(int) + k["n"].(int)
						continue
					}
				}
				short = append(short, k)
			}
			calls = short
		}
		e["exit"], e["how"], e["calls"], e["total"], e["same"] = exit, inject, calls, total, false
		if uncut != "" && exit == 0 {
			e["same"] = content(c.Path(out[0])) == uncut
		}
		c.Emit(e)
	}
}
