package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func init() {
	drivers["binvoxdice"] = binvoxdice
	if d := os.Getenv("BINVOXDICE_LOG"); d != "" {
		switch filepath.Base(os.Args[0]) {
		case "binvox":
			standInBinvox(d)
		case "voxcut":
			standInVoxcut(d)
		}
	}
}

// call is a command of the script as it was executed.
type call struct {
	Tool string
	Args []string
	Out  string // the file that it wrote, or was told to write
	Exit int
}

func logCall(d string, x call) {
	f, err := os.OpenFile(d, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	must(err)
	b, err := json.Marshal(x)
	must(err)
	_, err = f.Write(append(b, '\n'))
	must(err)
	must(f.Close())
}

// pieceModel is what the stand-in for binvox makes of the k-th piece of a file.
func pieceModel(name string, bb [6]float64) *Model {
	h := fnv.New64()
	fmt.Fprint(h, name, bb)
	r := rand.New(rand.NewSource(int64(h.Sum64())))
	n := 3
	m := &Model{N: V3{n, n, n}, T: [3]float64{bb[0], bb[1], bb[2]}, Scale: max(bb[3]-bb[0], bb[4]-bb[1], bb[5]-bb[2])}
	m.Vox = randVox(r, m.N, []float64{0.2, 0.5, 0.8}[r.Intn(3)])
	return m
}

// standInBinvox stands in for the program binvox, which is not part of the
// repository: it writes a file of the name that binvox gives to its output
// (the name of the model, followed by _1, _2 and so on when the file exists).
func standInBinvox(d string) {
	x := call{Tool: "binvox"}
	var bb [6]float64
	var file string
	for a := os.Args[1:]; len(a) > 0; a = a[1:] {
		switch {
		case a[0] == "-bb" && len(a) > 6:
			for i := range bb {
				v, err := strconv.ParseFloat(a[1+i], 64)
				if err != nil {
					v = math.NaN()
				}
				bb[i] = v
			}
			x.Args = append(x.Args, a[1:7]...)
			a = a[6:]
		case strings.HasPrefix(a[0], "-"):
			if a[0] == "-d" && len(a) > 1 {
				x.Out += a[0] + " " + a[1] + " "
				a = a[1:]
			} else {
				x.Out += a[0] + " "
			}
		default:
			file = a[0]
		}
	}
	opts := x.Out
	base := strings.TrimSuffix(file, filepath.Ext(file))
	x.Out = base + ".binvox"
	for k := 1; ; k++ {
		if _, err := os.Stat(x.Out); err != nil {
			break
		}
		x.Out = fmt.Sprintf("%s_%d.binvox", base, k)
	}
	x.Args = append(x.Args, file, opts)
	if math.IsNaN(bb[0] + bb[1] + bb[2] + bb[3] + bb[4] + bb[5]) {
		x.Exit = 1
	} else {
		writeBinvox(x.Out, pieceModel(file, bb))
	}
	logCall(d, x)
	os.Exit(x.Exit)
}

// standInVoxcut runs the real voxcut and logs its arguments.
func standInVoxcut(d string) {
	x := call{Tool: "voxcut"}
	for a := os.Args[1:]; len(a) > 0; a = a[1:] {
		if a[0] == "-ostl" && len(a) > 1 {
			x.Out = a[1]
			a = a[1:]
			continue
		}
		x.Args = append(x.Args, a[0])
	}
	cmd := exec.Command(filepath.Join(os.Getenv("BINVOXDICE_BIN"), "voxcut"), os.Args[1:]...)
	out, err := cmd.CombinedOutput()
	var ee *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee):
		x.Exit = ee.ExitCode()
		if x.Exit < 0 || strings.Contains(string(out), "panic:") {
			x.Exit = crashed
		}
	default:
		fail("voxcut: %v", err)
	}
	logCall(d, x)
	os.Exit(x.Exit)
}

// manyTools are stand-ins for scripts with very many commands: they only log what they are told to do, and which
// name binvox gives to its output.
const manyTools = `
declare -A made
binvox() {
  local args= opts= file=
  while [ $# -gt 0 ]; do
    case "$1" in
      -bb) args="\"$2\",\"$3\",\"$4\",\"$5\",\"$6\",\"$7\","; shift 6;;
      -d) opts+="$1 $2 "; shift;;
      -*) opts+="$1 ";;
      *) file=$1;;
    esac
    shift
  done
  local out=${file%.*} k=${made[$file]:-0}
  [ $k -gt 0 ] && out+=_$k
  made[$file]=$((k + 1))
  echo "{\"Tool\":\"binvox\",\"Args\":[$args\"$file\",\"$opts\"],\"Out\":\"$out.binvox\"}" >> "$BINVOXDICE_LOG"
}
voxcut() {
  local args= out=
  while [ $# -gt 0 ]; do
    if [ "$1" = -ostl ]; then out=$2; shift; else args+=",\"$1\""; fi
    shift
  done
  echo "{\"Tool\":\"voxcut\",\"Args\":[${args#,}],\"Out\":\"$out\"}" >> "$BINVOXDICE_LOG"
}
`

func binvoxdice(c *C) {
	r := c.R
	// The models.
	names := []string{}
	taken := map[string]bool{"out": true}
	for k := 1 + []int{0, 0, 1, 1, 2, 3}[r.Intn(6)]; len(names) < k; {
		n := []string{"base", "cut", "m", "part.v2", "a-b", "100%", "x%d", "%[1]v", "%", "n_1x", "UP", "sub/base", "sub/q", "stl", "a.stl"}[r.Intn(15)]
		if !taken[n] {
			taken[n] = true
			names = append(names, n)
		}
	}
	must(os.MkdirAll(c.Path("sub"), 0755))
	must(os.MkdirAll(c.Path("bin"), 0755))
	// The box and its division.
	var lo, hi [3]float64
	far := r.Intn(4) == 0
	for i := range lo {
		lo[i] = float64(r.Intn(4001)-2000) / []float64{1, 10, 100, 7}[r.Intn(4)]
		if far {
			lo[i] += 100000 * float64(r.Intn(21)-10)
		}
		hi[i] = lo[i] + float64(1+r.Intn(2000))/[]float64{1, 10, 100, 3, 10000}[r.Intn(5)]
	}
	factor := 1 + r.Intn(5)
	if r.Intn(8) == 0 {
		factor = 8
	}
	sub := [3]bool{true, true, false}
	args := []string{}
	for i, n := range []string{"subx", "suby", "subz"} {
		switch r.Intn(4) {
		case 0:
			sub[i] = true
			args = append(args, []string{"-" + n, "-" + n + "=true"}[r.Intn(2)])
		case 1:
			sub[i] = false
			args = append(args, "-"+n+"=false")
		}
	}
	fs := [3]int{1, 1, 1}
	for i := range fs {
		if sub[i] {
			fs[i] = factor
		}
	}
	// A few cases have more than a thousand pieces; bash functions stand in for the tools then.
	const unsound, factors = 6 * 9, 3 * 7
	many := c.I == unsound+factors || c.I%1000 == 999
	if many {
		names = []string{[]string{"base", "part.v2", "100%"}[r.Intn(3)]}
		args = [][]string{{"-subx=false", "-suby=false", "-subz"}, {"-suby=false"}, {}, {"-subx=false", "-subz"}}[r.Intn(4)]
		sub = [3]bool{!strings.Contains(fmt.Sprint(args), "subx"), !strings.Contains(fmt.Sprint(args), "suby"), strings.Contains(fmt.Sprint(args), "subz")}
		k := 0
		for _, s := range sub {
			if s {
				k++
			}
		}
		factor = []int{0, 1001 + r.Intn(30), 32 + r.Intn(2)}[k]
		for i := range fs {
			fs[i] = 1
			if sub[i] {
				fs[i] = factor
			}
		}
	}
	for !many && fs[0]*fs[1]*fs[2]*(len(names)+1) > 160 {
		if len(names) > 1 {
			names = names[:len(names)-1]
			continue
		}
		factor--
		for i := range fs {
			if sub[i] {
				fs[i] = factor
			}
		}
	}
	// The first cases have each kind of an unsound coordinate in each place.
	infs, words := []string{"inf", "-Inf", "1e999"}, []string{"x", "1.2.3", "--1", "1e"}
	bad, k, kind := "", r.Intn(6), r.Intn(12)
	if j := c.I; many {
	} else if j < unsound {
		k = j % 6
		switch kind = j / 6; {
		case kind == 0:
			bad = "swapped"
		case kind == 1:
			bad = "nan"
		case kind < 5:
			bad, kind = "inf", kind-2
		default:
			bad, kind = "word", kind-5
		}
	} else if j < unsound+factors { // each factor below one for each choice of axes
		bad = "factor"
		args = nil
		for i, n := range []string{"subx", "suby", "subz"} {
			sub[i] = ((j-unsound)/3+1)>>i&1 != 0
			args = append(args, fmt.Sprintf("-%s=%v", n, sub[i]))
		}
	} else if r.Intn(8) == 0 {
		bad = []string{"factor", "factor", "swapped", "nan", "inf", "few", "many", "word", "none", "nofile"}[r.Intn(10)]
	}
	if bad == "factor" {
		factor = -(c.I % 3)
		for i := range fs {
			fs[i] = 1
			if sub[i] {
				fs[i] = factor
			}
		}
	}
	num := func(f float64) string {
		return strconv.FormatFloat(f, []byte("gfe")[r.Intn(3)], -1, 64)
	}
	v := [6]string{num(lo[0]), num(lo[1]), num(lo[2]), num(hi[0]), num(hi[1]), num(hi[2])}
	switch bad {
	case "swapped":
		k %= 3
		v[k], v[k+3] = v[k+3], v[k]
	case "nan":
		v[k] = "nan"
	case "inf":
		v[k] = infs[kind%len(infs)]
	case "word":
		v[k] = words[kind%len(words)]
	}
	form := [][5]string{{"(", ",", ")-(", ",", ")"}, {"[", ",", "]-[", ",", "]"}, {"(", ", ", ") - (", ", ", ")"}, {" ( ", " , ", " )-( ", " , ", " ) "}}[r.Intn(4)]
	mbb := form[0] + v[0] + form[1] + v[1] + form[1] + v[2] + form[2] + v[3] + form[3] + v[4] + form[3] + v[5] + form[4]
	switch bad {
	case "few":
		mbb = form[0] + v[0] + form[1] + v[1] + form[2] + v[3] + form[3] + v[4] + form[4]
	case "many":
		mbb += "-(1,2,3)"
	case "none":
		mbb = ""
	}
	if factor != 8 || r.Intn(2) == 0 {
		args = append(args, "-factor", strconv.Itoa(factor))
	}
	if mbb != "" {
		args = append(args, "-mbb", mbb)
	}
	if bad != "nofile" {
		for _, n := range names {
			args = append(args, n+".stl")
		}
	}
	exit, out, _ := tool(c.Dir, nil, "binvox-dice", args...)
	e := Ev{"op": "binvoxdice", "exit": exit, "bad": bad != "" && !(bad == "factor" && fs == [3]int{1, 1, 1}), "free": bad == "factor", "why": bad, "f": fs, "m": len(names), "calls": []Ev{}, "args": args}
	pieces := []Ev{}
	if exit == 0 && !strings.Contains(out, "panic:") {
		must(os.WriteFile(c.Path("run.sh"), []byte(out), 0755))
		self, err := os.Executable()
		must(err)
		must(os.Symlink(self, c.Path("bin/binvox")))
		must(os.Symlink(self, c.Path("bin/voxcut")))
		env := []string{"BINVOXDICE_LOG=" + c.Path("log"), "BINVOXDICE_BIN=" + bin, "TMPDIR=" + c.Dir}
		if many {
			must(os.WriteFile(c.Path("tools.sh"), []byte(manyTools), 0644))
			env = append(env, "BASH_ENV="+c.Path("tools.sh"))
		}
		tool(c.Dir, append(env, "PATH="+c.Path("bin")+":"+os.Getenv("PATH")), "/bin/bash", "run.sh")
		e["calls"], pieces = calls(c, names, lo, hi, many)
	}
	c.Emit(e)
	for _, p := range pieces {
		if e["bad"].(bool) {
			break
		}
		c.Emit(p)
	}
}

// calls describes the commands of a script that was run.
func calls(c *C, names []string, lo, hi [3]float64, many bool) ([]Ev, []Ev) {
	b, err := os.ReadFile(c.Path("log"))
	if err != nil && !errors.Is(err, os.ErrNotExist) {
		fail("%v", err)
	}
	var cs []call
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		if l != "" {
			var x call
			must(json.Unmarshal([]byte(l), &x))
			cs = append(cs, x)
		}
	}
	// The planes of the boxes along each axis, in ascending order.
	at := func(x call, i int) float64 {
		if len(x.Args) < 8 {
			return math.NaN()
		}
		f, err := strconv.ParseFloat(x.Args[i], 64)
		if err != nil {
			return math.NaN()
		}
		return f
	}
	var planes [3][]float64
	for a := 0; a < 3; a++ {
		seen := map[float64]bool{}
		for _, x := range cs {
			for _, i := range []int{a, a + 3} {
				if f := at(x, i); x.Tool == "binvox" && !math.IsNaN(f) && !seen[f] {
					seen[f] = true
					planes[a] = append(planes[a], f)
				}
			}
		}
		sort.Float64s(planes[a])
	}
	evs, pieces := []Ev{}, []Ev{}
	made := map[string]call{}
	number := map[string]int{}
	for i, n := range names {
		number[n+".stl"] = i + 1
	}
	for _, x := range cs {
		if x.Tool == "binvox" {
			box := [][2]int{}
			for a := 0; a < 3; a++ {
				box = append(box, [2]int{sort.SearchFloat64s(planes[a], at(x, a)), sort.SearchFloat64s(planes[a], at(x, a+3))})
			}
			m, opts := 0, ""
			if k := len(x.Args); k >= 2 {
				m, opts = number[x.Args[k-2]], x.Args[k-1]
			}
			if len(x.Args) != 8 {
				m = 0
			}
			made[x.Out] = x
			evs = append(evs, Ev{"tool": "binvox", "m": m, "box": box, "opts": opts, "out": x.Out, "in": []string{}})
			continue
		}
		ins := x.Args
		if ins == nil {
			ins = []string{}
		}
		evs = append(evs, Ev{"tool": "voxcut", "m": 0, "box": [][2]int{}, "opts": "", "out": x.Out, "in": ins})
		// What became of the piece.
		base, ok := made[first(ins)]
		if many || !ok || len(pieces) >= 12 {
			continue
		}
		model := func(y call) *Model {
			var bb [6]float64
			for i := range bb {
				bb[i] = at(y, i)
			}
			return pieceModel(y.Args[len(y.Args)-2], bb)
		}
		bm := model(base)
		pitch := bm.Scale / 3
		if max(math.Abs(lo[0]), math.Abs(lo[1]), math.Abs(lo[2]), math.Abs(hi[0]), math.Abs(hi[1]), math.Abs(hi[2]))/pitch > 5000 {
			continue // too coarse in an STL file
		}
		cuts := []Ev{}
		for _, in := range ins[1:] {
			if y, ok := made[in]; ok {
				cuts = append(cuts, Ev{"off": V3{}, "vox": model(y).sorted()})
			}
		}
		p := Ev{"op": "piece", "n": bm.N, "base": bm.sorted(), "cuts": cuts, "s": V3{}, "k": V3{}, "exit": x.Exit, "wrote": false, "on": true, "tris": []Tri{}}
		ts, err := parseSTL(c.Path(x.Out))
		if !errors.Is(err, os.ErrNotExist) {
			p["wrote"] = true
			if err != nil {
				p["bad"] = err.Error()
			}
			p["tris"], p["on"] = lattice(ts, bm.T, pitch, 1, 2e-3)
		}
		pieces = append(pieces, p)
	}
	ps := [][]int{}
	for a := 0; a < 3; a++ {
		q := []int{}
		for _, f := range planes[a] {
			q = append(q, int(math.Round(math.Max(-2e9, math.Min(2e9, (f-lo[a])/(hi[a]-lo[a])*1e6)))))
		}
		ps = append(ps, q)
	}
	return append(evs, Ev{"tool": "end", "m": 0, "box": ps, "opts": "", "out": "", "in": []string{}}), pieces
}

func first(s []string) string {
	if len(s) == 0 {
		return ""
	}
	return s[0]
}
