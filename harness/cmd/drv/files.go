package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/signal"
	"slices"
	"strconv"
	"strings"
	"syscall"

	"github.com/gmlewis/stldice/v4/binvox"
	"github.com/gmlewis/stldice/v4/vshell"
)

func init() {
	drivers["roundtrip"] = roundtrip
	drivers["subbox"] = subbox
	drivers["decode"] = decode
	drivers["fault"] = fault
	drivers["shellfile"] = shellfile
}

// randFloat returns all kinds of coordinates.
func randFloat(r *rand.Rand) float64 {
	switch r.Intn(7) {
	case 0:
		return 0
	case 1:
		return float64(r.Intn(2001) - 1000)
	case 2:
		return float64(r.Intn(2001)-1000) / 8
	case 3:
		return float64(r.Intn(200001)-100000) / 3000
	case 4:
		return r.NormFloat64() * math.Pow(10, float64(r.Intn(13)-6))
	case 5:
		return float64(r.Intn(2000001)-1000000) / 1000
	default:
		return math.Nextafter(float64(r.Intn(201)-100)/10, math.Inf(1))
	}
}

func randScale(r *rand.Rand) float64 {
	for {
		if s := math.Abs(randFloat(r)); s > 1e-9 {
			return s
		}
	}
}

// randModel returns a model with an interesting run structure.
func randModel(r *rand.Rand) *Model {
	m := &Model{Vox: map[V3]bool{}, T: [3]float64{randFloat(r), randFloat(r), randFloat(r)}, Scale: randScale(r)}
	limits := []int{1, 2, 3, 4, 5, 7, 12}
	special := []int{84, 85, 127, 128, 250, 254, 255, 256, 257, 300, 509, 510, 511, 765}
	for i := range m.N {
		m.N[i] = limits[r.Intn(len(limits))]
	}
	kind := r.Intn(6)
	if kind == 0 { // one long axis
		m.N = V3{1 + r.Intn(2), 1 + r.Intn(2), 1 + r.Intn(2)}
		m.N[r.Intn(3)] = special[r.Intn(len(special))]
	}
	if kind == 1 { // long runs over many columns
		m.N = V3{10 + r.Intn(40), 10 + r.Intn(40), 10 + r.Intn(40)}
	}
	total := m.N[0] * m.N[1] * m.N[2]
	switch r.Intn(5) {
	case 0: // alternating runs of random lengths
		v := r.Intn(2) == 0
		for p, cnt := 0, 0; p < total && cnt < 1500; {
			l := 1 + r.Intn(6)
			switch r.Intn(4) {
			case 0:
				l = special[r.Intn(len(special))]
			case 1:
				l = total
			}
			for j := 0; j < l && p < total && cnt < 1500; j++ {
				if v {
					m.Vox[cellAt(m.N, p)] = true
					cnt++
				}
				p++
			}
			v = !v
		}
	case 1: // full, as far as that is practical
		for p := 0; p < total && p < 1500; p++ {
			m.Vox[cellAt(m.N, p)] = true
		}
	case 2: // a few
		for j := 0; j < 1+r.Intn(5); j++ {
			m.Vox[cellAt(m.N, r.Intn(total))] = true
		}
	case 3: // first and last
		if r.Intn(2) == 0 {
			m.Vox[cellAt(m.N, 0)] = true
		}
		m.Vox[cellAt(m.N, total-1)] = true
	default:
		d := r.Float64()
		for p := 0; p < total && len(m.Vox) < 1000; p++ {
			if r.Float64() < d {
				m.Vox[cellAt(m.N, p)] = true
			}
		}
	}
	return m
}

func toBinvox(m *Model) *binvox.BinVOX {
	b := binvox.New(m.N[0], m.N[1], m.N[2], m.T[0], m.T[1], m.T[2], m.Scale, false)
	for v := range m.Vox {
		b.Add(v[0], v[1], v[2])
	}
	return b
}

func voxOf(b *binvox.BinVOX) []V3 {
	s := map[V3]bool{}
	for k := range b.WhiteVoxels {
		s[V3{k.X, k.Y, k.Z}] = true
	}
	return sortedVox(s)
}

func t3(a, b, c float64) []string { return []string{hexf(a), hexf(b), hexf(c)} }

type genModel struct {
	N   V3   `json:"n"`
	Vox []V3 `json:"vox"`
}

// roundtrip writes and reads back a model.
func roundtrip(c *C) {
	var m *Model
	if c.Raw != nil {
		var gm genModel
		c.Case(&gm)
		m = &Model{N: gm.N, Vox: map[V3]bool{}, T: [3]float64{randFloat(c.R), randFloat(c.R), randFloat(c.R)}, Scale: randScale(c.R)}
		for _, v := range gm.Vox {
			m.Vox[v] = true
		}
	} else {
		m = randModel(c.R)
		if c.R.Intn(20) == 0 {
			m.Vox = map[V3]bool{}
		}
		if c.I%40 == 39 {
			m = bigModel(c.R, c.I/40)
		}
	}
	b := toBinvox(m)
	p := c.Path("m.binvox")
	e := Ev{"n": m.N, "vox": m.sorted(), "t": t3(m.T[0], m.T[1], m.T[2]), "s": hexf(m.Scale), "err": ""}
	if err := b.Write(p, 0, 0, 0, 0, 0, 0); err != nil {
		e["err"] = "write: " + err.Error()
		c.Emit(e)
		return
	}
	buf, err := os.ReadFile(p)
	must(err)
	p2 := c.Path("m2.binvox")
	if err := toBinvox(m).Write(p2, 0, 0, 0, 0, 0, 0); err != nil {
		e["err"] = "write: " + err.Error()
		c.Emit(e)
		return
	}
	buf2, err := os.ReadFile(p2)
	must(err)
	e["same"] = bytes.Equal(buf, buf2)
	e["unchanged"] = fmt.Sprint(voxOf(b)) == fmt.Sprint(m.sorted()) && b.NX == m.N[0] && b.NY == m.N[1] && b.NZ == m.N[2] && b.TX == m.T[0] && b.TY == m.T[1] && b.TZ == m.T[2] && b.Scale == m.Scale
	e["payload"] = []int{}
	e["raw"] = false
	if i := bytes.Index(buf, []byte("data\n")); i >= 0 && len(buf) < 4000 && len(m.Vox) < 5000 {
		e["payload"], e["raw"] = bytesToInts(buf[i+5:]), true
	}
	r, err := binvox.Read(p, 0, 0, 0, 0, 0, 0)
	if err != nil {
		e["err"] = "read: " + err.Error()
		c.Emit(e)
		return
	}
	e["rn"], e["rvox"], e["rt"], e["rs"] = V3{r.NX, r.NY, r.NZ}, voxOf(r), t3(r.TX, r.TY, r.TZ), hexf(r.Scale)
	c.Emit(e)
}

// subbox reads and writes sub-boxes of both formats.
func subbox(c *C) {
	r := c.R
	m := &Model{Vox: map[V3]bool{}, T: [3]float64{randFloat(r), randFloat(r), randFloat(r)}}
	for i := range m.N {
		m.N[i] = 1 + r.Intn(7)
	}
	big := c.I%120 == 119
	if big {
		m.N = bigGrid(r, c.I/120)
	}
	pitches := []float64{1, 0.5, 0.25, 0.1, 1.0 / 3, 2.0 / 7, 3, 0.0254, 1e-6, 2500, 3e8}
	pitch := pitches[r.Intn(len(pitches))]
	m.Scale = pitch * float64(max(m.N[0], m.N[1], m.N[2]))
	for i := range m.T { // keep positions and pitches within a range where floating point resolves both
		m.T[i] = math.Max(-1e5, math.Min(1e5, m.T[i]))
	}
	total := m.N[0] * m.N[1] * m.N[2]
	d := 0.2 + 0.8*r.Float64()
	if r.Intn(6) == 0 {
		d = 0.02 // so that many boxes have no voxel
	}
	if big && c.I/120%9 == 8 {
		for p := 0; p < total; p++ { // many runs
			if p%2 == 0 || r.Intn(50) == 0 {
				m.Vox[cellAt(m.N, p)] = true
			}
		}
	} else if big {
		for j := 0; j < 200; j++ {
			m.Vox[bigVoxel(r, m.N)] = true
		}
	} else {
		for p := 0; p < total; p++ {
			if r.Float64() < d {
				m.Vox[cellAt(m.N, p)] = true
			}
		}
	}
	if len(m.Vox) == 0 {
		m.Vox[cellAt(m.N, r.Intn(total))] = true
	}
	var s, k V3
	for i := range s {
		s[i] = r.Intn(m.N[i])
		if big {
			s[i] = bigIndex(r, (m.N[i]+1)/2)
		}
		switch r.Intn(4) {
		case 0:
			k[i] = 0
		case 1:
			k[i] = m.N[i] - s[i]
		case 2:
			k[i] = 1 + r.Intn(m.N[i]+2)
		default:
			k[i] = 1 + r.Intn(m.N[i]-s[i])
		}
		if r.Intn(4) == 0 {
			s[i] = 0
		}
		if big && c.I/120%9 == 8 { // nearly all of it
			s[i], k[i] = r.Intn(2), 0
		}
	}
	sh := map[V3]uint32{}
	var shv []ShVox
	var shTrace [][]int
	for _, v := range m.sorted() {
		n := uint32(r.Intn(1<<27)) &^ (1 << 13)
		if r.Intn(10) == 0 {
			n = 0
		}
		sh[v] = n
		shv = append(shv, ShVox{v, n})
		shTrace = append(shTrace, []int{v[0], v[1], v[2], int(n)})
	}
	base := func(op string) Ev {
		return Ev{"op": op, "n": m.N, "vox": m.sorted(), "s": s, "k": k, "err": "", "t": t3(m.T[0], m.T[1], m.T[2]), "sc": hexf(m.Scale)}
	}
	place := func(e Ev, n V3, t [3]float64, scale float64) {
		e["rn"] = n
		e["pos"] = []int{milli((t[0] - m.T[0]) / pitch), milli((t[1] - m.T[1]) / pitch), milli((t[2] - m.T[2]) / pitch)}
		e["pitch"] = ppm(scale / float64(max(n[0], n[1], n[2])) / pitch)
	}

	// binvox
	writeBinvox(c.Path("m0.binvox"), m)
	must(os.WriteFile(c.Path("m0.vsh"), encodeShell(m.N, m.T, m.Scale, shv, 65535, 255), 0644))
	p := c.Path("m.binvox")
	writeBinvox(p, m)
	e := base("read")
	if b, err := binvox.Read(p, s[0], s[1], s[2], k[0], k[1], k[2]); err != nil {
		e["err"] = err.Error()
	} else {
		e["rn"], e["rvox"], e["rt"], e["rs"] = V3{b.NX, b.NY, b.NZ}, voxOf(b), t3(b.TX, b.TY, b.TZ), hexf(b.Scale)
	}
	c.Emit(e)
	e = base("write")
	if err := toBinvox(m).Write(p, s[0], s[1], s[2], k[0], k[1], k[2]); err != nil {
		e["err"] = err.Error()
	} else if o, err := readBinvox(p); err != nil {
		e["err"] = "unreadable: " + err.Error()
	} else {
		e["rvox"] = o.sorted()
		place(e, o.N, o.T, o.Scale)
	}
	c.Emit(e)

	// Boxes that begin outside of the grid, or have no size: may be refused.
	odd := func(e Ev) (V3, V3) {
		s, k := s, k
		for n := 1 + r.Intn(2); n > 0; n-- {
			i := r.Intn(3)
			switch r.Intn(4) {
			case 0:
				s[i] = m.N[i] + r.Intn(3)
			case 1:
				s[i] = -1 - r.Intn(2)
			case 2:
				k[i] = -1 - r.Intn(2)
			case 3: // a large one is none of these
				k[i] = []int{1000, 1 << 20, math.MaxInt32}[r.Intn(3)]
			}
		}
		e["s"], e["k"] = s, [3]int{min(k[0], 1<<20), min(k[1], 1<<20), min(k[2], 1<<20)}
		return s, k
	}
	e = base("read")
	bs, bk := odd(e)
	if b, err := binvox.Read(c.Path("m0.binvox"), bs[0], bs[1], bs[2], bk[0], bk[1], bk[2]); err != nil {
		e["err"] = err.Error()
	} else {
		e["rn"], e["rvox"], e["rt"], e["rs"] = V3{b.NX, b.NY, b.NZ}, voxOf(b), t3(b.TX, b.TY, b.TZ), hexf(b.Scale)
	}
	c.Emit(e)
	e = base("vread")
	e["vox"] = shTrace
	bs, bk = odd(e)
	if b, err := vshell.Read(c.Path("m0.vsh"), bs[0], bs[1], bs[2], bk[0], bk[1], bk[2]); err != nil {
		e["err"] = err.Error()
	} else {
		e["rn"], e["rvox"], e["rt"], e["rs"] = V3{b.NX, b.NY, b.NZ}, shellVox(b), t3(b.TX, b.TY, b.TZ), hexf(b.Scale)
	}
	c.Emit(e)

	// vshell
	p = c.Path("m.vsh")
	must(os.WriteFile(p, encodeShell(m.N, m.T, m.Scale, shv, 65535, 255), 0644))
	e = base("read")
	e["op"], e["vox"] = "vread", shTrace
	if b, err := vshell.Read(p, s[0], s[1], s[2], k[0], k[1], k[2]); err != nil {
		e["err"] = err.Error()
	} else {
		e["rn"], e["rvox"], e["rt"], e["rs"] = V3{b.NX, b.NY, b.NZ}, shellVox(b), t3(b.TX, b.TY, b.TZ), hexf(b.Scale)
	}
	c.Emit(e)
	e = base("vwrite")
	e["vox"] = shTrace
	vs := &vshell.VShell{NX: m.N[0], NY: m.N[1], NZ: m.N[2], TX: m.T[0], TY: m.T[1], TZ: m.T[2], Scale: m.Scale}
	for _, j := range r.Perm(len(shv)) {
		v := shv[j]
		vs.Voxels = append(vs.Voxels, vshell.VShVoxel{X: v.P[0], Y: v.P[1], Z: v.P[2], N: vshell.NeighborBitMap(v.N)})
	}
	if err := vs.Write(p, s[0], s[1], s[2], k[0], k[1], k[2]); err != nil {
		e["err"] = err.Error()
	} else if n, t, scale, vox, err := readShell(p); err != nil {
		e["err"] = "unreadable: " + err.Error()
	} else {
		var l [][]int
		for _, v := range vox {
			l = append(l, []int{v.P[0], v.P[1], v.P[2], int(v.N)})
		}
		if l == nil {
			l = [][]int{}
		}
		e["rvox"] = l
		place(e, n, t, scale)
	}
	c.Emit(e)
}

func shellVox(v *vshell.VShell) [][]int {
	out := [][]int{}
	for _, x := range v.Voxels {
		out = append(out, []int{x.X, x.Y, x.Z, int(x.N)})
	}
	slices.SortFunc(out, slices.Compare)
	return out
}

// decodeCase is a file to decode: a header of the given class and a payload.
type decodeCase struct {
	Fmt     string `json:"fmt"` // binvox or vshell
	N       V3     `json:"n"`
	Hdr     string `json:"hdr"` // "good" or the defect
	Payload []int  `json:"payload"`
}

var headerDefects = []string{"empty", "magic", "version", "swapped", "nodim", "dimword", "dim2", "dimneg", "dimfloat", "dimhuge", "notranslate",
	"translate2", "translateword", "noscale", "scaleword", "scale2", "nodata", "dataword", "cut"}

func defectHeader(dc *decodeCase, t [3]float64, scale float64, r *rand.Rand) []byte {
	l := strings.Split(strings.TrimSuffix(string(header(dc.Fmt, dc.N, t, scale)), "\n"), "\n")
	switch dc.Hdr {
	case "good":
	case "empty":
		return nil
	case "magic":
		l[0] = []string{"#binvoxx 1", "#vshel 1", "binvox 1", "", "#BINVOX 1", "P6"}[r.Intn(6)]
	case "version":
		l[0] = strings.Replace(l[0], " 1", " 2", 1)
	case "swapped": // the other format
		if dc.Fmt == "binvox" {
			l[0] = "#vshell 1"
		} else {
			l[0] = "#binvox 1"
		}
	case "nodim":
		l = append(l[:1], l[2:]...)
	case "dimword":
		l[1] = "dim a b c"
	case "dim2":
		l[1] = "dim 1 2"
	case "dimneg":
		l[1] = "dim 2 -2 2"
	case "dimfloat":
		l[1] = "dim 2 2 2.5"
	case "dimhuge":
		l[1] = "dim 2 99999999999999999999999 2"
	case "notranslate":
		l = append(l[:2], l[3:]...)
	case "translate2":
		l[2] = "translate 1 2"
	case "translateword":
		l[2] = []string{"translate x 0 0", "translate 0 y 0", "translate 0 0 1z"}[r.Intn(3)]
	case "noscale":
		l = append(l[:3], l[4:]...)
	case "scaleword":
		l[3] = "scale big"
	case "scale2":
		l[3] = "scale"
	case "nodata":
		l = l[:4]
	case "dataword":
		l[4] = "date"
	case "cut":
		b := []byte(strings.Join(l, "\n"))
		return b[:r.Intn(len(b)+1)]
	default: // "line K TEXT": line K is TEXT
		var k int
		text, ok := strings.CutPrefix(dc.Hdr, "line ")
		if ok {
			ks, rest, _ := strings.Cut(text, " ")
			k, _ = strconv.Atoi(ks)
			text = rest
		}
		if !ok || k < 0 || k >= len(l) {
			fail("unknown defect %q", dc.Hdr)
		}
		if k == 0 {
			text = strings.Replace(text, "FORMAT", dc.Fmt, 1)
		}
		l[k] = text
	}
	return []byte(strings.Join(l, "\n") + "\n")
}

func decode(c *C) {
	r := c.R
	var dc decodeCase
	if c.Raw != nil {
		c.Case(&dc)
	} else {
		dc = randDecodeCase(r)
		if c.I%250 == 249 {
			dc = bigDecodeCase(r, c.I/250)
		}
	}
	t := [3]float64{randFloat(r), randFloat(r), randFloat(r)}
	scale := randScale(r)
	buf := defectHeader(&dc, t, scale, r)
	if dc.Hdr != "cut" && dc.Hdr != "empty" {
		for _, v := range dc.Payload {
			buf = append(buf, byte(v))
		}
	}
	p := c.Path("m")
	must(os.WriteFile(p, buf, 0644))
	e := Ev{"fmt": dc.Fmt, "n": dc.N, "hdr": dc.Hdr, "payload": dc.Payload, "t": t3(t[0], t[1], t[2]), "s": hexf(scale), "err": ""}
	if dc.Payload == nil {
		e["payload"] = []int{}
	}
	if dc.Fmt == "binvox" {
		b, err := binvox.Read(p, 0, 0, 0, 0, 0, 0)
		if err != nil {
			e["err"] = err.Error()
		} else {
			e["rn"], e["rvox"], e["rt"], e["rs"] = V3{b.NX, b.NY, b.NZ}, voxOf(b), t3(b.TX, b.TY, b.TZ), hexf(b.Scale)
		}
	} else {
		b, err := vshell.Read(p, 0, 0, 0, 0, 0, 0)
		if err != nil {
			e["err"] = err.Error()
		} else {
			e["rn"], e["rt"], e["rs"] = V3{b.NX, b.NY, b.NZ}, t3(b.TX, b.TY, b.TZ), hexf(b.Scale)
			vox := [][]int{} // the neighbor set as its four bytes
			for _, v := range b.Voxels {
				n := uint32(v.N)
				vox = append(vox, []int{v.X, v.Y, v.Z, int(n & 255), int(n >> 8 & 255), int(n >> 16 & 255), int(n >> 24)})
			}
			e["rvox"] = vox
		}
	}
	if s, ok := e["err"].(string); ok && len(s) > 200 {
		e["err"] = s[:200]
	}
	c.Emit(e)
}

func randDecodeCase(r *rand.Rand) decodeCase {
	dc := decodeCase{Hdr: "good"}
	for i := range dc.N {
		dc.N[i] = 1 + r.Intn(5)
		if r.Intn(30) == 0 {
			dc.N[i] = 0
		}
		if r.Intn(12) == 0 {
			dc.N[i] = 20
		}
	}
	if r.Intn(8) == 0 {
		dc.Hdr = headerDefects[r.Intn(len(headerDefects))]
	}
	total := dc.N[0] * dc.N[1] * dc.N[2]
	target := total
	switch r.Intn(5) {
	case 0:
		target = r.Intn(total + 1)
	case 1:
		target = total + 1 + r.Intn(3)
	}
	var b []byte
	dc.Fmt = []string{"binvox", "vshell"}[r.Intn(2)]
	for p := 0; p < target; {
		l := 1 + r.Intn(min(target-p, []int{1, 3, 10, 255}[r.Intn(4)]))
		v := r.Intn(2)
		if dc.Fmt == "binvox" {
			b = append(b, byte(v), byte(l))
		} else {
			nb := r.Uint32()
			switch r.Intn(3) {
			case 0:
				nb &= 1<<27 - 1
			case 1:
				nb = 1 << r.Intn(32)
			}
			if v == 0 {
				nb = 0
				if r.Intn(4) == 0 {
					nb = 0xffffffff
				}
			}
			b = binary.LittleEndian.AppendUint32(b, nb)
			if v == 0 {
				if r.Intn(3) == 0 {
					l = 1 + r.Intn(target-p)
				}
				b = binary.LittleEndian.AppendUint16(b, uint16(l))
			} else {
				b = append(b, byte(l))
			}
		}
		p += l
		if len(b) > 1500 {
			break
		}
	}
	switch r.Intn(4) {
	case 0: // corrupt a byte
		if len(b) > 0 {
			b[r.Intn(len(b))] = []byte{0, 1, 2, 3, 128, 254, 255, byte(r.Intn(256))}[r.Intn(8)]
		}
	case 1: // cut
		if len(b) > 0 && r.Intn(2) == 0 {
			b = b[:len(b)-1-r.Intn(min(len(b), 6))]
		}
	case 2:
		if r.Intn(6) == 0 { // noise
			b = make([]byte, r.Intn(40))
			r.Read(b)
		}
	}
	dc.Payload = bytesToInts(b)
	return dc
}

// bigDecodeCase returns a file with a large grid.
func bigDecodeCase(r *rand.Rand, k int) decodeCase {
	dc := decodeCase{Hdr: "good", N: bigGrid(r, k%7), Fmt: []string{"binvox", "vshell"}[k%2]}
	total := dc.N[0] * dc.N[1] * dc.N[2]
	var b []byte
	voxels := 0
	for p := 0; p < total && len(b) < 3000; {
		l, v := 255, r.Intn(4) == 0 && voxels < 3000
		if r.Intn(6) == 0 {
			l = 1 + r.Intn(255)
		}
		if dc.Fmt == "vshell" && !v {
			l = []int{256, 65535, 65534, 32768, 32767, 1000, 1}[r.Intn(7)]
		}
		l = min(l, total-p)
		if v {
			voxels += l
		}
		switch {
		case dc.Fmt == "binvox" && v:
			b = append(b, 1, byte(l))
		case dc.Fmt == "binvox":
			b = append(b, 0, byte(l))
		case v:
			b = append(binary.LittleEndian.AppendUint32(b, 1<<r.Intn(27)), byte(l))
		default:
			b = binary.LittleEndian.AppendUint16(binary.LittleEndian.AppendUint32(b, 0), uint16(l))
		}
		p += l
	}
	if r.Intn(3) == 0 { // one more than the grid holds, if it is full
		b = append(b, 1, 1)
		if dc.Fmt == "vshell" {
			b = append(b, 0, 0, 1)
		}
	}
	dc.Payload = bytesToInts(b)
	return dc
}

// shellfile writes and reads back a shell.
func shellfile(c *C) {
	r := c.R
	var n V3
	var vox []ShVox
	if c.Raw != nil {
		var gc struct {
			N   V3      `json:"n"`
			Vox [][]int `json:"vox"`
		}
		c.Case(&gc)
		n = gc.N
		for _, v := range gc.Vox {
			vox = append(vox, ShVox{V3{v[0], v[1], v[2]}, uint32(v[3])})
		}
	} else {
		switch r.Intn(4) {
		case 0: // long runs of empty positions
			n = V3{[]int{1, 41, 64, 257}[r.Intn(4)], []int{41, 64, 255, 257}[r.Intn(4)], []int{5, 25, 31, 64}[r.Intn(4)]}
		case 1: // long runs of equal voxels
			n = V3{1 + r.Intn(3), []int{254, 255, 256, 510, 511, 765}[r.Intn(6)], 1 + r.Intn(2)}
		default:
			n = V3{1 + r.Intn(6), 1 + r.Intn(6), 1 + r.Intn(6)}
		}
		total := n[0] * n[1] * n[2]
		nv := func() uint32 {
			switch r.Intn(5) {
			case 0:
				return 1 << r.Intn(27) &^ (1 << 13)
			case 1:
				return 0
			case 2:
				return (1<<27 - 1) &^ (1 << 13) &^ (1 << r.Intn(27))
			default:
				return uint32(r.Intn(1<<27)) &^ (1 << 13)
			}
		}
		if total > 60000 && r.Intn(3) == 0 { // gaps around the limit of 16 bits
			p := r.Intn(3)
			for p < total && len(vox) < 50 {
				vox = append(vox, ShVox{cellAt(n, p), nv()})
				p += []int{65534, 65535, 65536, 65537, 131070, 131071, 1, 2}[r.Intn(8)]
			}
		} else {
			p := 0
			if r.Intn(2) == 0 {
				p = r.Intn(total)
			}
			for p < total && len(vox) < 1200 {
				v := nv()
				l := 1 + r.Intn(4)
				if r.Intn(4) == 0 {
					l = []int{254, 255, 256, 509, 510, 511}[r.Intn(6)]
				}
				for j := 0; j < l && p < total && len(vox) < 1200; j++ {
					vox = append(vox, ShVox{cellAt(n, p), v})
					p++
				}
				if r.Intn(2) == 0 {
					p += r.Intn(1 + total/(1+r.Intn(10)))
				}
			}
		}
		if r.Intn(30) == 0 {
			vox = nil
		}
		if c.I%40 == 39 {
			m, same := bigModel(r, c.I/40), nv()
			n, vox = m.N, nil
			for _, p := range m.sorted() {
				if len(m.Vox) < 2000 {
					same = nv()
				}
				vox = append(vox, ShVox{p, same})
			}
		}
	}
	t, scale := [3]float64{randFloat(r), randFloat(r), randFloat(r)}, randScale(r)
	vs := &vshell.VShell{NX: n[0], NY: n[1], NZ: n[2], TX: t[0], TY: t[1], TZ: t[2], Scale: scale}
	for _, j := range r.Perm(len(vox)) {
		v := vox[j]
		vs.Voxels = append(vs.Voxels, vshell.VShVoxel{X: v.P[0], Y: v.P[1], Z: v.P[2], N: vshell.NeighborBitMap(v.N)})
	}
	before := fmt.Sprint(*vs)
	vt := [][]int{}
	for _, v := range vox {
		vt = append(vt, []int{v.P[0], v.P[1], v.P[2], int(v.N)})
	}
	slices.SortFunc(vt, slices.Compare)
	e := Ev{"n": n, "vox": vt, "t": t3(t[0], t[1], t[2]), "s": hexf(scale), "err": ""}
	p := c.Path("m.vsh")
	if err := vs.Write(p, 0, 0, 0, 0, 0, 0); err != nil {
		e["err"] = "write: " + err.Error()
		c.Emit(e)
		return
	}
	e["unchanged"] = before == fmt.Sprint(*vs)
	buf, err := os.ReadFile(p)
	must(err)
	e["payload"], e["raw"] = []int{}, false
	if i := bytes.Index(buf, []byte("data\n")); i >= 0 && len(buf) < 3000 && len(vox) < 5000 {
		e["payload"], e["raw"] = bytesToInts(buf[i+5:]), true
	}
	b, err := vshell.Read(p, 0, 0, 0, 0, 0, 0)
	if err != nil {
		e["err"] = "read: " + err.Error()
		c.Emit(e)
		return
	}
	e["rn"], e["rvox"], e["rt"], e["rs"] = V3{b.NX, b.NY, b.NZ}, shellVox(b), t3(b.TX, b.TY, b.TZ), hexf(b.Scale)
	c.Emit(e)
}

// fault writes a file while only the first bytes of it can be stored.
func fault(c *C) {
	r := c.R
	signal.Ignore(syscall.SIGXFSZ)
	var write func(p string) error
	kind := []string{"binvox", "vshell"}[c.I%2]
	m := randModel(r)
	switch c.I / 2 % 4 {
	case 0: // small
		m.N, m.Vox = V3{2, 2, 2}, map[V3]bool{{0, 0, 0}: true, {1, 0, 1}: true}
	case 1: // empty
		m.Vox = map[V3]bool{}
	case 2: // longer than the buffers that code may use
		m.N, m.Vox = V3{16, 33, 16}, map[V3]bool{}
		for p := 0; p < 16*33*16; p += 2 {
			m.Vox[cellAt(m.N, p)] = true
		}
	}
	if kind == "binvox" {
		b := toBinvox(m)
		write = func(p string) error { return b.Write(p, 0, 0, 0, 0, 0, 0) }
	} else {
		vs := &vshell.VShell{NX: m.N[0], NY: m.N[1], NZ: m.N[2], TX: m.T[0], TY: m.T[1], TZ: m.T[2], Scale: m.Scale}
		for _, v := range m.sorted() {
			vs.Voxels = append(vs.Voxels, vshell.VShVoxel{X: v[0], Y: v[1], Z: v[2], N: vshell.NeighborBitMap(uint32(r.Intn(1 << 26)))})
		}
		write = func(p string) error { return vs.Write(p, 0, 0, 0, 0, 0, 0) }
	}
	errStr := func(err error) string {
		if err == nil {
			return ""
		}
		return "error"
	}
	ref := c.Path("ref")
	if err := write(ref); err != nil {
		c.Emit(Ev{"op": "limit", "kind": kind, "size": 1, "limit": 1 << 30, "stored": 0, "whole": false, "err": "error"})
		return
	}
	full, err := os.ReadFile(ref)
	must(err)
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	limits := []int{}
	if len(full) <= 400 {
		for l := 0; l <= len(full)+1; l++ {
			limits = append(limits, l)
		}
	} else {
		for l := 0; l < 120; l++ {
			limits = append(limits, l)
		}
		for j := 0; j < 60; j++ {
			limits = append(limits, r.Intn(len(full)))
		}
		for _, b := range []int{512, 1024, 2048, 4096, 8192, 16384, 32768} {
			for d := -2; d <= 2; d++ {
				limits = append(limits, b+d)
			}
		}
		for l := len(full) - 20; l <= len(full)+1; l++ {
			limits = append(limits, l)
		}
	}
	for j, l := range limits {
		p := c.Path("f" + strconv.Itoa(j))
		lim := old
		lim.Cur = uint64(l)
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim))
		err := write(p)
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
		got, _ := os.ReadFile(p)
		c.Emit(Ev{"op": "limit", "kind": kind, "size": len(full), "limit": l, "stored": len(got), "whole": bytes.Equal(got, full), "err": errStr(err)})
		os.Remove(p)
	}
	// Places where no file can be created or stored.
	must(os.Mkdir(c.Path("dir"), 0755))
	for _, p := range []string{"/dev/full", c.Path("missing/m"), c.Path("dir"), c.Path("ref/m"), c.Path(strings.Repeat("n", 300))} {
		c.Emit(Ev{"op": "nowhere", "kind": kind, "err": errStr(write(p))})
	}
	_ = json.Marshal
}
