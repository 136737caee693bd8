package main

// The driver's own reading and writing of the file formats, independent of the
// code under test.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"sort"
	"strconv"
)

// V3 is a position or size in voxels.
type V3 = [3]int

// Model is a voxel model.
type Model struct {
	N     V3
	T     [3]float64
	Scale float64
	Vox   map[V3]bool
}

func (m *Model) pitch() float64 { return m.Scale / float64(max(m.N[0], m.N[1], m.N[2])) }

func (m *Model) sorted() []V3 { return sortedVox(m.Vox) }

func sortedVox(s map[V3]bool) []V3 {
	out := make([]V3, 0, len(s))
	for k := range s {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		for k := range a {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return false
	})
	return out
}

func hexf(f float64) string { return strconv.FormatFloat(f, 'x', -1, 64) }

func g(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

func header(magic string, n V3, t [3]float64, scale float64) []byte {
	return []byte(fmt.Sprintf("#%s 1\ndim %d %d %d\ntranslate %s %s %s\nscale %s\ndata\n", magic, n[0], n[1], n[2], g(t[0]), g(t[1]), g(t[2]), g(scale)))
}

func cellAt(n V3, p int) V3 { return V3{p / (n[1] * n[2]), p % n[1], p / n[1] % n[2]} }

// encodeBinvox encodes a model with runs of up to maxRun voxels.
func encodeBinvox(m *Model, maxRun int) []byte {
	b := header("binvox", m.N, m.T, m.Scale)
	total := m.N[0] * m.N[1] * m.N[2]
	for p := 0; p < total; {
		v := m.Vox[cellAt(m.N, p)]
		q := p
		for q < total && q-p < maxRun && m.Vox[cellAt(m.N, q)] == v {
			q++
		}
		var vb byte
		if v {
			vb = 1
		}
		b = append(b, vb, byte(q-p))
		p = q
	}
	return b
}

func writeBinvox(path string, m *Model) {
	must(os.WriteFile(path, encodeBinvox(m, 255), 0644))
}

// parseHeader parses a header written by the code under test.
func parseHeader(magic string, b []byte) (n V3, t [3]float64, scale float64, rest []byte, err error) {
	var line [5]string
	for i := range line {
		j := bytes.IndexByte(b, '\n')
		if j < 0 {
			return n, t, scale, nil, fmt.Errorf("short header")
		}
		line[i], b = string(b[:j]), b[j+1:]
	}
	if line[0] != "#"+magic+" 1" || line[4] != "data" {
		return n, t, scale, nil, fmt.Errorf("bad header %q", line)
	}
	if _, err := fmt.Sscanf(line[1], "dim %d %d %d", &n[0], &n[1], &n[2]); err != nil {
		return n, t, scale, nil, err
	}
	if _, err := fmt.Sscanf(line[2], "translate %g %g %g", &t[0], &t[1], &t[2]); err != nil {
		return n, t, scale, nil, err
	}
	if _, err := fmt.Sscanf(line[3], "scale %g", &scale); err != nil {
		return n, t, scale, nil, err
	}
	return n, t, scale, b, nil
}

// readBinvox reads a file written by the code under test.
func readBinvox(path string) (*Model, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	m := &Model{Vox: map[V3]bool{}}
	if m.N, m.T, m.Scale, b, err = parseHeader("binvox", b); err != nil {
		return nil, err
	}
	if len(b)%2 != 0 {
		return nil, fmt.Errorf("odd payload")
	}
	p, total := 0, m.N[0]*m.N[1]*m.N[2]
	for i := 0; i < len(b); i += 2 {
		if b[i] > 1 || b[i+1] == 0 || p+int(b[i+1]) > total {
			return nil, fmt.Errorf("bad run %v,%v at %v of %v", b[i], b[i+1], p, total)
		}
		for j := 0; j < int(b[i+1]); j++ {
			if b[i] == 1 {
				m.Vox[cellAt(m.N, p)] = true
			}
			p++
		}
	}
	if p != total {
		return nil, fmt.Errorf("%v of %v voxels", p, total)
	}
	return m, nil
}

// ShVox is a voxel of a shell with its neighbor set.
type ShVox struct {
	P V3
	N uint32
}

// encodeShell encodes a shell; runs of empty positions have up to maxEmpty
// positions, runs of voxels up to maxRun.
func encodeShell(n V3, t [3]float64, scale float64, vox []ShVox, maxEmpty, maxRun int) []byte {
	b := header("vshell", n, t, scale)
	m := map[V3]uint32{}
	for _, v := range vox {
		m[v.P] = v.N
		if v.N == 0 {
			m[v.P] = 1 << 13
		}
	}
	total := n[0] * n[1] * n[2]
	for p := 0; p < total; {
		v := m[cellAt(n, p)]
		lim := maxRun
		if v == 0 {
			lim = maxEmpty
		}
		q := p
		for q < total && q-p < lim && m[cellAt(n, q)] == v {
			q++
		}
		b = binary.LittleEndian.AppendUint32(b, v)
		if v == 0 {
			b = binary.LittleEndian.AppendUint16(b, uint16(q-p))
		} else {
			b = append(b, byte(q-p))
		}
		p = q
	}
	return b
}

// readShell reads a shell file written by the code under test.
func readShell(path string) (n V3, t [3]float64, scale float64, vox []ShVox, err error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	if n, t, scale, b, err = parseHeader("vshell", b); err != nil {
		return
	}
	p, total := 0, n[0]*n[1]*n[2]
	for len(b) > 0 {
		if len(b) < 5 {
			return n, t, scale, nil, fmt.Errorf("cut-off run")
		}
		v := binary.LittleEndian.Uint32(b)
		var cnt int
		if v == 0 || v == math.MaxUint32 {
			if len(b) < 6 {
				return n, t, scale, nil, fmt.Errorf("cut-off run")
			}
			cnt, b = int(binary.LittleEndian.Uint16(b[4:])), b[6:]
		} else {
			cnt, b = int(b[4]), b[5:]
		}
		if p+cnt > total {
			return n, t, scale, nil, fmt.Errorf("overrun")
		}
		for j := 0; j < cnt; j++ {
			if v != 0 && v != math.MaxUint32 {
				vox = append(vox, ShVox{cellAt(n, p), v &^ (1 << 13)})
			}
			p++
		}
	}
	if p != total {
		return n, t, scale, nil, fmt.Errorf("%v of %v voxels", p, total)
	}
	return n, t, scale, vox, nil
}

func bytesToInts(b []byte) []int {
	out := make([]int, len(b))
	for i, v := range b {
		out[i] = int(v)
	}
	return out
}

// milli rounds to thousandths.
func milli(f float64) int { return clampInt(math.Round(f * 1000)) }

// ppm rounds to millionths.
func ppm(f float64) int { return clampInt(math.Round(f * 1e6)) }

func clampInt(f float64) int {
	if math.IsNaN(f) || f > 2e9 {
		return 2000000000
	}
	if f < -2e9 {
		return -2000000000
	}
	return int(f)
}
