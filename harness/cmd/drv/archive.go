package main

import (
	"archive/zip"
	"bytes"
	"context"
	"encoding/xml"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io"
	"math"
	"math/rand"
	"os"
	"strings"
)

func init() {
	drivers["archive"] = archiveCase
	drivers["convert"] = convertCase
}

func bytesOf(s string) []int {
	out := []int{}
	for _, b := range []byte(s) {
		out = append(out, int(b))
	}
	return out
}

// svxPart is a file of an archive.
type svxPart struct {
	name string
	b    []byte
}

type manifest struct {
	X  int     `xml:"gridSizeX,attr"`
	Y  int     `xml:"gridSizeY,attr"`
	Z  int     `xml:"gridSizeZ,attr"`
	V  float64 `xml:"voxelSize,attr"`
	Ch []struct {
		Type   string `xml:"type,attr"`
		Slices string `xml:"slices,attr"`
	} `xml:"channels>channel"`
}

func (m *manifest) density() string {
	for _, ch := range m.Ch {
		if ch.Type == "DENSITY" {
			return ch.Slices
		}
	}
	return ""
}

func unzip(b []byte) (parts []svxPart, err error) {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	for _, f := range zr.File {
		rc, err := f.Open()
		if err != nil {
			return nil, err
		}
		b, err := io.ReadAll(rc)
		if err != nil {
			return nil, err
		}
		rc.Close()
		parts = append(parts, svxPart{f.Name, b})
	}
	return parts, nil
}

// imageOf describes an image: its pixels that are not black, with their level.
func imageOf(e Ev, b []byte) {
	pix := [][3]int{}
	e["pix"], e["w"], e["h"], e["ok"] = pix, 0, 0, false
	img, err := png.Decode(bytes.NewReader(b))
	if err != nil {
		return
	}
	e["ok"] = true
	at := img.Bounds().Min
	e["w"], e["h"] = img.Bounds().Dx(), img.Bounds().Dy()
	for y := 0; y < img.Bounds().Dy(); y++ {
		for x := 0; x < img.Bounds().Dx(); x++ {
			if v := color.GrayModel.Convert(img.At(at.X+x, at.Y+y)).(color.Gray).Y; v > 0 {
				pix = append(pix, [3]int{x, y, int(v)})
			}
		}
	}
	e["pix"] = pix
}

var prefixes = []string{"out", "a b", "100%", "%d", "%04d", "%%", "a&b", "<x>", `q"q`, "it's", "ä-中", "a-b-1", "dir/x", "&amp;", "%5", "0", "manifest.xml", "x.png", "[a]*", "]]>", "𝔘", "a\\b", "%s%v", "-", "{{.}}", "$1", "${1}d", "$d"}

// archiveCase makes an archive with the real master and agents, and converts it with the real svx2stl.
func archiveCase(c *C) {
	r := c.R
	maxDim, long := 6, -1
	if c.I%30 == 29 { // images with sides, or numbers, of more than 8 bits
		maxDim, long = 257+r.Intn(60), c.I/30%3
	}
	s := newSolidAlong(r, maxDim, long)
	for s.desc["op"] != "boxes" {
		s = newSolidAlong(r, maxDim, long)
	}
	svc := newService(3)
	s.req.OutPrefix = prefixes[r.Intn(len(prefixes))]
	if r.Intn(3) == 0 {
		s.req.OutPrefix += prefixes[r.Intn(len(prefixes))]
	}
	d := [3]*int64{&s.req.NX, &s.req.NY, &s.req.NZ}
	for i := range d {
		*d[i] = 1 + int64(r.Intn(min(3, (s.l[i]+unit-1)/unit)))
	}
	ctx, cancel := context.WithTimeout(context.Background(), answerTime)
	defer cancel()
	resp, err := svc.master.NewJob(ctx, s.req)
	e := Ev{"op": "archive", "dim": s.dim, "prefix": s.req.OutPrefix, "len": s.l, "loose": s.loose(), "ok": err == nil && resp.GetError() == ""}
	e["manifests"], e["images"], e["grid"], e["voxel"], e["pattern"] = 0, []Ev{}, V3{}, 0, []int{}
	if e["ok"] == false {
		e["err"] = fmt.Sprint(err, resp.GetError())
		c.Emit(e)
		return
	}
	parts, err := unzip(resp.GetSvxFile())
	if err != nil {
		e["ok"] = false
		c.Emit(e)
		return
	}
	images, n := []Ev{}, 0
	for _, p := range parts {
		if p.name == "manifest.xml" {
			n++
			var m manifest
			if err := xml.Unmarshal(p.b, &m); err != nil {
				continue
			}
			e["grid"], e["pattern"] = V3{m.X, m.Y, m.Z}, bytesOf(m.density())
			mm := s.w.pitch // how large a voxel has to be
			if v := (m.V*1000/mm - 1) * 1e6; math.Abs(v) < 1e6 {
				e["voxel"] = int(math.Round(v))
			} else {
				e["voxel"] = 1000000
			}
			continue
		}
		im := Ev{"name": bytesOf(p.name)}
		imageOf(im, p.b)
		delete(im, "pix")
		images = append(images, im)
	}
	e["manifests"], e["images"] = n, images
	c.Emit(e)
	convert(c, []string{fmt.Sprintf("m%d.svx", c.I)}, [][]byte{resp.GetSvxFile()})
}

// convert runs svx2stl on archives, and describes what comes of each one.
func convert(c *C, names []string, archives [][]byte) {
	for i, n := range names {
		must(os.WriteFile(c.Path(n), archives[i], 0644))
		os.Remove(strings.TrimSuffix(c.Path(n), ".svx") + ".stl")
	}
	exit, _, stderr := tool(c.Dir, nil, "svx2stl", names...)
	run := Ev{"op": "convert", "exit": exit, "err": stderr[max(0, len(stderr)-200):]}
	arcs := []Ev{}
	for i, n := range names {
		e := Ev{"file": n}
		e["manifests"], e["parsed"], e["pattern"], e["files"], e["grid"] = 0, false, []int{}, []Ev{}, V3{}
		pitch := 1.0
		parts, err := unzip(archives[i])
		e["zip"] = err == nil
		files, ms := []Ev{}, 0
		for _, p := range parts {
			if p.name == "manifest.xml" {
				ms++
				var m manifest
				if err := xml.Unmarshal(p.b, &m); err == nil {
					e["parsed"], e["grid"], e["pattern"], pitch = true, V3{m.X, m.Y, m.Z}, bytesOf(m.density()), m.V*1000
				}
				continue
			}
			f := Ev{"name": bytesOf(p.name)}
			imageOf(f, p.b)
			files = append(files, f)
		}
		e["manifests"], e["files"] = ms, files
		stl := strings.TrimSuffix(c.Path(n), ".svx") + ".stl"
		ts, err := parseSTL(stl)
		_, serr := os.Stat(stl)
		e["stl"], e["good"] = serr == nil, err == nil
		tol := 1e-3
		for _, t := range ts {
			if math.Abs(t[0][2]/pitch) > 1000 {
				tol = 1e-2
			}
		}
		tris, on := lattice(ts, [3]float64{}, pitch, 4, tol)
		e["tris"], e["segs"], e["on"] = tris, edges(tris), on
		arcs = append(arcs, e)
	}
	run["arcs"] = arcs
	c.Emit(run)
}

// encodeLevels makes a PNG file of gray levels, of any kind of image.
func encodeLevels(r *rand.Rand, lv [][]uint8) []byte {
	h, w := len(lv), len(lv[0])
	rect := image.Rect(0, 0, w, h)
	set := func(f func(x, y int, v uint8)) {
		for y := range lv {
			for x, v := range lv[y] {
				f(x, y, v)
			}
		}
	}
	var img image.Image
	switch r.Intn(7) {
	case 0, 1:
		m := image.NewGray(rect)
		set(func(x, y int, v uint8) { m.SetGray(x, y, color.Gray{v}) })
		img = m
	case 2:
		m := image.NewGray16(rect)
		set(func(x, y int, v uint8) { m.SetGray16(x, y, color.Gray16{uint16(v) * 257}) })
		img = m
	case 3:
		m := image.NewRGBA(rect)
		set(func(x, y int, v uint8) { m.SetRGBA(x, y, color.RGBA{v, v, v, 255}) })
		img = m
	case 4:
		m := image.NewNRGBA64(rect)
		set(func(x, y int, v uint8) {
			u := uint16(v) * 257
			m.SetNRGBA64(x, y, color.NRGBA64{u, u, u, 65535})
		})
		img = m
	case 5:
		var pal color.Palette
		for i := 0; i < 256; i++ {
			pal = append(pal, color.Gray{uint8(255 - i)})
		}
		m := image.NewPaletted(rect, pal)
		set(func(x, y int, v uint8) { m.SetColorIndex(x, y, 255-v) })
		img = m
	default:
		m := image.NewNRGBA(rect)
		set(func(x, y int, v uint8) { m.SetNRGBA(x, y, color.NRGBA{v, v, v, 255}) })
		img = m
	}
	var b bytes.Buffer
	enc := png.Encoder{CompressionLevel: []png.CompressionLevel{png.DefaultCompression, png.NoCompression, png.BestSpeed}[r.Intn(3)]}
	must(enc.Encode(&b, img))
	return b.Bytes()
}

var patterns = []string{"%d", "%03d", "%04d", "%2d", "%08d", "%%%d", "%%d%d", "100%%%04d", "%%%%%03d", "a%%b-%d-%%", "x%02dy"}

// makeArchive makes an archive by hand; bad is what is wrong with it.
func makeArchive(r *rand.Rand, bad string, long int) []byte {
	n := V3{1 + r.Intn(5), 1 + r.Intn(5), 1 + r.Intn(4)} // x, y, images
	if long >= 0 {
		n = V3{1 + r.Intn(3), 1 + r.Intn(3), 1 + r.Intn(3)}
		n[long] = 250 + r.Intn(100)
	}
	vox := randSolid(r, n)
	bright := []uint8{128, 129, 255, 200, 128, 255}
	dark := []uint8{127, 0, 0, 126, 1, 127}
	pattern := []string{"s", "density/", "a b-", "", "1-2-", "ü", "a&b<", "$1x", "(.*", "0x"}[r.Intn(10)] + patterns[r.Intn(len(patterns))] + []string{".png", "", ".PNG", "_z.png"}[r.Intn(4)]
	from := 0
	switch r.Intn(6) {
	case 0:
		from = []int{7, 97, 995, 9998, 9999, 10000, 12345}[r.Intn(7)]
	}
	var parts []svxPart
	for z := 0; z < n[2]; z++ {
		lv := make([][]uint8, n[1])
		for y := range lv {
			lv[y] = make([]uint8, n[0])
			for x := range lv[y] {
				lv[y][x] = dark[r.Intn(len(dark))]
				if vox[V3{x, y, z}] {
					lv[y][x] = bright[r.Intn(len(bright))]
				}
			}
		}
		parts = append(parts, svxPart{fmt.Sprintf(pattern, from+z), encodeLevels(r, lv)})
	}
	size := []float64{1e-4, 0.001, 2.5e-5, 0.0333, 1}[r.Intn(5)]
	var esc bytes.Buffer
	must(xml.EscapeText(&esc, []byte(pattern)))
	channels := []string{fmt.Sprintf(`<channel type="%s" bits="8" slices="%s" />`, "DENSITY", esc.String())}
	if r.Intn(3) == 0 {
		channels = append(channels, `<channel type="RED" bits="8" slices="red%d.png"/>`)
		if r.Intn(2) == 0 {
			channels[0], channels[1] = channels[1], channels[0]
		}
	}
	m := fmt.Sprintf(`<?xml version="1.0"?>
<grid version="1.0" gridSizeX="%d" gridSizeY="%d" gridSizeZ="%d" voxelSize="%v" subvoxelBits="8" originX="0" originY="0" originZ="0" slicesOrientation="Y">
<channels>%s</channels>
<materials><material id="1" urn="urn:shapeways:materials/1"/></materials>
<metadata><entry key="author" value="x"/></metadata>
</grid>
`, n[0], from+n[2], n[1], size, strings.Join(channels, "\n"))
	mf := svxPart{"manifest.xml", []byte(m)}
	hurt := func(b []byte) []byte {
		b = append([]byte{}, b...)
		switch r.Intn(4) {
		case 0:
			return b[:r.Intn(len(b)-12)] // the last chunk has nothing in it
		case 1:
			return nil
		case 2:
			return bytes.Repeat([]byte("no image"), 1+r.Intn(20))
		}
		k := r.Intn(33 - 16)
		b[k+16] ^= 1 << r.Intn(8) // in the header, or its checksum
		return b
	}
	switch k := r.Intn(len(parts)); bad {
	case "nomanifest":
		mf.name = []string{"", "Manifest.xml", "manifest.xm", "x/manifest.xml"}[r.Intn(4)]
		if r.Intn(2) == 0 {
			mf.name = ""
		}
	case "cutmanifest":
		mf.b = mf.b[:r.Intn(len(mf.b)-8)]
	case "nochannels":
		mf.b = []byte(strings.Replace(m, strings.Join(channels, "\n"), "", 1))
	case "nodensity":
		mf.b = []byte(strings.ReplaceAll(m, "DENSITY", "BLUE"))
	case "noslices":
		mf.b = []byte(strings.Replace(m, esc.String()+`"`, `"`, 1))
	case "image":
		parts[k].b = hurt(parts[k].b)
	case "foreign":
		parts = append(parts, svxPart{[]string{"readme.txt", "Thumbs.db", "zz.png", "-"}[r.Intn(4)], parts[k].b})
	}
	all := append([]svxPart{}, parts...)
	if r.Intn(2) == 0 {
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	}
	if mf.name != "" {
		at := []int{0, 0, len(all), r.Intn(len(all) + 1)}[r.Intn(4)]
		all = append(all[:at:at], append([]svxPart{mf}, all[at:]...)...)
	}
	var b bytes.Buffer
	zw := zip.NewWriter(&b)
	for _, p := range all {
		w, err := zw.CreateHeader(&zip.FileHeader{Name: p.name, Method: []uint16{zip.Store, zip.Deflate}[r.Intn(2)]})
		must(err)
		w.Write(p.b)
	}
	must(zw.Close())
	out := b.Bytes()
	if bad == "zip" {
		out = out[:r.Intn(len(out)-22)]
	}
	return out
}

var archiveFaults = []string{"nomanifest", "cutmanifest", "nochannels", "nodensity", "noslices", "image", "image", "foreign", "zip"}

// convertCase converts archives made by hand.
func convertCase(c *C) {
	r := c.R
	var names []string
	var bs [][]byte
	for k := 1 + r.Intn(3)/2; k > 0; k-- {
		bad := ""
		if r.Intn(3) == 0 {
			bad = archiveFaults[r.Intn(len(archiveFaults))]
		}
		names = append(names, fmt.Sprintf("%s%d.svx", []string{"a", "b c", "x.y", "ä"}[r.Intn(4)], k))
		long := -1
		if c.I%70 == 69 && bad == "" {
			long = c.I / 70 % 3
		}
		bs = append(bs, makeArchive(r, bad, long))
	}
	convert(c, names, bs)
}
