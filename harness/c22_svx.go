package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// ---- SVX files ---------------------------------------------------------------

type svxManifest struct {
	XMLName     xml.Name `xml:"grid"`
	GX          int      `xml:"gridSizeX,attr"`
	GY          int      `xml:"gridSizeY,attr"`
	GZ          int      `xml:"gridSizeZ,attr"`
	VoxelSize   float64  `xml:"voxelSize,attr"`
	OX          float64  `xml:"originX,attr"`
	OY          float64  `xml:"originY,attr"`
	OZ          float64  `xml:"originZ,attr"`
	Orientation string   `xml:"slicesOrientation,attr"`
	Channels    struct {
		Channel []struct {
			Type   string `xml:"type,attr"`
			Bits   int    `xml:"bits,attr"`
			Slices string `xml:"slices,attr"`
		} `xml:"channel"`
	} `xml:"channels"`
}

func (m *svxManifest) density() string {
	for _, c := range m.Channels.Channel {
		if strings.EqualFold(c.Type, "DENSITY") {
			return c.Slices
		}
	}
	return ""
}

// readSVX reads a complete archive. Names that occur twice are an error.
func readSVX(b []byte) (m *svxManifest, files map[string][]byte, err error) {
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, nil, fmt.Errorf("no complete zip archive: %v", err)
	}
	files = map[string][]byte{}
	for _, f := range z.File {
		if _, ok := files[f.Name]; ok {
			return nil, nil, fmt.Errorf("%v occurs twice", f.Name)
		}
		r, err := f.Open()
		if err != nil {
			return nil, nil, fmt.Errorf("%v: %v", f.Name, err)
		}
		data, err := io.ReadAll(r)
		if err != nil {
			return nil, nil, fmt.Errorf("%v: %v", f.Name, err)
		}
		r.Close()
		files[f.Name] = data
	}
	mb, ok := files["manifest.xml"]
	if !ok {
		return nil, nil, fmt.Errorf("no manifest.xml among %d files", len(files))
	}
	m = &svxManifest{}
	if err := xml.Unmarshal(mb, m); err != nil {
		return nil, nil, fmt.Errorf("manifest.xml: %v", err)
	}
	return m, files, nil
}

// sliceImages checks an archive against its manifest and returns its slices,
// bottom to top, as sets of white pixels (column, row, 0).
func sliceImages(m *svxManifest, files map[string][]byte) ([]vset, error) {
	if !strings.EqualFold(m.Orientation, "Y") {
		return nil, fmt.Errorf("slicesOrientation is %q", m.Orientation)
	}
	if m.GX < 1 || m.GY < 1 || m.GZ < 1 {
		return nil, fmt.Errorf("grid of %d %d %d", m.GX, m.GY, m.GZ)
	}
	format := m.density()
	if format == "" {
		return nil, fmt.Errorf("the manifest has no DENSITY channel")
	}
	if len(files) != m.GY+1 {
		return nil, fmt.Errorf("%d slices for a grid of %d slices", len(files)-1, m.GY)
	}
	out := make([]vset, m.GY)
	for y := range out {
		name := fmt.Sprintf(format, y)
		b, ok := files[name]
		if !ok {
			return nil, fmt.Errorf("the manifest names slice %v, which is not in the archive", name)
		}
		v, size, err := decodePNG(b)
		if err != nil {
			return nil, fmt.Errorf("%v: %v", name, err)
		}
		if size.X != m.GX || size.Y != m.GZ {
			return nil, fmt.Errorf("%v has %v pixels, but the grid is %d x %d", name, size, m.GX, m.GZ)
		}
		out[y] = v
	}
	return out, nil
}

// decodePNG returns the white pixels of a black and white image.
func decodePNG(b []byte) (v vset, size P, err error) {
	img, err := png.Decode(bytes.NewReader(b))
	if err != nil {
		return nil, size, err
	}
	r := img.Bounds()
	v = vset{}
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			switch g := color.GrayModel.Convert(img.At(x, y)).(color.Gray); g.Y {
			case 255:
				v[P{x - r.Min.X, y - r.Min.Y, 0}] = struct{}{}
			case 0:
			default:
				return nil, size, fmt.Errorf("pixel (%d,%d) is neither black nor white: %d", x, y, g.Y)
			}
		}
	}
	return v, P{r.Dx(), r.Dy(), 0}, nil
}

// encodePNG draws rows of a slice in one of several image formats.
func encodePNG(r *rand.Rand, w, h int, white func(x, y int) bool) []byte {
	hi := func() uint8 { return uint8(128 + r.Intn(128)) }
	lo := func() uint8 { return uint8(r.Intn(128)) }
	if r.Intn(2) == 0 {
		hi, lo = func() uint8 { return 255 }, func() uint8 { return 0 }
	}
	rect := image.Rect(0, 0, w, h)
	var img image.Image
	val := func(x, y int) uint8 {
		if white(x, y) {
			return hi()
		}
		return lo()
	}
	each := func(f func(x, y int)) {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				f(x, y)
			}
		}
	}
	switch r.Intn(7) {
	case 5, 6: // light and dark colors, of which no single component tells which it is
		light := []color.NRGBA{{120, 255, 255, 255}, {255, 255, 100, 255}, {0, 255, 255, 255}, {255, 255, 0, 255}, {255, 200, 255, 255}, {100, 250, 200, 255}}
		dark := []color.NRGBA{{255, 0, 0, 255}, {0, 0, 255, 255}, {140, 0, 0, 255}, {0, 140, 0, 255}, {0, 60, 255, 255}, {200, 40, 40, 255}}
		i := image.NewNRGBA(rect)
		each(func(x, y int) {
			if white(x, y) {
				i.Set(x, y, light[r.Intn(len(light))])
			} else {
				i.Set(x, y, dark[r.Intn(len(dark))])
			}
		})
		img = i
	case 0:
		i := image.NewNRGBA(rect)
		each(func(x, y int) { v := val(x, y); i.Set(x, y, color.NRGBA{v, v, v, 255}) })
		img = i
	case 1:
		i := image.NewGray16(rect)
		each(func(x, y int) { i.SetGray16(x, y, color.Gray16{uint16(val(x, y)) << 8}) })
		img = i
	case 2:
		i := image.NewPaletted(rect, color.Palette{color.Gray{lo()}, color.Gray{hi()}})
		each(func(x, y int) {
			if white(x, y) {
				i.SetColorIndex(x, y, 1)
			}
		})
		img = i
	default:
		i := image.NewGray(rect)
		each(func(x, y int) { i.SetGray(x, y, color.Gray{val(x, y)}) })
		img = i
	}
	var b bytes.Buffer
	enc := png.Encoder{CompressionLevel: png.BestSpeed}
	if err := enc.Encode(&b, img); err != nil {
		panic("harness: " + err.Error())
	}
	return b.Bytes()
}

type zipEntry struct {
	name string
	data []byte
}

func encodeZip(r *rand.Rand, entries []zipEntry) []byte {
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	for _, e := range entries {
		m := zip.Deflate
		if r.Intn(2) == 0 {
			m = zip.Store
		}
		w, err := z.CreateHeader(&zip.FileHeader{Name: e.name, Method: m})
		if err == nil {
			_, err = w.Write(e.data)
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	if err := z.Close(); err != nil {
		panic("harness: " + err.Error())
	}
	return b.Bytes()
}

type svxOpt struct {
	orientation string
	voxelSize   float64
	format      string
}

// svxEntries makes the entries of an SVX archive of the model.
func svxEntries(r *rand.Rand, m *model, o svxOpt) []zipEntry {
	attrs := []string{`version="1.0"`, fmt.Sprintf(`gridSizeX="%d"`, m.N.X), fmt.Sprintf(`gridSizeY="%d"`, m.N.Y), fmt.Sprintf(`gridSizeZ="%d"`, m.N.Z),
		fmt.Sprintf(`voxelSize="%v"`, o.voxelSize), `subvoxelBits="8"`}
	if o.orientation != "" {
		attrs = append(attrs, fmt.Sprintf(`slicesOrientation="%s"`, o.orientation))
	}
	r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	chs := []string{fmt.Sprintf(`<channel type="%s" bits="8" slices="%s" />`, []string{"DENSITY", "density", "Density"}[r.Intn(3)], o.format)}
	for r.Intn(3) == 0 {
		chs = append(chs, `<channel type="COLOR" bits="24" slices="color/c%04d.png"/>`)
	}
	r.Shuffle(len(chs), func(i, j int) { chs[i], chs[j] = chs[j], chs[i] })
	man := `<?xml version="1.0"?>` + "\n<grid " + strings.Join(attrs, " ") + ">\n <channels>\n" + strings.Join(chs, "\n") + "\n </channels>\n"
	if r.Intn(2) == 0 {
		man += ` <materials><material id="1" urn="urn:shapeways:materials/1"/></materials><metadata><entry key="author" value="x"/></metadata>` + "\n"
	}
	man += "</grid>\n"
	entries := []zipEntry{{"manifest.xml", []byte(man)}}
	if d := filepath.Dir(o.format); d != "." && r.Intn(3) == 0 { // as other tools write it
		entries = append(entries, zipEntry{d + "/", nil})
	}
	if strings.EqualFold(o.orientation, "Y") {
		for y := 0; y < m.N.Y; y++ {
			entries = append(entries, zipEntry{fmt.Sprintf(o.format, y), encodePNG(r, m.N.X, m.N.Z, func(x, row int) bool { return m.V.has(P{x, y, row}) })})
		}
	} else {
		for z := 0; z < m.N.Z; z++ {
			entries = append(entries, zipEntry{fmt.Sprintf(o.format, z), encodePNG(r, m.N.X, m.N.Y, func(x, row int) bool { return m.V.has(P{x, row, z}) })})
		}
	}
	if r.Intn(2) == 0 {
		r.Shuffle(len(entries), func(i, j int) { entries[i], entries[j] = entries[j], entries[i] })
	}
	return entries
}

var svxFormats = []string{"density/slice%04d.png", "%d.png", "16/out-16-1-2-3-%04d.png", "d/%05d.png", "slices/s_%03d.png"}

func svx2stlCheck(c *Ctx) {
	bin := cli("cmd/svx2stl", false)
	c.Cases("svx", c.N(3000, 15000), 8, func(k *K, i int) {
		r := k.R
		var names, outs []string
		var ms []*model
		os.MkdirAll(k.Path("dir.svx"), 0755)
		for j := 0; j < 1+r.Intn(2); j++ {
			m := genModel(r, c.N(9, 14), true)
			if i%50 == 7 {
				m = exactLong(r, 1500)
				if i == 57 {
					for m.N.X < 10001 && m.N.Y < 10001 && m.N.Z < 10001 {
						m = exactLong(r, 10200)
					}
				}
			}
			if i%600 == 101 {
				m = genBig(r, 40)
			}
			if r.Intn(40) == 0 {
				m.V = vset{}
			}
			m.T.X, m.T.Y, m.T.Z = 0, 0, 0
			o := svxOpt{orientation: []string{"Y", "Y", "y", "Z", ""}[r.Intn(5)], format: svxFormats[r.Intn(len(svxFormats))]}
			if r.Intn(3) == 0 {
				o.voxelSize = math.Exp(-r.Float64()*5) * 1e-2
			} else {
				o.voxelSize = math.Ldexp(1, -r.Intn(8)-7)
			}
			m.MMPV = o.voxelSize * 1000
			m.Tol = 1e-6 * float64(1+max(m.N.X, m.N.Y, m.N.Z))
			name := fmt.Sprintf([]string{"in%d", "in%d", "%d.svx.x", "dir.svx/%d", "in%d.stl", ".svx%d"}[r.Intn(6)], j)
			outs = append(outs, name+".stl")
			if r.Intn(8) > 0 {
				name += ".svx"
			}
			names = append(names, name)
			ms = append(ms, m)
			writeFile(k.Path(name), encodeZip(r, svxEntries(r, m, o)))
			if r.Intn(4) == 0 {
				writeFile(k.Path(outs[j]), make([]byte, 100000))
			}
		}
		res := runCLI(k.TempDir(), bin, names...)
		if res.code != 0 {
			k.Failf("exit", "svx2stl fails: %v\n%v", res, ms)
			return
		}
		for j, m := range ms {
			mesh, err := readSTL(k.Path(outs[j]))
			if err != nil {
				k.Failf("output", "%v\n%v", err, m)
				return
			}
			if len(m.V) == 0 {
				if len(mesh.Triangles) > 0 {
					k.Failf("empty", "%d triangles for a grid without voxels\n%v", len(mesh.Triangles), m)
				}
				k.Count("empty_grids", 1)
				continue
			}
			key, what, pts := checkSolid(r, mesh, m, 1+100000/(len(mesh.Triangles)+1))
			if key != "" {
				k.Failf(key, "%s\n%v", what, m)
				return
			}
			k.Count("points_classified", pts)
			k.Count("triangles", len(mesh.Triangles))
			k.Distinct("grid %v, voxel %v m: %d voxels, hash %x", m.N, m.MMPV/1000, len(m.V), m.V.hash())
		}
	})
	c.Cases("bad", c.N(600, 3000), 8, func(k *K, i int) {
		r := k.R
		m := genModel(r, 6, true)
		o := svxOpt{orientation: "Y", format: svxFormats[r.Intn(len(svxFormats))], voxelSize: .001}
		e := svxEntries(r, m, o)
		find := func(manifest bool) int {
			for {
				if j := r.Intn(len(e)); (e[j].name == "manifest.xml") == manifest && e[j].name[len(e[j].name)-1] != '/' {
					return j
				}
			}
		}
		what := ""
		var data []byte
		args := []string{"in.svx"}
		switch i % 11 {
		case 0:
			what = "no manifest"
			j := find(true)
			e = append(e[:j:j], e[j+1:]...)
		case 1:
			what = "a manifest that is no XML"
			e[find(true)].data = []byte("<grid")
		case 2:
			what = "no density channel"
			j := find(true)
			e[j].data = bytes.Replace(bytes.ToUpper(e[j].data), []byte("DENSITY"), []byte("COLOR"), -1)
			e[j].data = []byte(`<grid gridSizeX="2" gridSizeY="2" gridSizeZ="2" voxelSize="0.001"><channels><channel type="COLOR" slices="%d.png"/></channels></grid>`)
		case 3:
			what = "no channels"
			e[find(true)].data = []byte(`<grid gridSizeX="2" gridSizeY="2" gridSizeZ="2" voxelSize="0.001"><channels></channels></grid>`)
		case 4:
			what = "a slice that is no image"
			e[find(false)].data = []byte("no png")
		case 5:
			what = "a truncated slice"
			j := find(false)
			e[j].data = e[j].data[:len(e[j].data)/2]
		case 6:
			what = "no zip file"
			data = []byte("no zip")
		case 7:
			what = "missing file"
			args[0] = "other.svx"
		case 9, 10:
			attr := []string{"gridSizeX", "gridSizeY", "gridSizeZ", "voxelSize"}[r.Intn(4)]
			val := []string{"0", "-1", "x", "", "1e999"}[r.Intn(5)]
			if attr == "voxelSize" && r.Intn(2) == 0 {
				val = []string{"NaN", "Inf", "-0.001"}[r.Intn(3)]
			}
			val = fmt.Sprintf("%s=%q", attr, val)
			if r.Intn(3) == 0 {
				val = ""
			}
			what = fmt.Sprintf("a manifest with %q for %s", val, attr)
			j := find(true)
			e[j].data = regexp.MustCompile(attr+`="[^"]*"`).ReplaceAll(e[j].data, []byte(val))
		case 8:
			what = "truncated zip file"
			b := encodeZip(r, e)
			data = b[:len(b)-1-r.Intn(len(b)/2)]
		}
		if data == nil {
			data = encodeZip(r, e)
		}
		writeFile(k.Path("in.svx"), data)
		res := runCLI(k.TempDir(), bin, args...)
		if res.code == 0 || res.hung {
			k.Failf("unreported", "svx2stl of a file with %s: %v", what, res)
		} else if res.crashed() {
			k.Failf("crash", "svx2stl of a file with %s: %v", what, res)
		}
		if exists(k.Path("in.stl")) {
			k.Failf("partial", "svx2stl of a file with %s wrote an STL file: %v", what, res)
		}
		k.Distinct("%s: exit %d", what, res.code)
	})
}

func init() {
	register(&checkDef{id: "C22", rule: "distinct SVX archives whose STL file was checked for closedness, scale and classified points, and distinct failures", run: svx2stlCheck})
}
