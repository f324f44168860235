package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"testing"

	"github.com/arl/go-detour/recast"

	"verif/harness/gen"
	"verif/harness/hx"
)

// objDoc is an OBJ text and what it describes.
type objDoc struct {
	lines []string // without line endings
	kinds []byte   // of the lines: 'v', 'f' or 0
	verts [][3]float64
	faces [][]int32
}

func objNumber(r *gen.R) (string, float64) {
	var s string
	v := float64(r.F(-100, 100))
	switch r.U(0, 9) {
	case 0:
		s = strconv.Itoa(r.U(-50, 50))
	case 1:
		s = strconv.FormatFloat(v, 'e', r.U(0, 9), 64)
	case 2:
		s = strconv.FormatFloat(v, 'f', r.U(0, 4), 64)
	case 3:
		s = "+" + strconv.FormatFloat(math.Abs(v), 'f', 6, 64)
	case 4:
		s = strconv.FormatFloat(v, 'G', -1, 64)
	case 5:
		s = gen.Any(r, ".5", "5.", "-.25", "-0", "0", "-0.0", "1E3", "1e-3", "1e+2", "0.1", "16777217", "1e-50", "000012.50", "-7.")
	default:
		s = strconv.FormatFloat(v, 'f', 6, 64)
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	return s, f
}

func randDoc(r *gen.R) *objDoc {
	d := &objDoc{}
	sep := func() string {
		return gen.Any(r, " ", " ", " ", "  ", "\t", " \t ")
	}
	plain := r.Bool("single spaces")
	join := func(fs ...string) string {
		var sb strings.Builder
		if !plain && r.P(0.1) {
			sb.WriteString(sep())
		}
		for i, f := range fs {
			if i > 0 {
				if plain {
					sb.WriteByte(' ')
				} else {
					sb.WriteString(sep())
				}
			}
			sb.WriteString(f)
		}
		if !plain && r.P(0.2) {
			sb.WriteString(sep())
		}
		return sb.String()
	}
	add := func(k byte, l string) {
		d.lines = append(d.lines, l)
		d.kinds = append(d.kinds, k)
	}
	vertex := func() {
		var fs []string
		var v [3]float64
		for i := range v {
			var s string
			s, v[i] = objNumber(r)
			fs = append(fs, s)
		}
		if r.P(0.1) {
			fs = append(fs, gen.Any(r, "1.0", "0", "0.5"))
		}
		add('v', join(append([]string{"v"}, fs...)...))
		d.verts = append(d.verts, v)
	}
	noise := func() {
		add(0, gen.Any(r, "", " ", "\t", "# comment", "#v 1 2 3", "#", "# f 1 2 9999", "vn 0 1 0", "vt 0.5 0.5", "vp 1 2", "g group", "o object name",
			"usemtl stone", "mtllib a.mtl", "s off", "s 1", "l 1 2", "fo 1 2 3", "vertex", "# "+strings.Repeat("x", r.U(0, 3000))))
	}
	nv := r.Int("vertices", 0, 30)
	nf := r.Int("faces", 0, 30)
	interleave := r.Bool("interleaved")
	slash := r.U(0, 4)
	face := func() {
		n := len(d.verts)
		if n == 0 {
			return
		}
		k := 3
		if r.P(0.3) {
			k = r.U(4, 9)
		}
		if r.P(0.02) {
			k = r.U(10, 400)
		}
		fs := []string{"f"}
		var f []int32
		for i := 0; i < k; i++ {
			v := r.U(0, n-1)
			f = append(f, int32(v))
			s := strconv.Itoa(v + 1)
			if r.P(0.25) {
				s = strconv.Itoa(v - n)
			}
			st := slash
			if r.P(0.1) {
				st = r.U(0, 4)
			}
			switch st {
			case 1:
				s += fmt.Sprintf("/%d", r.U(1, 9))
			case 2:
				s += fmt.Sprintf("/%d/%d", r.U(1, 9), r.U(1, 9))
			case 3:
				s += fmt.Sprintf("//%d", r.U(1, 9))
			}
			fs = append(fs, s)
		}
		add('f', join(fs...))
		d.faces = append(d.faces, f)
	}
	for i, j := 0, 0; i < nv || j < nf; {
		if r.P(0.15) {
			noise()
		}
		if i < nv && (!interleave || j >= nf || r.P(0.6)) {
			vertex()
			i++
		} else {
			face()
			j++
		}
	}
	return d
}

// text writes the document.
func (d *objDoc) text(r *gen.R) string {
	eol := gen.Pick(r, "eol", "\n", "\r\n")
	var sb strings.Builder
	for i, l := range d.lines {
		sb.WriteString(l)
		if i < len(d.lines)-1 || r.P(0.8) {
			sb.WriteString(eol)
		}
	}
	return sb.String()
}

func (d *objDoc) tris() []int32 {
	var res []int32
	for _, f := range d.faces {
		for i := 2; i < len(f); i++ {
			res = append(res, f[0], f[i-1], f[i])
		}
	}
	return res
}

// sane checks the internal consistency of whatever was loaded.
func saneObj(c *hx.Case, what string, m *recast.MeshLoaderOBJ) {
	if len(m.Verts()) != 3*int(m.VertCount()) || len(m.Tris()) != 3*int(m.TriCount()) || len(m.Normals()) != len(m.Tris()) {
		c.Fatalf("%s: %d coordinates for %d vertices, %d indices and %d normal coordinates for %d triangles", what,
			len(m.Verts()), m.VertCount(), len(m.Tris()), len(m.Normals()), m.TriCount())
	}
	for _, v := range m.Verts() {
		if f := float64(v); math.IsNaN(f) || math.IsInf(f, 0) {
			c.Fatalf("%s: vertex coordinate %v", what, v)
		}
	}
	for _, i := range m.Tris() {
		if i < 0 || i >= m.VertCount() {
			c.Fatalf("%s: vertex index %d, there are %d", what, i, m.VertCount())
		}
	}
}

// checkObj compares a loaded mesh with the document.
func (d *objDoc) check(c *hx.Case, what string, m *recast.MeshLoaderOBJ) {
	saneObj(c, what, m)
	if int(m.VertCount()) != len(d.verts) {
		c.Fatalf("%s: %d vertices, the text has %d", what, m.VertCount(), len(d.verts))
	}
	for i, v := range d.verts {
		for a := 0; a < 3; a++ {
			if got := m.Verts()[i*3+a]; got != float32(v[a])*m.Scale() {
				c.Fatalf("%s: vertex %d is %v, the text has %v", what, i, m.Verts()[i*3:i*3+3], v)
			}
		}
	}
	tris := d.tris()
	if len(tris) != len(m.Tris()) {
		c.Fatalf("%s: %d triangles, the text has %d", what, m.TriCount(), len(tris)/3)
	}
	for i := 0; i < len(tris); i += 3 {
		a, b := tris[i:i+3], m.Tris()[i:i+3]
		if a[0] != b[0] || a[1] != b[1] || a[2] != b[2] {
			c.Fatalf("%s: triangle %d is %v, should be %v", what, i/3, b, a)
		}
		checkNormal(c, what, m, i/3)
	}
}

// checkNormal checks the normal of a triangle that is not degenerate.
func checkNormal(c *hx.Case, what string, m *recast.MeshLoaderOBJ, i int) {
	t := m.Tris()[i*3 : i*3+3]
	p := [3]v64{}
	for j, v := range t {
		p[j] = to64(m.Verts()[v*3 : v*3+3])
	}
	e0, e1 := p[1].sub(p[0]), p[2].sub(p[0])
	n := v64{e0[1]*e1[2] - e0[2]*e1[1], e0[2]*e1[0] - e0[0]*e1[2], e0[0]*e1[1] - e0[1]*e1[0]}
	l0, l1 := e0.len(), e1.len()
	big := math.Max(p[0].len(), math.Max(l0, l1))
	if l0 == 0 || l1 == 0 || l0*l1 < 1e-12 || l0*l1 > 1e15 {
		return
	}
	// rounding of the edges and their products, relative to the area
	e := 1e-6 * (1 + big/math.Min(l0, l1)) * l0 * l1 / n.len()
	if !(e < 1e-2) {
		c.Label("thin triangle, normal not checked")
		return
	}
	got := to64(m.Normals()[i*3 : i*3+3])
	if d := got.dist(n.mul(1 / n.len())); d > 4*e+1e-6 {
		c.Fatalf("%s: normal of triangle %d %v is %v, should be %v", what, i, p, got, n.mul(1/n.len()))
	}
	if math.Abs(got.len()-1) > 1e-5 {
		c.Fatalf("%s: normal of triangle %d has length %v", what, i, got.len())
	}
}

type errReader struct {
	r   io.Reader
	err error
}

func (e *errReader) Read(p []byte) (int, error) {
	n, err := e.r.Read(p)
	if err == io.EOF {
		err = e.err
	}
	return n, err
}

func loadMesh(r io.Reader) (m *recast.MeshLoaderOBJ, err error) {
	m = recast.NewMeshLoaderOBJ()
	err = m.Load(r)
	return m, err
}

func TestC29(t *testing.T) {
	hx.Run(t, "valid", "the text has at least one face and one of: relative or slashed indices, polygons, unusual spacing",
		30000, 600000, func(c *hx.Case) {
			r := gen.New(c.T)
			d := randDoc(r)
			text := d.text(r)
			m, err := loadMesh(chunked(r, []byte(text)))
			if err != nil {
				c.Fatalf("valid text rejected: %v\n%q", err, text)
			}
			d.check(c, "Load", m)
			// the same loader again, another text
			if r.P(0.3) {
				d2 := randDoc(r)
				if err := m.Load(strings.NewReader(d2.text(r))); err != nil {
					c.Fatalf("valid text rejected on a second load: %v", err)
				}
				d2.check(c, "second Load", m)
			}
			// the input geometry
			var ig recast.InputGeom
			if r.P(0.3) {
				first := randDoc(r)
				first.text(r)
				_ = ig.LoadOBJMesh(strings.NewReader(first.text(r)))
				if ig.Mesh() != nil {
					ig.AddConvexVolume([]float32{0, 0, 0, 1, 0, 0, 0, 0, 1}, 0, 1, 3)
				}
			}
			err = ig.LoadOBJMesh(chunked(r, []byte(text)))
			if len(d.faces) == 0 {
				if err == nil {
					c.Fatalf("geometry without triangles was accepted:\n%q", text)
				}
				return
			}
			if err != nil {
				c.Fatalf("LoadOBJMesh rejected a valid text: %v\n%q", err, text)
			}
			d.check(c, "LoadOBJMesh", ig.Mesh())
			if ig.ConvexVolumesCount() != 0 || ig.OffMeshConnectionCount() != 0 {
				c.Fatalf("newly loaded geometry has %d volumes, %d connections", ig.ConvexVolumesCount(), ig.OffMeshConnectionCount())
			}
			lo, hi := d.verts[0], d.verts[0]
			for _, v := range d.verts {
				for a := 0; a < 3; a++ {
					lo[a], hi[a] = math.Min(lo[a], v[a]), math.Max(hi[a], v[a])
				}
			}
			for a := 0; a < 3; a++ {
				if ig.MeshBoundsMin()[a] != float32(lo[a]) || ig.MeshBoundsMax()[a] != float32(hi[a]) ||
					ig.NavMeshBoundsMin()[a] != float32(lo[a]) || ig.NavMeshBoundsMax()[a] != float32(hi[a]) {
					c.Fatalf("bounds %v %v, should be %v %v", ig.MeshBoundsMin(), ig.MeshBoundsMax(), lo, hi)
				}
			}
			rel, sl := strings.Contains(text, "f -") || strings.Contains(text, " -"), strings.Contains(text, "/")
			c.LabelIf(sl, "slashed indices")
			c.LabelIf(strings.Contains(text, "\r\n"), "CRLF")
			c.LabelIf(strings.ContainsAny(text, "\t") || strings.Contains(text, "  "), "unusual spacing")
			if rel || sl || 3*len(d.faces) < len(d.tris()) {
				c.Nontrivial(text)
				c.Sample("%q", text)
			}
		})

	hx.Run(t, "malformed", "one statement of a valid text was broken", 30000, 600000, func(c *hx.Case) {
		r := gen.New(c.T)
		d := randDoc(r)
		kind := gen.Pick(r, "defect", "number", "coords", "too few indices", "index text", "zero", "beyond", "negative", "reader", "empty vertex", "infinite")
		if kind == "reader" {
			want := errors.New("read failure")
			text := d.text(r)
			k := r.U(0, len(text))
			m := recast.NewMeshLoaderOBJ()
			if err := m.Load(&errReader{bytes.NewReader([]byte(text[:k])), want}); err == nil {
				c.Fatalf("a failing reader was ignored after %d of %d bytes", k, len(text))
			}
			c.Nontrivial(text, k)
			return
		}
		var at []int
		wantKind := byte('f')
		switch kind {
		case "number", "coords", "empty vertex", "infinite":
			wantKind = 'v'
		}
		for i, k := range d.kinds {
			if k == wantKind {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return
		}
		i := at[r.U(0, len(at)-1)]
		nbefore := 0
		for _, k := range d.kinds[:i] {
			if k == 'v' {
				nbefore++
			}
		}
		fs := strings.Fields(d.lines[i])
		j := r.U(1, len(fs)-1)
		if wantKind == 'v' {
			j = r.U(1, 3)
		}
		switch kind {
		case "number":
			fs[j] = gen.Any(r, "abc", "1.2.3", "--1", "1e", "1,5", "0x", "1/2", "-", "1.0f", "$", "1e999")
		case "infinite":
			fs[j] = gen.Any(r, "NaN", "nan", "Inf", "-inf", "+Inf", "infinity", "1e39", "-1e300")
		case "coords":
			fs = fs[:r.U(2, 3)]
		case "empty vertex":
			fs = fs[:1]
		case "too few indices":
			fs = fs[:r.U(1, 3)]
		case "index text":
			fs[j] = gen.Any(r, "x", "/1", "//2", "1.5", "1-2", "one", "-", "/", "1e2", "#1", "99999999999999999999", "4294967297", "2147483649")
		case "zero":
			fs[j] = gen.Any(r, "0", "0/1", "-0", "+0")
		case "beyond":
			fs[j] = strconv.Itoa(len(d.verts) + gen.Any(r, 1, 2, 100, 1<<20, math.MaxInt32-len(d.verts)))
		case "negative":
			fs[j] = strconv.Itoa(-(nbefore + gen.Any(r, 1, 2, 100, math.MaxInt32-nbefore)))
		}
		d.lines[i] = strings.Join(fs, " ")
		text := d.text(r)
		m, err := loadMesh(chunked(r, []byte(text)))
		if err == nil {
			c.Fatalf("%s: malformed line %q was accepted, giving %d vertices and triangles %v", kind, d.lines[i], m.VertCount(), m.Tris())
		}
		var ig recast.InputGeom
		reload := r.P(0.3)
		if reload {
			if err := ig.LoadOBJMesh(strings.NewReader("v 0 0 0\nv 1 0 0\nv 0 0 1\nf 1 3 2\n")); err != nil {
				c.Fatalf("one triangle rejected: %v", err)
			}
		}
		if err := ig.LoadOBJMesh(strings.NewReader(text)); err == nil {
			c.Fatalf("%s: LoadOBJMesh accepted malformed line %q", kind, d.lines[i])
		}
		if m := ig.Mesh(); m != nil && m.TriCount() != 0 {
			c.Label("geometry kept after a failed load")
		}
		c.Label(kind)
		c.Nontrivial(kind, text)
		c.Sample("%s: %q", kind, d.lines[i])
	})

	hx.Run(t, "garbage", "the text has a vertex or face statement", 40000, 1000000, func(c *hx.Case) {
		r := gen.New(c.T)
		var text []byte
		if r.Bool("tokens") {
			n := r.Int("n", 0, 60)
			for i := 0; i < n; i++ {
				text = append(text, gen.Any(r, "v", "f", "v ", "f ", "v 0 0 0\n", "v 1 0 0\n", "v 0 0 1\n", "f 1 2 3\n", " ", "\n", "\r", "\t", "1", "2", "3", "-1", "-2", "/", "0",
					"#", "\x00", "\\", "vn", "1e39", ".", "é", "\u00a0", "\v", "\f", " 1 2 3", "f -1 -2 -3\n", "f 1/1 2/2/2 3//3\n")...)
			}
		} else {
			text = []byte(randDoc(r).text(r))
			for k := r.Int("mutations", 1, 6); k > 0 && len(text) > 0; k-- {
				i := r.U(0, len(text)-1)
				switch r.U(0, 3) {
				case 0:
					text[i] = byte(r.U(0, 255))
				case 1:
					text = append(text[:i], text[i+1:]...)
				case 2:
					text = append(text[:i:i], append([]byte{gen.Any(r, byte(' '), '\n', '-', '/', '0', '1', '9', 'f', 'v', '.', '\r')}, text[i:]...)...)
				case 3:
					j := r.U(i, len(text))
					text = append(text[:i:i], text[j:]...)
				}
			}
		}
		m, err := loadMesh(chunked(r, text))
		if err == nil {
			saneObj(c, "Load", m)
			for i := 0; i < int(m.TriCount()); i++ {
				checkNormal(c, "Load", m, i)
			}
			// counts by an independent reading of the lines
			nv, nt := 0, 0
			for _, l := range strings.Split(string(text), "\n") {
				fs := strings.Fields(l)
				if len(fs) > 0 && fs[0] == "v" {
					nv++
				}
				if len(fs) > 0 && fs[0] == "f" {
					nt += maxInt(0, len(fs)-3)
				}
			}
			if int(m.VertCount()) != nv || int(m.TriCount()) != nt {
				c.Fatalf("%d vertices and %d triangles loaded, the text has %d and %d\n%q", m.VertCount(), m.TriCount(), nv, nt, text)
			}
		}
		var ig recast.InputGeom
		if e := ig.LoadOBJMesh(bytes.NewReader(text)); (e == nil) != (err == nil && m.TriCount() > 0) {
			c.Fatalf("LoadOBJMesh: %v, MeshLoaderOBJ: %v, %d triangles\n%q", e, err, m.TriCount(), text)
		}
		c.LabelIf(err == nil, "accepted")
		c.LabelIf(err != nil, "rejected")
		if bytes.Contains(text, []byte("f ")) || bytes.Contains(text, []byte("v ")) {
			c.Nontrivial(string(text))
		}
	})
}
