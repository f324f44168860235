package props

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/solomesh"
	"github.com/arl/go-detour/sample/tilemesh"

	"verif/harness/gen"
	"verif/harness/hx"
)

// cliRun is a finished process of the command line tool.
type cliRun struct {
	args []string
	out  string // what it prints
	code int
}

func (x cliRun) String() string {
	return fmt.Sprintf("recast %q: exit status %d, output %q", x.args, x.code, short(x.out))
}

// runCLI runs the tool in a directory.
func runCLI(c *hx.Case, dir, stdin string, args ...string) cliRun {
	bin := os.Getenv("HX_CLI")
	if bin == "" {
		c.Fatalf("HX_CLI is not set")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	cmd.Env = []string{"PATH=/nonexistent", "HOME=" + dir}
	out, err := cmd.CombinedOutput()
	x := cliRun{args: args, out: string(out)}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		x.code = ee.ExitCode()
	} else if err != nil {
		c.Fatalf("%v: %v", x, err)
	}
	if ctx.Err() != nil {
		c.Fatalf("%v: does not end", x)
	}
	if strings.Contains(x.out, "panic:") || strings.Contains(x.out, "goroutine ") {
		c.Fatalf("%v: panics", x)
	}
	return x
}

// refused checks that the tool says that something went wrong.
func (x cliRun) refused(c *hx.Case, why string) {
	if x.code == 0 || strings.TrimSpace(x.out) == "" {
		c.Fatalf("%v, expected an error: %s", x, why)
	}
}

func (x cliRun) fine(c *hx.Case, why string) {
	if x.code != 0 {
		c.Fatalf("%v, expected none: %s", x, why)
	}
}

// files reads all the files under a directory.
func files(c *hx.Case, dir string) map[string]string {
	res := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		name, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			res[name+"/"] = ""
			return nil
		}
		b, err := os.ReadFile(p)
		res[name] = string(b)
		return err
	})
	if err != nil {
		c.Fatalf("%v", err)
	}
	return res
}

// changed lists the files that are new, gone or different.
func changed(a, b map[string]string) (names []string) {
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			names = append(names, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	return names
}

// answer draws what is typed at the prompt, and whether it confirms.
func answer(r *gen.R) (string, bool) {
	var text string
	for i := r.U(0, 2); i > 0; i-- {
		text += gen.Any(r, "x\n", "maybe\n", "q\n", "ok\n", "1\n", "-y\n", " n\n")
	}
	switch gen.Pick(r, "answer", "yes", "no", "enter", "end") {
	case "yes":
		return text + gen.Any(r, "y\n", "Y\n", "yes\n", "y", "Yes", "y\nn\n"), true
	case "no":
		return text + gen.Any(r, "n\n", "N\n", "no\n", "n", "No", "n\ny\n"), false
	case "enter":
		return text + gen.Any(r, "\n", "\ny\n"), false
	}
	return text + gen.Any(r, "", "what"), false
}

// yamlOf writes settings in YAML, without some of the keys.
func yamlOf(r *gen.R, s recast.BuildSettings, drop map[string]bool) string {
	var ls []string
	v := reflect.ValueOf(s)
	for i := 0; i < v.NumField(); i++ {
		key := strings.ToLower(v.Type().Field(i).Name)
		if drop[key] {
			continue
		}
		var val string
		if f := v.Field(i); f.Kind() == reflect.Int32 {
			val = strconv.Itoa(int(f.Int()))
		} else {
			val = strconv.FormatFloat(f.Float(), gen.Any(r, byte('g'), 'f'), -1, 32)
		}
		l := key + ":" + strings.Repeat(" ", r.U(1, 3)) + val
		if r.P(0.1) {
			l += " # " + key
		}
		ls = append(ls, l)
	}
	p := make([]int, len(ls))
	for i := range p {
		p[i] = i
	}
	if r.P(0.5) {
		p = r.Perm(len(ls))
	}
	text := ""
	if r.P(0.2) {
		text = "# settings\n---\n"
	}
	for _, i := range p {
		text += ls[i] + "\n"
		if r.P(0.05) {
			text += "\n"
		}
	}
	if r.P(0.1) {
		text += "comment: nothing\n"
	}
	return text
}

// readYAML reads settings as written by the tool.
func readYAML(c *hx.Case, text string) (s recast.BuildSettings) {
	v := reflect.ValueOf(&s).Elem()
	seen := map[string]bool{}
	sc := bufio.NewScanner(strings.NewReader(text))
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || strings.HasPrefix(l, "#") || l == "---" {
			continue
		}
		key, val, ok := strings.Cut(l, ":")
		f := v.FieldByNameFunc(func(n string) bool { return strings.ToLower(n) == key })
		x, err := strconv.ParseFloat(strings.TrimSpace(val), 32)
		if !ok || err != nil || !f.IsValid() || seen[key] {
			c.Fatalf("line %q in a configuration\n%s", l, text)
		}
		seen[key] = true
		if f.Kind() == reflect.Int32 {
			f.SetInt(int64(x))
		} else {
			f.SetFloat(float64(float32(x)))
		}
	}
	if len(seen) != v.NumField() {
		c.Fatalf("a configuration of %d keys out of %d\n%s", len(seen), v.NumField(), text)
	}
	return s
}

func defaults(typ string) recast.BuildSettings {
	if typ == "tile" {
		return tilemesh.DefaultSettings()
	}
	return solomesh.DefaultSettings()
}

// libBuild builds what the tool should, with the library.
func libBuild(c *hx.Case, typ, obj string, s recast.BuildSettings) (data []byte, ok bool) {
	var m *detour.NavMesh
	ctx := recast.NewBuildContext(true)
	if typ == "tile" {
		b := tilemesh.New(ctx)
		b.SetSettings(s)
		if b.LoadGeometry(strings.NewReader(obj)) != nil {
			return nil, false
		}
		m, ok = b.Build()
	} else {
		b := solomesh.New(ctx)
		b.SetSettings(s)
		if b.LoadGeometry(strings.NewReader(obj)) != nil {
			return nil, false
		}
		m, ok = b.Build()
	}
	if !ok {
		return nil, false
	}
	return save(c, m), true
}

func caseDir(c *hx.Case) (string, func()) {
	dir, err := os.MkdirTemp(scratch(), "cli")
	if err != nil {
		c.Fatalf("%v", err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

func put(c *hx.Case, dir, name, text string) {
	if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
		c.Fatalf("%v", err)
	}
}

func flagArg(r *gen.R, name, val string) []string {
	if r.P(0.5) {
		return []string{"--" + name, val}
	}
	return []string{"--" + name + "=" + val}
}

// shuffle orders groups of arguments.
func shuffle(r *gen.R, groups ...[]string) (args []string) {
	for _, i := range r.Perm(len(groups)) {
		args = append(args, groups[i]...)
	}
	return args
}

func TestC32(t *testing.T) {
	hx.Run(t, "config", "a configuration was written, kept back or refused for a reason", 1500, 30000, func(c *hx.Case) {
		r := gen.New(c.T)
		dir, done := caseDir(c)
		defer done()
		typ := gen.Pick(r, "type", "solo", "tile", "default", "unknown")
		where := gen.Pick(r, "file", "default", "named", "missing folder", "folder", "full device")
		exists := r.Bool("exists")
		in, yes := answer(r)

		name := "recast.yml"
		var groups [][]string
		switch typ {
		case "solo", "tile":
			groups = append(groups, flagArg(r, "type", typ))
		case "unknown":
			groups = append(groups, flagArg(r, "type", gen.Any(r, "", "Solo", "TILE", "tiles", "solo ", "temp", "-", "obstacles")))
		}
		switch where {
		case "named":
			name = gen.Any(r, "a.yml", "my settings.yaml", "x", ".hidden", "navmesh.bin", "ünï.yml", "y")
		case "missing folder":
			name = "nowhere/a.yml"
			exists = false
		case "folder":
			name = "folder"
			os.Mkdir(filepath.Join(dir, name), 0o755)
			exists = true
		case "full device":
			name = "/dev/full"
			exists = true
		}
		if where != "default" {
			groups = append(groups, []string{name})
		}
		if exists && where != "folder" && where != "full device" {
			put(c, dir, name, gen.Any(r, "", "old\n", strings.Repeat("cellsize: 1\n", 100)))
		}
		put(c, dir, "other", "other")
		before := files(c, dir)
		x := runCLI(c, dir, in, append([]string{"config"}, shuffle(r, groups...)...)...)
		after := files(c, dir)
		diff := changed(before, after)
		what := ""
		switch {
		case typ == "unknown":
			what = "unknown type"
			x.refused(c, what)
		case where == "missing folder", (where == "folder" || where == "full device") && yes:
			what = where
			x.refused(c, what)
		case exists && !yes:
			what = "kept"
			x.fine(c, "the file is kept")
		default:
			what = "written"
			x.fine(c, "a configuration can be written")
			want := defaults(typ)
			if got := readYAML(c, after[name]); got != want {
				c.Fatalf("%v writes %+v, want the defaults %+v", x, got, want)
			}
			if len(diff) > 1 || len(diff) == 1 && diff[0] != name {
				c.Fatalf("%v changes %q", x, diff)
			}
			diff = nil
			c.LabelIf(exists, "overwritten")
		}
		if len(diff) > 0 {
			c.Fatalf("%v changes %q (%s)", x, diff, what)
		}
		c.Label(what)
		c.Nontrivial(x.args, in, exists)
		c.Sample("%q, answer %q, file exists %v: %s", x.args, in, exists, what)
	})

	hx.Run(t, "build", "a mesh was built, kept back or refused for a reason", 3000, 60000, func(c *hx.Case) {
		r := gen.New(c.T)
		dir, done := caseDir(c)
		defer done()
		typ := gen.Pick(r, "type", "solo", "tile")
		wrong := gen.Pick(r, "wrong", "", "", "", "no input", "input missing", "input folder", "bad geometry", "no config", "bad config",
			"bad settings", "unknown type", "missing folder", "folder", "full device", "empty config", "steep")
		s := randBScene(r)
		set := s.set
		obj := s.text
		in, yes := answer(r)
		exists := r.Bool("exists")

		// configuration
		drop := map[string]bool{}
		var conf string
		written := false // by the tool
		switch {
		case wrong == "" && r.P(0.3):
			set = defaults(typ)
			written = true
		default:
			for _, k := range []string{"regionminsize", "regionmergesize", "edgemaxlen", "detailsampledist", "partitiontype", "agentradius"} {
				if r.P(0.1) {
					drop[k] = true
					reflect.ValueOf(&set).Elem().FieldByNameFunc(func(n string) bool { return strings.ToLower(n) == k }).SetZero()
				}
			}
			if typ == "solo" && r.P(0.5) {
				drop["tilesize"] = true
			}
		}
		if wrong == "steep" { // not any ground
			set.AgentMaxSlope = 0
		}
		if wrong == "bad settings" {
			bads := []string{"cellsize", "cellheight", "vertsperpoly"}
			if typ == "tile" {
				bads = append(bads, "tilesize")
			}
			k := gen.Any(r, bads...)
			drop[k] = true
			conf = yamlOf(r, set, drop)
			val := gen.Any(r, "", "0", "-1", "0.0", "-.inf", ".nan")
			if k == "vertsperpoly" {
				val = gen.Any(r, "", "0", "1", "2", "-3", "7", "2.5", ".nan")
			}
			if k == "tilesize" {
				val = gen.Any(r, "", "0", "-32", "0.5", ".nan")
			}
			if val != "" {
				conf += k + ": " + val + "\n"
			}
		} else {
			conf = yamlOf(r, set, drop)
		}
		if wrong == "bad config" {
			conf = gen.Any(r, "cellsize: abc\n", "- 1\n- 2\n", "cellsize: [1, 2]\n", "{", "\tcellsize: 1\n", "cellsize 0.3\n", conf+"cellheight:: x: y\n", "\x00\x01", obj)
		}
		if wrong == "empty config" {
			conf = gen.Any(r, "", "\n", "# nothing\n", "cellSize: 0.3\n", "settings:\n  cellsize: 0.3\n")
		}
		cfgName := gen.Any(r, "recast.yml", "a.yml", "my settings.yaml")
		var groups [][]string
		if cfgName != "recast.yml" || r.P(0.2) {
			groups = append(groups, flagArg(r, "config", cfgName))
		}
		if written {
			x := runCLI(c, dir, "", "config", "--type", typ, cfgName)
			x.fine(c, "a default configuration can be written")
		} else if wrong != "no config" {
			put(c, dir, cfgName, conf)
		}

		// geometry
		objName := gen.Any(r, "a.obj", "in put.obj", "geometry")
		switch wrong {
		case "no input":
		case "input missing":
			groups = append(groups, flagArg(r, "input", "nothing.obj"))
		case "input folder":
			os.Mkdir(filepath.Join(dir, "objs"), 0o755)
			groups = append(groups, flagArg(r, "input", "objs"))
		default:
			groups = append(groups, flagArg(r, "input", objName))
		}
		if wrong == "bad geometry" {
			obj = gen.Any(r, "", "v 1 2\n", "f 1 2 3\n", obj+"f 1 2 9999999\n", "v a b c\n", obj[:r.U(0, 2)], "# nothing\n")
		}
		put(c, dir, objName, obj)

		// type
		switch {
		case wrong == "unknown type":
			groups = append(groups, flagArg(r, "type", gen.Any(r, "", "Solo", "TILE", "tiles", "solo ", "temp", "-", "obstacles")))
		case typ == "tile" || r.P(0.5):
			groups = append(groups, flagArg(r, "type", typ))
		}

		// output
		out := "navmesh.bin"
		if r.P(0.5) {
			out = gen.Any(r, "out.bin", "a b", ".mesh", "y")
		}
		switch wrong {
		case "missing folder":
			out, exists = "nowhere/a.bin", false
		case "folder":
			out, exists = "folder", true
			os.Mkdir(filepath.Join(dir, out), 0o755)
		case "full device":
			out, exists = "/dev/full", true
		}
		if out != "navmesh.bin" {
			groups = append(groups, []string{out})
		}
		if exists && wrong != "folder" && wrong != "full device" {
			put(c, dir, out, gen.Any(r, "", "old", strings.Repeat("an old mesh ", 10000)))
		}

		before := files(c, dir)
		x := runCLI(c, dir, in, append([]string{"build"}, shuffle(r, groups...)...)...)
		after := files(c, dir)
		diff := changed(before, after)
		what := wrong
		var want []byte
		ok := false
		switch wrong {
		case "", "missing folder", "folder", "full device", "steep":
			want, ok = libBuild(c, typ, obj, set)
		}
		switch {
		case !ok:
			if wrong == "" {
				what = "no mesh"
			}
			x.refused(c, what)
		case wrong == "missing folder", (wrong == "folder" || wrong == "full device") && yes:
			x.refused(c, what)
		case exists && !yes:
			what = "kept"
			x.fine(c, "the file is kept")
		default:
			what = "written"
			x.fine(c, "the mesh can be built")
			if got := after[out]; got != string(want) {
				c.Fatalf("%v writes a mesh of %d bytes, the library makes another of %d bytes\n%+v", x, len(got), len(want), set)
			}
			if len(diff) > 1 || len(diff) == 1 && diff[0] != out {
				c.Fatalf("%v changes %q", x, diff)
			}
			diff = nil
			c.Label(typ)
			c.LabelIf(exists, "overwritten")
			c.LabelIf(written, "default settings")
		}
		if len(diff) > 0 {
			c.Fatalf("%v changes %q (%s)", x, diff, what)
		}
		c.Label(what)
		c.Nontrivial(x.args, in, exists, conf, obj)
		c.Sample("%q, answer %q, file exists %v: %s", x.args, in, exists, what)
	})

	hx.Run(t, "infos", "a mesh file that loads, or does not", 1500, 30000, func(c *hx.Case) {
		r := gen.New(c.T)
		dir, done := caseDir(c)
		defer done()
		typ := gen.Pick(r, "type", "solo", "tile")
		wrong := gen.Pick(r, "wrong", "", "", "no file", "missing", "folder", "short", "flipped", "empty", "text")
		s := randBScene(r)
		data, ok := libBuild(c, typ, s.text, s.set)
		if !ok {
			return
		}
		switch wrong {
		case "short":
			data = data[:r.U(0, len(data)-1)]
		case "flipped":
			for i := r.U(1, 4); i > 0; i-- { // in the headers
				data[min(len(data)-1, gen.Any(r, r.U(0, 11), r.U(36, 55)))] ^= byte(1 << r.U(0, 7))
			}
		case "empty":
			data = nil
		case "text":
			data = []byte(s.text)
		}
		name := gen.Any(r, "navmesh.bin", "a b.bin", "x")
		put(c, dir, name, string(data))
		args := []string{"infos", name}
		switch wrong {
		case "no file":
			args = args[:1]
		case "missing":
			args[1] = "nothing.bin"
		case "folder":
			args[1] = "folder"
			os.Mkdir(filepath.Join(dir, "folder"), 0o755)
		}
		var m *detour.NavMesh
		var err error = errors.New(wrong)
		if wrong != "no file" && wrong != "missing" && wrong != "folder" {
			m, err = detour.Decode(bytes.NewReader(data))
		}
		before := files(c, dir)
		x := runCLI(c, dir, "", args...)
		if d := changed(before, files(c, dir)); len(d) > 0 {
			c.Fatalf("%v changes %q", x, d)
		}
		if err != nil {
			x.refused(c, fmt.Sprint(wrong, ": ", err))
			c.Label("refused: " + wrong)
		} else {
			x.fine(c, "the mesh loads")
			i, j := strings.Index(x.out, "{"), strings.LastIndex(x.out, "}")
			if i < 0 || j < i {
				c.Fatalf("%v: no parameters", x)
			}
			var p detour.NavMeshParams
			d := json.NewDecoder(strings.NewReader(x.out[i : j+1]))
			d.DisallowUnknownFields()
			if err := d.Decode(&p); err != nil || p != m.Params {
				c.Fatalf("%v: parameters %+v (%v), want %+v", x, p, err, m.Params)
			}
			if text := x.out[:i]; m.Params.MaxTiles > 1 && strings.Contains(text, "solo") || strings.Contains(text, "tile") && m.Params.MaxTiles <= 1 {
				c.Fatalf("%v describes a mesh of up to %d tiles", x, m.Params.MaxTiles)
			}
			c.Label("described: " + typ)
		}
		c.Nontrivial(x.args, data)
		c.Sample("%q, %s: exit status %d", x.args, wrong, x.code)
	})

	hx.Run(t, "usage", "a command line", 300, 3000, func(c *hx.Case) {
		r := gen.New(c.T)
		dir, done := caseDir(c)
		defer done()
		what := gen.Pick(r, "what", "help", "command", "flag", "value")
		cmds := []string{"build", "config", "infos"}
		switch what {
		case "help":
			known := map[string]bool{}
			var mentioned []string
			re := regexp.MustCompile(`--[a-z][a-z-]*`)
			for _, cmd := range cmds {
				x := runCLI(c, dir, "", cmd, gen.Any(r, "--help", "-h"))
				x.fine(c, "help")
				_, flags, ok := strings.Cut(x.out, "Flags:")
				if !ok || !strings.Contains(x.out, "recast "+cmd) {
					c.Fatalf("%v: no usage", x)
				}
				for _, f := range re.FindAllString(flags, -1) {
					known[f] = true
				}
				mentioned = append(mentioned, re.FindAllString(x.out, -1)...)
			}
			for _, f := range mentioned {
				if !known[f] {
					c.Fatalf("the help mentions %s, which no command has", f)
				}
			}
			for _, f := range []string{"--type", "--config", "--input"} {
				if !known[f] {
					c.Fatalf("the help does not list %s", f)
				}
			}
		case "command":
			x := runCLI(c, dir, "", gen.Any(r, "biuld", "mesh", "Build", "infos2", "solo"))
			x.refused(c, "unknown command")
		case "flag":
			x := runCLI(c, dir, "", shuffle(r, []string{gen.Any(r, cmds...)}, []string{gen.Any(r, "--nothing", "-z", "--types=solo", "--force=maybe")})...)
			x.refused(c, "unknown flag")
		case "value":
			x := runCLI(c, dir, "", gen.Any(r, "build", "config"), "--type")
			x.refused(c, "missing value")
		}
		if fs := files(c, dir); len(fs) != 1 {
			c.Fatalf("files appear: %v", fs)
		}
		c.Label(what)
		c.Nontrivial(what, r.U(0, 1<<40))
	})
}
