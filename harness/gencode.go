package main

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The code generator: packages of struct types are written, the njson command
// is run on them, the result is compiled and tried with values and texts.

func init() {
	areas["gencode"] = runGencode
	areas["gencode-tests"] = runGencode
	areas["gencode-rerun"] = runGencode
}

//go:embed gencode/lib.go.txt
var genLib string

//go:embed gencode/prog.go.txt
var genProg string

//go:embed gencode/vgen.go.txt
var genVgen string

// ---- types with methods
type gcustom struct{ name, kind, enc, dec, omit string }

// enc and dec name the method and its receiver (p or v)
var gcustoms = []gcustom{
	{"Sjv", "string", "jv", "j", ""}, {"Sjp", "string", "jp", "j", ""}, {"Sav", "string", "av", "n", ""}, {"Sap", "string", "ap", "n", ""},
	{"Stv", "string", "tv", "t", ""}, {"Stp", "string", "tp", "t", ""}, {"Sall", "string", "av,jv,tv", "n,j,t", ""}, {"Sjt", "string", "jv,tv", "j,t", ""},
	{"So", "string", "", "", "v"}, {"Sop", "string", "", "", "p"}, {"Sjvo", "string", "jv", "j", "p"}, {"Savo", "string", "av", "n", "v"},
	{"Senc", "string", "tv", "", ""}, {"Sdec", "string", "", "j", ""}, {"Sdecn", "string", "", "n", ""},
	{"Rjv", "struct", "jv", "j", ""}, {"Rap", "struct", "ap", "n", ""}, {"Rtv", "struct", "tv", "t", ""}, {"Rtp", "struct", "tp", "t", "p"},
	{"Ro", "struct", "", "", "v"}, {"Rjvo", "struct", "jv", "j", "v"}, {"Rdec", "struct", "", "t", ""},
	{"Sk", "string", "", "", "s"}, {"Sok", "string", "", "", "vs"}, {"Rjk", "struct", "jv", "j", "ps"},
	{"Ajv", "array", "jv", "j", ""}, {"Aav", "array", "av", "n", "v"}, {"Atp", "array", "tp", "t", ""},
}

func (g gcustom) desc(src string) *tdesc {
	names := map[byte]string{'a': "append", 'j': "json", 't': "text", 'n': "node"}
	list := func(s string) *[]string {
		x := []string{}
		for _, e := range strings.Split(s, ",") {
			if e != "" {
				x = append(x, names[e[0]])
			}
		}
		return &x
	}
	penc := strings.HasSuffix(g.enc, "p")
	d := &tdesc{K: "custom", Lib: src, Enc: list(g.enc), Dec: list(g.dec), Penc: &penc, Omit: &[]omit{}, U: &tdesc{K: "string"}}
	no := false
	if g.kind != "string" { // an array counts as a struct: it is never empty
		d.U = &tdesc{K: "struct", Ext: &no, F: &[]fdesc{{Name: ints("S"), Exp: true, Tags: []ftag{}, T: &tdesc{K: "string"}}}}
	}
	if strings.ContainsAny(g.omit, "vp") {
		*d.Omit = append(*d.Omit, omit{"Omit", ints("0")})
	}
	if strings.Contains(g.omit, "s") {
		*d.Omit = append(*d.Omit, omit{"Skip", ints("1")})
	}
	return d
}

func (g gcustom) source(name, pkg string) string {
	var b strings.Builder
	w := func(f string, x ...interface{}) { fmt.Fprintf(&b, f+"\n", x...) }
	get := map[string]string{"string": "string(%sx)", "struct": "x.S", "array": "x[0]"}[g.kind]
	at := func(star string) string {
		if g.kind == "string" {
			return fmt.Sprintf(get, star)
		}
		return get
	}
	w("type %s %s", name, map[string]string{"string": "string", "struct": "struct{ S string }", "array": "[1]string"}[g.kind])
	w("func (x *%s) VGet() string { return %s }", name, at("*"))
	switch g.kind {
	case "string":
		w("func (x *%s) VSet(s string) { *x = %s(s) }", name, name)
	default:
		w("func (x *%s) VSet(s string) { %s = s }", name, get)
	}
	for _, e := range strings.Split(g.enc, ",") {
		if e == "" {
			continue
		}
		recv, p := name, at("")
		if e[1] == 'p' {
			recv, p = "*"+name, at("*")
		}
		switch e[0] {
		case 'a':
			w("func (x %s) AppendJSON(out []byte) ([]byte, error) { return %sMAppend(out, %s) }", recv, pkg, p)
		case 'j':
			w("func (x %s) MarshalJSON() ([]byte, error) { return %sMJSON(%s) }", recv, pkg, p)
		case 't':
			w("func (x %s) MarshalText() ([]byte, error) { return %sMText(%s) }", recv, pkg, p)
		}
	}
	for _, e := range strings.Split(g.dec, ",") {
		if e == "" {
			continue
		}
		f := map[string][2]string{"n": {"UnmarshalNodeJSON(b njson.Node)", "UNode"}, "j": {"UnmarshalJSON(b []byte)", "UJSON"}, "t": {"UnmarshalText(b []byte)", "UText"}}[e]
		w("func (x *%s) %s error { s, err := %s%s(b); if err == nil { x.VSet(s) }; return err }", name, f[0], pkg, f[1])
	}
	for _, o := range g.omit {
		switch o {
		case 'v':
			w("func (x %s) Omit() bool { return %s == %q }", name, at(""), "0")
		case 'p':
			w("func (x *%s) Omit() bool { return %s == %q }", name, at("*"), "0")
		case 's':
			w("func (x %s) Skip() bool { return %s == %q }", name, at(""), "1")
		}
	}
	return b.String()
}

// ---- packages
type gopts struct {
	Tag       string `json:"tag"`
	Tagged    bool   `json:"tagged"`
	Exported  bool   `json:"exported"`
	Empty     bool   `json:"empty"`
	Case      string `json:"case"`
	Match     string `json:"match"`
	On        []int  `json:"on"`
	Append    bool   `json:"append"`
	Unmarshal bool   `json:"unmarshal"`
	Flags     string `json:"flags"` // how the methods are asked for: "", both
	Omit      string `json:"omit"`  // the method that says a value is empty
	AppendM   string `json:"appendm"`
	UnmarshM  string `json:"unmarshalm"`
	How       string `json:"how"` // "cmd", "test" with the types in a test package, "lib" a program using the package, "file" and the types in one file
}

func (o gopts) args(r *rand.Rand) []string {
	a := []string{}
	if o.Tag != "json" || r.Intn(4) == 0 {
		a = append(a, "-k", o.Tag)
	}
	for f, on := range map[string]bool{"-only-tagged": o.Tagged, "-only-exported": o.Exported, "-omitempty": o.Empty} {
		if on {
			a = append(a, f)
		}
	}
	if o.Case != "none" {
		a = append(a, "-case", o.Case)
	}
	switch o.Match {
	case "prefix":
		a = append(a, "-match", "^"+fromInts(o.On))
	case "has":
		a = append(a, "-match", fromInts(o.On))
	}
	if o.How == "file" {
		a = append(a, "-file")
		if r.Intn(3) == 0 {
			a = append(a, "-src")
		}
	}
	if o.How == "lib" || o.How == "file" {
		if o.Omit != "Omit" || r.Intn(3) == 0 {
			a = append(a, "-omit-method", o.Omit)
		}
		if o.AppendM != "AppendJSON" || r.Intn(3) == 0 {
			a = append(a, "-append-method", o.AppendM)
		}
		if o.UnmarshM != "UnmarshalNodeJSON" || r.Intn(3) == 0 {
			a = append(a, "-unmarshal-method", o.UnmarshM)
		}
		if r.Intn(2) == 0 {
			a = append(a, "-again")
		}
	}
	switch {
	case o.Append && o.Unmarshal && o.Flags == "both":
		a = append(a, "-append", "-unmarshal")
	case o.Append && !o.Unmarshal:
		a = append(a, "-append")
	case !o.Append:
		a = append(a, "-unmarshal")
	}
	return a
}

type gtype struct {
	Name  string `json:"name"`
	T     *tdesc `json:"t"`
	O     gopts  `json:"o"`
	Cases []mss  `json:"cases"`
	res   mss
}

type gpkg struct {
	name  string
	o     gopts
	types []*gtype
	msg   string // what went wrong with the generator
	bad   bool   // does not compile
	out   string
}

// source writes a type as Go.
func source(d *tdesc, root string) string {
	if d.Name != "" {
		return d.Name
	}
	return d.literal(root)
}

func (d *tdesc) literal(root string) string {
	if d.Lib != "" {
		return d.Lib
	}
	switch d.K {
	case "bool", "string":
		return d.K
	case "int", "uint", "float":
		return d.K + strconv.Itoa(d.Bits)
	case "any":
		return "interface{}"
	case "time":
		return "time.Time"
	case "dur":
		return "time.Duration"
	case "self":
		return root
	case "ptr":
		return "*" + source(d.E, root)
	case "slice":
		return "[]" + source(d.E, root)
	case "map":
		return "map[" + source(d.Key, root) + "]" + source(d.E, root)
	case "struct":
		b := []string{}
		for _, f := range *d.F {
			s := fromInts(f.Name) + " "
			if f.Emb {
				s = ""
			}
			s += source(f.T, root)
			if len(f.Tags) > 0 {
				tags := []string{}
				for _, t := range f.Tags {
					tags = append(tags, t.Key+":"+strconv.Quote(fromInts(t.Val)))
				}
				s += " " + strconv.Quote(strings.Join(tags, " "))
			}
			b = append(b, s)
		}
		return "struct {\n" + strings.Join(b, "\n") + "\n}"
	}
	panic("source of " + d.K)
}

// named collects the defined types a type uses.
func (d *tdesc) named(to map[string]*tdesc) {
	if d == nil {
		return
	}
	if d.Name != "" {
		to[d.Name] = d
	}
	if d.Lib != "" && d.Name == "" {
		return
	}
	d.E.named(to)
	d.Key.named(to)
	if d.F != nil {
		for _, f := range *d.F {
			f.T.named(to)
		}
	}
}

func (p *gpkg) write(dir string, r *rand.Rand) error {
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	names := []string{"a.go", "m.go", "z.go"}
	body := make([]strings.Builder, len(names))
	place := func() *strings.Builder {
		if p.o.How == "file" { // the last one has all
			return &body[2]
		}
		return &body[r.Intn(len(body))]
	}
	helpers := map[string]*tdesc{}
	roots := []string{}
	others := []string{}
	for _, t := range p.types {
		b := place()
		fmt.Fprintf(b, "type %s %s\n", t.Name, t.T.literal(t.Name))
		hs := map[string]*tdesc{}
		for _, f := range *t.T.F {
			f.T.named(hs)
		}
		ks := []string{}
		for k := range hs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if helpers[k] == nil {
				helpers[k] = hs[k]
				fmt.Fprintf(place(), "type %s %s\n", k, hs[k].literal(t.Name))
				if hs[k].K == "struct" {
					others = append(others, fmt.Sprintf("new(%s)", k))
				}
			}
		}
		roots = append(roots, fmt.Sprintf("%q: new(%s)", t.Name, t.Name))
	}
	ext := ".go"
	if p.o.How == "test" {
		ext = "_test.go"
	}
	pkg := p.pkg()
	for i, n := range names {
		s := body[i].String()
		head := "package " + pkg + "\n"
		if i == 2 && p.o.How == "file" {
			s += p.customs()
		}
		for _, im := range []string{`"time"`, `lib "vg/go-lib"`, `"github.com/alxarch/njson"`} {
			pk := im[strings.LastIndexAny(im[:len(im)-1], `"`)+1 : len(im)-1]
			switch {
			case strings.HasPrefix(im, "lib"):
				pk = "lib"
			case strings.HasSuffix(im, "njson\""):
				pk = "njson"
			}
			if strings.Contains(s, pk+".") && (pk != "njson" || p.o.How == "file") {
				head += "import " + im + "\n"
			}
		}
		if i == 1 { // an alias, a function, a type that is no struct, a generic type
			s += "type Alias = struct{ Xx int }\ntype Plain int\nfunc (Plain) Method() {}\n"
		}
		n = strings.TrimSuffix(n, ".go") + ext
		if err := os.WriteFile(filepath.Join(dir, n), []byte(head+s), 0644); err != nil {
			return err
		}
	}
	// not of the package
	n, other := "other_test.go", p.name
	if p.o.How == "test" {
		n = "other.go"
	} else if r.Intn(2) == 0 {
		other += "_test"
	}
	if err := os.WriteFile(filepath.Join(dir, n), []byte("package "+other+"\ntype T9999 struct{ A chan int }\n"), 0644); err != nil {
		return err
	}
	s := "package " + pkg + "\nimport \"github.com/alxarch/njson\"\nimport lib \"vg/go-lib\"\nvar _ njson.Node\nvar _ lib.Ext\n"
	if p.o.How != "file" {
		s += p.customs()
	}
	s += "var VTypes = map[string]interface{}{" + strings.Join(roots, ", ") + "}\nvar VOthers = []interface{}{" + strings.Join(others, ", ") + "}\n"
	return os.WriteFile(filepath.Join(dir, "custom"+ext), []byte(s), 0644)
}

func (p *gpkg) customs() string {
	s := ""
	for _, c := range gcustoms {
		s += c.source("C"+c.name, "lib.")
	}
	return s
}

// pkg is the name in the package clause.
func (p *gpkg) pkg() string {
	if p.o.How == "test" {
		return p.name + "_test"
	}
	return p.name
}

// untest makes a test package an ordinary one.
func (p *gpkg) untest(dir string) error {
	if p.o.How != "test" {
		return nil
	}
	if err := os.Remove(filepath.Join(dir, "other.go")); err != nil {
		return err
	}
	fs, err := filepath.Glob(filepath.Join(dir, "*_test.go"))
	for _, f := range fs {
		if err := os.Rename(f, strings.TrimSuffix(f, "_test.go")+".go"); err != nil {
			return err
		}
	}
	return err
}

type genbed struct {
	c    *ctx
	dir  string
	repo string
	env  []string
}

func (b *genbed) run(dir string, args ...string) (string, error) {
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = dir
	cmd.Env = b.env
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if err != nil {
		err = fmt.Errorf("%s: %v\n%s", strings.Join(args, " "), err, errb.String())
	}
	return out.String(), err
}

// setup makes the module, the njson command and the export data it reads.
func (b *genbed) setup() error {
	lib := genLib
	for _, c := range gcustoms {
		lib += c.source("L"+c.name, "")
	}
	mod := "module vg\n\ngo 1.22\n\nrequire github.com/alxarch/njson v0.0.0\n\nreplace github.com/alxarch/njson => " + b.repo + "\n"
	for f, s := range map[string]string{"go.mod": mod, "go.sum": "", "go-lib/lib.go": lib, "main.go": genProg} {
		f = filepath.Join(b.dir, f)
		if err := os.MkdirAll(filepath.Dir(f), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(f, []byte(s), 0644); err != nil {
			return err
		}
	}
	if out, err := b.run(b.repo, "go", "build", "-o", filepath.Join(b.dir, "njson.exe"), "./cmd/njson"); err != nil {
		return fmt.Errorf("%s%v", out, err)
	}
	over, err := json.Marshal(mss{"Replace": mss{filepath.Join(b.repo, "cmd/vgen/main.go"): filepath.Join(b.dir, "vgen.go.txt")}})
	if err == nil {
		err = os.WriteFile(filepath.Join(b.dir, "overlay.json"), over, 0644)
	}
	if err == nil {
		err = os.WriteFile(filepath.Join(b.dir, "vgen.go.txt"), []byte(genVgen), 0644)
	}
	if err != nil {
		return err
	}
	if out, err := b.run(b.repo, "go", "build", "-overlay", filepath.Join(b.dir, "overlay.json"), "-o", filepath.Join(b.dir, "vgen.exe"), "./cmd/vgen"); err != nil {
		return fmt.Errorf("%s%v", out, err)
	}
	gopath := filepath.Join(b.dir, "gopath")
	pkg := filepath.Join(gopath, "pkg", runtime.GOOS+"_"+runtime.GOARCH)
	for _, in := range [][2]string{{b.repo, "./..."}, {b.dir, "./go-lib"}} {
		out, err := b.run(in[0], "go", "list", "-e", "-export", "-deps", "-f", "{{if and (not .Standard) .Export}}{{.ImportPath}} {{.Export}}{{end}}", in[1])
		if err != nil {
			return err
		}
		for _, l := range strings.Split(out, "\n") {
			f := strings.Fields(l)
			if len(f) != 2 {
				continue
			}
			data, err := os.ReadFile(f[1])
			if err != nil {
				return err
			}
			to := filepath.Join(pkg, f[0]+".a")
			if err := os.MkdirAll(filepath.Dir(to), 0755); err != nil {
				return err
			}
			if err := os.WriteFile(to, data, 0644); err != nil {
				return err
			}
		}
	}
	b.env = append(b.env, "VGOPATH="+gopath)
	return nil
}

// body is a generated file without the line that has the time.
func genBody(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 && strings.HasPrefix(s, "// Code generated by njson") {
		return s[i:]
	}
	return "no header\n" + s
}

func (b *genbed) generate(p *gpkg, r *rand.Rand) {
	dir := filepath.Join(b.dir, p.name)
	pat := `^(T|t|_T|É)\d+$`
	if len(p.types) == 1 && r.Intn(2) == 0 {
		pat = p.types[0].Name
	}
	exe := filepath.Join(b.dir, "njson.exe")
	args := p.o.args(r)
	pkg, to := p.pkg(), p.name+"_njson.go"
	switch p.o.How {
	case "lib", "file":
		exe = filepath.Join(b.dir, "vgen.exe")
	case "test":
		to = p.name + "_njson_test.go"
	default:
		if r.Intn(3) == 0 {
			pkg = ""
		}
	}
	call := func(w bool, name string) (string, error) {
		a := append([]string{}, args...)
		at := dir
		a = append(a, "-p", dir)
		if w {
			a = append(a, "-w")
		} else if r.Intn(2) == 0 { // in the directory
			a = a[:len(a)-2]
		}
		a = append(a, name, pat)
		cmd := exec.Command(exe, a...)
		cmd.Dir = at
		for _, e := range b.env {
			if strings.HasPrefix(e, "VGOPATH=") {
				e = e[1:]
			} else if strings.HasPrefix(e, "GOPATH=") {
				continue
			}
			cmd.Env = append(cmd.Env, e)
		}
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		if err := cmd.Run(); err != nil {
			msg := errb.String()
			if len(msg) > 400 {
				msg = msg[:400]
			}
			return "", fmt.Errorf("%v: %s", err, msg)
		}
		if !w {
			return out.String(), nil
		}
		data, err := os.ReadFile(filepath.Join(dir, to))
		return string(data), err
	}
	var texts [4]string
	for i := range texts {
		s, err := call(i < 2, []string{pkg, p.pkg(), pkg, p.pkg()}[i])
		if err != nil {
			p.msg = "fails: " + err.Error()
			return
		}
		texts[i] = genBody(s)
		if i > 0 && texts[i] != texts[0] {
			p.msg = "gives different code on another run"
			return
		}
	}
	p.out = texts[0]
}

// process runs packages through the generator, the compiler and the program.
func (b *genbed) process(pkgs []*gpkg, seed int64) error {
	var wg sync.WaitGroup
	sem := make(chan bool, b.c.workers)
	errs := make(chan error, len(pkgs))
	for i, p := range pkgs {
		wg.Add(1)
		go func(i int, p *gpkg) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			r := rand.New(rand.NewSource(seed + int64(i)))
			if err := p.write(filepath.Join(b.dir, p.name), r); err != nil {
				errs <- err
				return
			}
			b.generate(p, r)
			if err := p.untest(filepath.Join(b.dir, p.name)); err != nil {
				errs <- err
			}
		}(i, p)
	}
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	good := []*gpkg{}
	for _, p := range pkgs {
		if p.msg == "" {
			good = append(good, p)
		}
	}
	// compile
	args := []string{"go", "build"}
	for _, p := range good {
		args = append(args, "./"+p.name)
	}
	if _, err := b.run(b.dir, args...); err != nil {
		ok := []*gpkg{}
		for _, p := range good {
			wg.Add(1)
			go func(p *gpkg) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				if _, err := b.run(b.dir, "go", "build", "./"+p.name); err != nil {
					p.bad = true
					msg := err.Error()
					if len(msg) > 1500 {
						msg = msg[:1500]
					}
					p.out = msg
				}
			}(p)
		}
		wg.Wait()
		for _, p := range good {
			if !p.bad {
				ok = append(ok, p)
			}
		}
		good = ok
	}
	if len(good) > 0 {
		reg := "package main\nimport (\n"
		for _, p := range good {
			reg += fmt.Sprintf("\t%s \"vg/%s\"\n", p.name, p.name)
		}
		reg += ")\nvar packages = map[string]PackageTypes{\n"
		for _, p := range good {
			reg += fmt.Sprintf("\t%q: {%s.VTypes, %s.VOthers, %q, %q},\n", p.name, p.name, p.name, p.o.AppendM, p.o.UnmarshM)
		}
		if err := os.WriteFile(filepath.Join(b.dir, "reg.go"), []byte(reg+"}\n"), 0644); err != nil {
			return err
		}
		if out, err := b.run(b.dir, "go", "build", "-o", "prog.exe", "."); err != nil {
			return fmt.Errorf("%s%v", out, err)
		}
		if err := b.try(good); err != nil {
			return err
		}
	}
	return nil
}

func (b *genbed) try(pkgs []*gpkg) error {
	cmd := exec.Command(filepath.Join(b.dir, "prog.exe"))
	cmd.Env = b.env
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	timer := time.AfterFunc(240*time.Second, func() { cmd.Process.Kill() })
	defer timer.Stop()
	go func() {
		defer in.Close()
		for _, p := range pkgs {
			for _, t := range p.types {
				x, _ := json.Marshal(mss{"Pkg": p.name, "Type": t.Name, "Cases": t.Cases})
				if _, err := in.Write(append(x, '\n')); err != nil {
					return
				}
			}
		}
	}()
	d := json.NewDecoder(bufio.NewReaderSize(out, 1<<20))
	var fatal string
	for _, p := range pkgs {
		for _, t := range p.types {
			if fatal != "" {
				continue
			}
			t.res = mss{}
			if err := d.Decode(&t.res); err != nil {
				fatal = "ends with " + err.Error()
				t.res = mss{"has": []bool{t.O.Append, t.O.Unmarshal}, "others": false, "cases": []interface{}{}}
				for range t.Cases {
					t.res["cases"] = append(t.res["cases"].([]interface{}), mss{"err": "panic", "msg": fatal})
				}
			}
		}
	}
	cmd.Wait()
	return nil
}

// put logs what happened to a type.
func (t *gtype) put(p *gpkg, log *ndjson) {
	x := mss{"name": t.Name, "t": t.T, "o": t.O, "gen": p.msg, "compiles": !p.bad, "has": []bool{}, "others": false, "cases": []mss{}}
	if p.bad {
		x["msg"] = p.out
	}
	if t.res != nil {
		x["has"], x["others"] = t.res["has"], t.res["others"]
		cs := []mss{}
		for i, c := range t.Cases {
			r := t.res["cases"].([]interface{})[i].(mss)
			y := mss{}
			for k, v := range c {
				y[k] = v
			}
			for k, v := range r {
				if k == "out" {
					text := bytesOf(v)
					y["text"] = v
					if tr, _ := parseTree(text, false, true); tr != nil {
						v = tr
					} else {
						v = mss{"k": "bad"}
					}
				}
				y[k] = v
			}
			cs = append(cs, y)
		}
		x["cases"] = cs
	}
	log.put(x)
}

func (d *tdesc) hasBad() bool {
	if d == nil {
		return false
	}
	if d.F != nil {
		for _, f := range *d.F {
			if f.T.hasBad() {
				return true
			}
		}
	}
	return d.K == "bad" || d.E.hasBad()
}

func runGencode(c *ctx) error {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	dir, err := os.MkdirTemp(c.out, "gen")
	if err != nil {
		return err
	}
	if os.Getenv("KEEP") == "" {
		defer os.RemoveAll(dir)
	}
	b := &genbed{c: c, dir: dir, repo: repo, env: os.Environ()}
	if err := b.setup(); err != nil {
		return err
	}
	log := c.create(strings.Split(c.area, "-")[0] + ".ndjson")
	r := rand.New(rand.NewSource(c.seed*7919 + 23))
	pkgs := []*gpkg{}
	switch c.area {
	case "gencode":
		per := 12
		for n := 0; n < c.n; n += per {
			g := &ggen{r: r, o: randOpts(r)}
			p := &gpkg{name: fmt.Sprintf("p%d", len(pkgs)), o: g.o}
			m := per
			if n/per%4 == 3 { // with something the generator has to refuse
				m, g.bad = 1, true
			}
			for i := 0; i < m; i++ {
				p.types = append(p.types, g.root(i))
			}
			pkgs = append(pkgs, p)
		}
	default:
		data, err := os.ReadFile(c.in)
		if err != nil {
			return err
		}
		by := map[string][]*gtype{}
		keys := []string{}
		for i, l := range bytes.Split(bytes.TrimSpace(data), []byte("\n")) {
			t := new(gtype)
			if err := json.Unmarshal(l, t); err != nil {
				return err
			}
			if c.area == "gencode-tests" {
				t.Name = fmt.Sprintf("T%d", i)
				t.T.rename(i, new(int))
			}
			t.fix()
			k, _ := json.Marshal(t.O)
			if t.T.hasBad() { // may be refused: in a package of its own
				k = append(k, fmt.Sprint(i)...)
			}
			if by[string(k)] == nil {
				keys = append(keys, string(k))
			}
			by[string(k)] = append(by[string(k)], t)
		}
		for _, k := range keys {
			for ts := by[k]; len(ts) > 0; {
				n := len(ts)
				if n > 150 {
					n = 150
				}
				pkgs = append(pkgs, &gpkg{name: fmt.Sprintf("p%d", len(pkgs)), o: ts[0].O, types: ts[:n]})
				ts = ts[n:]
			}
		}
	}
	if err := b.process(pkgs, c.seed); err != nil {
		return err
	}
	// single out the types that are at fault
	again := []*gpkg{}
	for i, p := range pkgs {
		if p.msg != "" || p.bad {
			if len(p.types) > 1 && len(again) < 160 {
				for _, t := range p.types {
					again = append(again, &gpkg{name: fmt.Sprintf("s%d", len(again)), o: p.o, types: []*gtype{t}})
				}
				pkgs[i] = nil
			}
		}
	}
	if len(again) > 0 {
		single, n := []*gpkg{}, len(again)
		if err := b.process(again, c.seed); err != nil {
			return err
		}
		for _, p := range again {
			if p.msg != "" || p.bad {
				n--
			}
			single = append(single, p)
		}
		c.add("singled", int64(len(again)-n))
		pkgs = append(pkgs, single...)
	}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		c.add("packages", 1)
		for _, t := range p.types {
			t.put(p, log)
			c.add("types", 1)
			c.add("cases", int64(len(t.Cases)))
		}
	}
	log.close()
	return nil
}
