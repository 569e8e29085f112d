package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	chaff "github.com/ryanolee/go-chaff"
	crand "github.com/ryanolee/go-chaff/rand"
)

// Records which files below some directories are opened.
type watcher struct {
	fd   int
	dirs map[int32]string
}

func newWatcher(dirs ...string) *watcher {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return nil
	}
	w := &watcher{fd: fd, dirs: map[int32]string{}}
	for _, d := range dirs {
		wd, err := syscall.InotifyAddWatch(fd, d, syscall.IN_OPEN|syscall.IN_CLOSE_NOWRITE|syscall.IN_CLOSE_WRITE)
		if err != nil {
			syscall.Close(fd)
			return nil
		}
		w.dirs[int32(wd)] = d
	}
	return w
}

// The files opened since the last call.
func (w *watcher) opened() []string {
	out := []string{}
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(w.fd, buf)
		if err != nil || n <= 0 {
			return out
		}
		for o := 0; o < n; {
			e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[o]))
			name := strings.TrimRight(string(buf[o+syscall.SizeofInotifyEvent:o+syscall.SizeofInotifyEvent+int(e.Len)]), "\x00")
			if e.Mask&syscall.IN_OPEN != 0 && e.Mask&syscall.IN_ISDIR == 0 {
				out = append(out, filepath.Join(w.dirs[e.Wd], name))
			}
			o += syscall.SizeofInotifyEvent + int(e.Len)
		}
	}
}

type fileRef struct {
	Form string   `json:"form"`
	Path []string `json:"path"`
}

type fileNode struct {
	Path []string `json:"path"`
	Node struct {
		K    string    `json:"k"`
		Form string    `json:"form"`
		Path []string  `json:"path"`
		Refs []fileRef `json:"refs"`
	} `json:"node"`
}

type fileWorld struct {
	base  string
	nodes []fileNode
	watch *watcher
}

func (r fileRef) text(base string) string {
	switch r.Form {
	case "rel":
		return strings.Join(r.Path, "/")
	case "abs":
		return base + "/" + strings.Join(r.Path, "/")
	}
	return "file://" + base + "/" + strings.Join(r.Path, "/")
}

// A document that tells which one it is, and holds what its references lead to.
func markedSchema(me any, refs []string) S {
	props, req := S{"me": S{"const": me}}, []any{"me"}
	for i, r := range refs {
		k := fmt.Sprintf("r%d", i)
		props[k] = S{"$ref": r}
		req = append(req, k)
	}
	return S{"type": "object", "properties": props, "required": req}
}

func marksOf(v any, out map[string]any) {
	switch x := v.(type) {
	case map[string]any:
		if m, ok := x["me"]; ok {
			out[string(raw(m))] = m
		}
		for _, e := range x {
			marksOf(e, out)
		}
	case []any:
		for _, e := range x {
			marksOf(e, out)
		}
	}
}

var theWorld *fileWorld

func scratch(name string) string {
	dir := os.Getenv("VERIF_WORK")
	if dir == "" {
		dir = os.TempDir()
	}
	dir, err := filepath.EvalSymlinks(dir)
	must(err)
	dir = filepath.Join(dir, fmt.Sprintf("%s-%d", name, os.Getpid()))
	must(os.MkdirAll(dir, 0o755))
	return dir
}

func world() *fileWorld {
	if theWorld != nil {
		return theWorld
	}
	data, err := os.ReadFile(os.Getenv("VERIF_WORLD"))
	must(err)
	var in struct {
		Nodes []fileNode `json:"nodes"`
	}
	must(json.Unmarshal(data, &in))
	sort.Slice(in.Nodes, func(i, j int) bool { return len(in.Nodes[i].Path) < len(in.Nodes[j].Path) })
	w := &fileWorld{base: scratch("world"), nodes: in.Nodes}
	dirs := []string{}
	for _, n := range in.Nodes {
		p := filepath.Join(append([]string{w.base}, n.Path...)...)
		switch n.Node.K {
		case "dir":
			must(os.MkdirAll(p, 0o755))
			dirs = append(dirs, p)
		case "file":
			refs := []string{}
			for _, r := range n.Node.Refs {
				refs = append(refs, r.text(w.base))
			}
			must(os.WriteFile(p, raw(markedSchema(n.Path, refs)), 0o644))
		case "link":
			to := filepath.Join(n.Node.Path...)
			if n.Node.Form == "abs" {
				to = filepath.Join(w.base, to)
			}
			must(os.Symlink(to, p))
		}
	}
	w.watch = newWatcher(dirs...)
	theWorld = w
	return w
}

func init() {
	runners["files"] = runner{"FilePolicyTrace", func(c *Case) map[string]any {
		return map[string]any{"extra": c.Extra, "opened": []any{}, "watched": false, "marks": []any{}, "reported": false, "parse": "ok"}
	}, runFiles}
}

func runFiles(c *Case, seed int64, res *Result, tr map[string]any) {
	w := world()
	tr["watched"] = w.watch != nil
	var extra struct {
		Mode    string    `json:"mode"`
		Root    []string  `json:"root"`
		Cwd     []string  `json:"cwd"`
		Allowed []fileRef `json:"allowed"`
		Enabled bool      `json:"enabled"`
		Outside bool      `json:"outside"`
		Refs    []fileRef `json:"refs"`
	}
	must(json.Unmarshal(c.Extra, &extra))
	at := func(p []string) string { return filepath.Join(append([]string{w.base}, p...)...) }
	home, err := os.Getwd()
	must(err)
	defer func() {
		must(os.Chdir(home))
	}()
	must(os.Chdir(at(extra.Cwd)))
	os.Setenv("PWD", at(extra.Cwd))
	refs, allowed := []string{}, []string{}
	for _, r := range extra.Refs {
		refs = append(refs, r.text(w.base))
	}
	for _, r := range extra.Allowed {
		allowed = append(allowed, r.text(w.base))
	}
	schema := raw(markedSchema("root", refs))
	po := &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{
		Enabled: extra.Enabled, AllowedPaths: allowed, AllowOutsideCwd: extra.Outside}}}
	rootFile := ""
	if extra.Mode == "file" {
		rootFile = at(extra.Root)
		must(os.WriteFile(rootFile, schema, 0o644))
		defer os.Remove(rootFile)
		rootFile, err = filepath.EvalSymlinks(rootFile)
		must(err)
	}
	if w.watch != nil {
		w.watch.opened()
	}
	var gen chaff.RootGenerator
	switch extra.Mode {
	case "file":
		gen, err = chaff.ParseSchemaFile(at(extra.Root), po)
	case "relativeTo":
		po.RelativeTo = "file://" + at(extra.Root)
		gen, err = chaff.ParseSchema(schema, po)
	default:
		gen, err = chaff.ParseSchema(schema, po)
	}
	if err != nil {
		tr["parse"] = "error"
		res.Errors = append(res.Errors, err.Error())
	} else if gen.Metadata.Errors.HasErrors() {
		tr["reported"] = true
		for k, e := range gen.Metadata.Errors.CollectErrors() {
			res.Errors = append(res.Errors, fmt.Sprintf("%s: %s", k, e))
		}
	}
	marks := map[string]any{}
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < 3 && err == nil; i++ {
		v := gen.Generate(&chaff.GeneratorOptions{Rand: crand.NewRandUtil(r.Int63())})
		res.N++
		data := raw(v)
		res.Raw = append(res.Raw, data)
		d, err := decodeJSON(data)
		must(err)
		marksOf(d, marks)
	}
	ms := []any{}
	for _, k := range sortedKeys(marks) {
		if marks[k] != "root" {
			ms = append(ms, marks[k])
		}
	}
	tr["marks"] = ms
	if w.watch != nil {
		opened := []any{}
		for _, p := range w.watch.opened() {
			if p == rootFile {
				continue
			}
			rel, err := filepath.Rel(w.base, p)
			must(err)
			opened = append(opened, strings.Split(rel, string(filepath.Separator)))
		}
		tr["opened"] = opened
	}
}
