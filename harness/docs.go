package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
	crand "github.com/ryanolee/go-chaff/rand"
	jsv "github.com/santhosh-tekuri/jsonschema/v6"
)

// Where documents are as far as the specification is concerned.
const docsBase = "http://documents.example/"

type docsExtra struct {
	Store  string            `json:"store"` // file, http or mixed
	Entry  string            `json:"entry"` // file, text (with a location) or cwd (text that has none)
	Form   string            `json:"form"`  // how references are written: rel or abs
	Must   bool              `json:"must"`
	Strict bool              `json:"strict"`
	Root   string            `json:"root"`
	Fails  map[string]string `json:"fails"`
}

func init() {
	runners["docs"] = runner{"DocTrace", func(c *Case) map[string]any {
		return map[string]any{"root": "root", "edges": map[string]any{}, "fails": []any{}, "asked": []any{}, "watched": false, "unseen": []any{}, "must": false, "strict": false,
			"docs": map[string]any{"root": map[string]any{}}, "out": []any{}, "cover": []any{}, "wit": []any{}, "reported": false, "parse": "ok"}
	}, runDocs}
}

// Applies f to every reference of a schema.
func eachRef(v any, f func(string) string) any {
	switch x := v.(type) {
	case []any:
		out := make([]any, len(x))
		for i, e := range x {
			out[i] = eachRef(e, f)
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k, e := range x {
			if s, ok := e.(string); ok && k == "$ref" {
				out[k] = f(s)
			} else if k == "const" || k == "enum" {
				out[k] = e
			} else {
				out[k] = eachRef(e, f)
			}
		}
		return out
	}
	return v
}

type docsPlace struct {
	base string
	w    *watcher
}

var theDocsPlace *docsPlace

func docsDir() *docsPlace {
	if theDocsPlace == nil {
		base := scratch("docs")
		must(os.MkdirAll(filepath.Join(base, "d", "sub"), 0o755))
		theDocsPlace = &docsPlace{base, newWatcher(base, filepath.Join(base, "d"), filepath.Join(base, "d", "sub"))}
	}
	return theDocsPlace
}

func (e docsExtra) onWeb(name string) bool {
	return e.Store == "http" || e.Store == "mixed" && (name == "d/sub/b.json" || name == "c.json")
}

func runDocs(c *Case, seed int64, res *Result, tr map[string]any) {
	var extra docsExtra
	must(json.Unmarshal(c.Extra, &extra))
	web := startWeb()
	place := docsDir()
	location := func(name string) string {
		if extra.onWeb(name) {
			return web.url("a", strings.Split(name, "/"))
		}
		return "file://" + place.base + "/" + name
	}
	// text of a reference from one document to a pointer in another
	text := func(from, to, ptr string) string {
		if extra.onWeb(from) != extra.onWeb(to) || extra.Form == "abs" {
			return location(to) + ptr
		}
		rel, err := filepath.Rel(path.Dir("/"+from), "/"+to)
		must(err)
		return rel + ptr
	}
	all := map[string]any{}
	edges := map[string]any{}
	add := func(name string, data json.RawMessage) any {
		v, err := decodeJSON(data)
		must(err)
		to := map[string]bool{}
		real := eachRef(v, func(r string) string {
			if !strings.HasPrefix(r, "@") {
				return r
			}
			doc, ptr, _ := strings.Cut(r[1:], "#")
			if doc == name {
				return "#" + ptr
			}
			to[doc] = true
			return text(name, doc, "#"+ptr)
		})
		l := []any{}
		for _, d := range sortedKeys(to) {
			l = append(l, docsBase+d)
		}
		edges[docsBase+name] = l
		all[name] = v
		return real
	}
	root := add(extra.Root, c.Schema)
	written := map[string]any{extra.Root: root}
	for _, name := range sortedKeys(c.Docs) {
		written[name] = add(name, c.Docs[name])
	}

	// what the specification sees
	lost := map[string]bool{}
	fails, unseen := []any{}, []any{}
	for _, f := range sortedKeys(extra.Fails) {
		lost[docsBase+f] = true
		fails = append(fails, docsBase+f)
		if extra.Fails[f] == "missing" && !extra.onWeb(f) {
			unseen = append(unseen, docsBase+f)
		}
	}
	absolute := func(v any) any {
		return eachRef(v, func(r string) string {
			if strings.HasPrefix(r, "@") {
				u := url.URL{Path: "/" + strings.SplitN(r[1:], "#", 2)[0]}
				return docsBase + strings.TrimPrefix(u.EscapedPath(), "/") + "#" + strings.SplitN(r[1:], "#", 2)[1]
			}
			return r
		})
	}
	rootURL := docsBase + extra.Root
	if extra.Entry == "cwd" { // nobody knows that the text is that of a document
		rootURL = docsBase + path.Dir(extra.Root) + "/unnamed"
		all[path.Dir(extra.Root)+"/unnamed"] = all[extra.Root]
		edges[rootURL] = edges[docsBase+extra.Root]
	}
	docs := map[string]any{}
	for name, v := range all {
		docs[docsBase+name] = absolute(v)
	}
	encRoot := docs[rootURL]
	delete(docs, rootURL)
	enc, err := newEncoder(encRoot, rootURL, docs)
	must(err)
	enc.lost = lost
	encDocs := map[string]any{}
	for k, d := range enc.docs {
		encDocs[k] = enc.schema(d, k)
	}
	values := func(raws []json.RawMessage) []any {
		out := []any{}
		for _, w := range raws {
			v, err := decodeJSON(w)
			must(err)
			out = append(out, enc.value(v))
		}
		return out
	}
	covers := []any{}
	for _, s := range c.Cover {
		v, err := decodeJSON(s)
		must(err)
		covers = append(covers, enc.schema(absolute(v), rootURL))
	}
	tr["unseen"] = unseen
	tr["root"], tr["edges"], tr["fails"], tr["must"], tr["strict"], tr["docs"], tr["wit"], tr["cover"] = rootURL, edges, fails, extra.Must, extra.Strict, encDocs, values(c.Wit), covers

	// the world
	web.mu.Lock()
	web.docs = map[string]json.RawMessage{}
	put := func(name string, data []byte) {
		if extra.onWeb(name) {
			web.docs[location(name)] = data
		} else if data != nil {
			must(os.WriteFile(filepath.Join(place.base, name), data, 0o644))
		}
	}
	for name, v := range written {
		put(name, raw(v))
	}
	for name, how := range extra.Fails {
		if how == "missing" {
			put(name, nil)
		} else {
			put(name, []byte(`{"type": "object", `))
		}
	}
	web.mu.Unlock()
	defer func() {
		for name := range written {
			os.Remove(filepath.Join(place.base, name))
		}
		for name := range extra.Fails {
			os.Remove(filepath.Join(place.base, name))
		}
	}()
	po := &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{
		HTTPFetchOptions:       chaff.HTTPFetchOptions{Enabled: extra.Store != "file", AllowInsecure: true},
		FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: extra.Store != "http", AllowOutsideCwd: true, AllowedPaths: []string{place.base}},
	}}
	if place.w != nil {
		place.w.opened()
	}
	asked := []any{}
	skip := extra.Entry == "file"
	opened := func() { // so that what was opened and what was requested are in order
		for _, r := range web.log {
			asked = append(asked, docsBase+strings.Join(r.([]string)[1:], "/"))
		}
		web.log = nil
		if place.w == nil {
			return
		}
		for _, p := range place.w.opened() {
			rel, err := filepath.Rel(place.base, p)
			must(err)
			if skip && rel == extra.Root {
				skip = false
				continue
			}
			asked = append(asked, docsBase+filepath.ToSlash(rel))
		}
	}
	web.mu.Lock()
	web.log, web.hook = nil, opened
	web.mu.Unlock()
	var gen chaff.RootGenerator
	switch extra.Entry {
	case "file":
		gen, err = chaff.ParseSchemaFile(filepath.Join(place.base, extra.Root), po)
	case "cwd":
		home, herr := os.Getwd()
		must(herr)
		dir := filepath.Dir(filepath.Join(place.base, extra.Root))
		must(os.Chdir(dir))
		os.Setenv("PWD", dir)
		gen, err = chaff.ParseSchema(raw(root), po)
		must(os.Chdir(home))
		os.Setenv("PWD", home)
	default:
		po.RelativeTo = location(extra.Root)
		gen, err = chaff.ParseSchema(raw(root), po)
	}
	web.mu.Lock()
	opened()
	web.hook, web.log = nil, nil
	web.mu.Unlock()
	tr["asked"], tr["watched"] = asked, place.w != nil
	if err != nil {
		tr["parse"] = "error"
		res.Errors = append(res.Errors, err.Error())
		return
	}
	if gen.Metadata.Errors.HasErrors() {
		tr["reported"] = true
		for k, e := range gen.Metadata.Errors.CollectErrors() {
			res.Errors = append(res.Errors, fmt.Sprintf("%s: %s", k, e))
		}
	}
	raws := []json.RawMessage{}
	awaited := []*jsv.Schema{} // yet to be seen
	for _, s := range c.Cover {
		if v, err := decodeJSON(s); err == nil && !hasRef(v) {
			awaited = append(awaited, prefilter(v, "urn:cover", nil))
		}
	}
	r := rand.New(rand.NewSource(seed))
	seen := map[string]bool{}
	n := c.Samples
	if len(c.Cover) > 0 {
		n = max(n, 200)
	}
	for i := 0; i < n || len(awaited) > 0 && i < 8*n; i++ {
		opts := genOptions(c.Gen)
		if opts.Rand = randUtil(r, i); c.NoEdge {
			opts.Rand = crand.NewRandUtil(r.Int63())
		}
		data := raw(gen.Generate(opts))
		res.N++
		hit := false
		if seen[string(data)] || len(data) >= 60000 {
			continue
		}
		seen[string(data)] = true
		if len(awaited) > 0 {
			dec, err := decodeJSON(data)
			must(err)
			for k := len(awaited) - 1; k >= 0; k-- {
				if awaited[k] == nil || awaited[k].Validate(dec) == nil {
					hit = true
					awaited = append(awaited[:k], awaited[k+1:]...)
				}
			}
		}
		if i < n || hit {
			raws = append(raws, data)
		}
	}
	if n = 6; len(raws) > n && len(c.Cover) == 0 {
		raws = raws[:n]
	}
	res.Raw = raws
	tr["out"] = values(raws)
}
