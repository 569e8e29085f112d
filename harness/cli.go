package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"
)

// Runs of the command line tool (CliCases), in a directory of their own.
func init() {
	blank := func(c *Case) map[string]any {
		return map[string]any{"c": S{"mode": "run", "input": "file", "schema": "good", "out": "", "format": false, "hosts": []any{}, "insecure": false, "outside": false, "paths": []any{}},
			"limit": false, "flag": "", "n": 0, "count": 0, "refused": false, "exit": 99, "stdout": "none", "file": "absent", "stderr": false,
			"value": S{"kind": "other", "l": []any{}}, "pretty": false, "requests": 0}
	}
	runners["cli"] = runner{"CliTrace", blank, runCli}
	runners["clilimit"] = runner{"CliTrace", blank, runCliLimit}
	properties["C22"] = property{cases: func(g *G, tier string) []*Case { return nil }}
}

type cliRun struct {
	exit           int
	stdout, stderr []byte
}

func chaffCli(dir string, stdin []byte, args ...string) cliRun {
	cmd := exec.Command(os.Getenv("VERIF_CLI"), args...)
	cmd.Dir = dir
	if stdin != nil {
		cmd.Stdin = bytes.NewReader(stdin)
	}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	must(cmd.Start())
	t := time.AfterFunc(40*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	if _, is := err.(*exec.ExitError); err != nil && !is {
		must(err)
	}
	return cliRun{cmd.ProcessState.ExitCode(), o.Bytes(), e.Bytes()}
}

func cliValue(b []byte, tr map[string]any) string {
	if len(b) == 0 {
		return "none"
	}
	v, err := decodeJSON(b)
	if err != nil {
		return "other"
	}
	val := S{"kind": "other", "l": []any{}}
	if l, ok := v.([]any); ok {
		val["kind"], val["l"] = "list", []any{}
		for _, x := range l {
			n, ok := x.(json.Number)
			if !ok {
				val["kind"] = "other"
				break
			}
			i, err := n.Int64()
			if err != nil {
				i = -1
			}
			val["l"] = append(val["l"].([]any), i)
		}
	} else if v == "secret" {
		val["kind"] = "secret"
	}
	tr["value"] = val
	tr["pretty"] = bytes.Contains(bytes.TrimSpace(b), []byte("\n"))
	return "value"
}

func runCli(c *Case, seed int64, res *Result, tr map[string]any) {
	var e struct {
		Mode, Input, Schema, Out  string
		Hosts, Paths              []string
		Format, Insecure, Outside bool
	}
	must(json.Unmarshal(c.Extra, &e))
	tr["c"] = c.Extra
	top, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "cli-")
	must(err)
	defer os.RemoveAll(top)
	top, err = filepath.EvalSymlinks(top)
	must(err)
	in, out := filepath.Join(top, "in"), filepath.Join(top, "out")
	must(os.Mkdir(in, 0o755))
	must(os.Mkdir(out, 0o755))
	must(os.Mkdir(filepath.Join(top, "other"), 0o755))
	secret := []byte(`{"const": "secret"}`)
	must(os.WriteFile(filepath.Join(in, "doc.json"), secret, 0o644))
	must(os.WriteFile(filepath.Join(out, "doc.json"), secret, 0o644))
	host := ""
	var hits atomic.Int64
	if e.Schema == "httpRef" {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			hits.Add(1)
			w.Write(secret)
		}))
		defer srv.Close()
		host = strings.TrimPrefix(srv.URL, "http://")
	}
	schema := map[string]string{
		"good":      `{"type": "array", "minItems": 2, "maxItems": 4, "items": {"type": "integer", "minimum": 1, "maximum": 5}}`,
		"malformed": `{"type": "array", "minItems": 2,`,
		"refused":   `{"type": "integer", "minimum": 3, "maximum": 2}`,
		"nested":    `{"type": "object", "properties": {"a": {"type": "integer", "minimum": 3, "maximum": 2}}}`,
		"inRef":     `{"$ref": "doc.json"}`,
		"outRef":    `{"$ref": "file://` + out + `/doc.json"}`,
		"httpRef":   `{"$ref": "http://` + host + `/doc.json"}`,
	}[e.Schema]
	args := []string{}
	var stdin []byte
	switch e.Input {
	case "file":
		must(os.WriteFile(filepath.Join(in, "schema.json"), []byte(schema), 0o644))
		args = append(args, "--file", "schema.json")
	case "stdin":
		stdin = []byte(schema)
	case "both":
		must(os.WriteFile(filepath.Join(in, "schema.json"), []byte(schema), 0o644))
		args, stdin = append(args, "-file=schema.json"), []byte("{")
	case "missing":
		args = append(args, "--file", "schema.json")
		stdin = []byte(schema)
	}
	switch e.Mode {
	case "help", "version":
		args = append(args, "--"+e.Mode)
	case "unknown":
		args = append([]string{"--no-such-flag"}, args...)
	}
	target, kept := "", []byte(`"what was there before"`)
	switch e.Out {
	case "":
	case "dir":
		target = filepath.Join(in, "result")
		must(os.Mkdir(target, 0o755))
	case "lost":
		target = filepath.Join(in, "lost", "result.json")
	case "existing":
		target = filepath.Join(in, "result.json")
		must(os.WriteFile(target, kept, 0o644))
	case "link", "dangling":
		target = filepath.Join(in, "result.json")
		must(os.Symlink(filepath.Join(out, "target.json"), target))
		if e.Out == "link" {
			must(os.WriteFile(filepath.Join(out, "target.json"), kept, 0o644))
		}
	default:
		target = filepath.Join(in, "result.json")
	}
	if target != "" {
		args = append(args, "--output", target)
	}
	flag := func(on bool, name string) {
		if on {
			args = append(args, "--"+name)
		}
	}
	flag(e.Format, "format")
	flag(e.Insecure, "allow-insecure")
	flag(e.Outside, "allow-outside-cwd")
	if host == "" {
		host = "127.0.0.1:9"
	}
	list := func(name string, l []string, means map[string]string) {
		if len(l) == 0 {
			return
		}
		r := []string{}
		for _, x := range l {
			r = append(r, means[x])
		}
		args = append(args, "--"+name, strings.Join(r, ","))
	}
	list("allowed-hosts", e.Hosts, map[string]string{"other": "localhost:1", "host": host})
	list("allowed-paths", e.Paths, map[string]string{"in": in, "out": out, "other": filepath.Join(top, "other")})
	r := chaffCli(in, stdin, args...)
	tr["exit"], tr["stderr"], tr["requests"] = r.exit, len(r.stderr) > 0, hits.Load()
	if e.Mode == "run" || len(r.stdout) == 0 {
		tr["stdout"] = cliValue(r.stdout, tr)
	} else {
		tr["stdout"] = "text"
	}
	tr["file"] = "absent"
	if target != "" {
		info, err := os.Stat(target)
		switch {
		case err != nil:
		case info.IsDir():
			l, err := os.ReadDir(target)
			must(err)
			if tr["file"] = "kept"; len(l) > 0 {
				tr["file"] = "other"
			}
		default:
			b, err := os.ReadFile(target)
			must(err)
			if bytes.Equal(b, kept) {
				tr["file"] = "kept"
			} else if tr["file"] = cliValue(b, tr); tr["file"] == "none" {
				tr["file"] = "other"
			}
		}
	}
	c.Schema = raw(schema)
	res.N = 1
	res.Raw = append(res.Raw, raw(fmt.Sprintf("%v exit %d: %s %s", args, r.exit, cut(r.stdout), cut(r.stderr))))
}

func cut(b []byte) string { return string(b[:min(len(b), 200)]) }

func runCliLimit(c *Case, seed int64, res *Result, tr map[string]any) {
	var e struct {
		Flag string
		N    int
	}
	must(json.Unmarshal(c.Extra, &e))
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "cli-")
	must(err)
	defer os.RemoveAll(dir)
	schema, name, args := "", "", []string{}
	wide := func(k ...string) {
		for _, f := range k {
			args = append(args, "--"+f+"-generation-steps", "100000000")
		}
	}
	switch e.Flag {
	case "depth":
		schema, name = `{"type": "array", "minItems": 1, "maxItems": 1, "items": {"$ref": "#"}}`, "maximum-reference-depth"
		args = append(args, "--bypass-cyclic-reference-check")
	case "cycles":
		schema = `{"type": "array", "minItems": 1, "maxItems": 1, "items": {"$ref": "#"}}`
		if e.N > 0 {
			args = append(args, "--bypass-cyclic-reference-check")
		}
	case "steps":
		schema, name = `{"type": "array", "minItems": 200, "maxItems": 201, "items": {"type": "array", "items": {"const": 1}}}`, "maximum-generation-steps"
	case "cutoff":
		schema, name = `{"type": "array", "minItems": 200, "maxItems": 201, "items": {"type": "array", "items": {"const": 1}, "minItems": 1, "maxItems": 1}}`, "cutoff-generation-steps"
	case "if":
		schema, name = `{"type": "array", "minItems": 100, "maxItems": 101, "items": {"type": "integer", "minimum": 0, "maximum": 40, "if": {"minimum": 1}, "then": {"maximum": 0}}}`, "maximum-if-attempts"
		wide("maximum", "cutoff")
	case "oneOf":
		schema, name = `{"type": "array", "minItems": 100, "maxItems": 101, "items": {"oneOf": [{"type": "integer", "minimum": 0, "maximum": 20}, {"type": "integer", "minimum": 1, "maximum": 20}]}}`, "maximum-oneof-attempts"
		wide("maximum", "cutoff")
	}
	if e.N > 0 && name != "" {
		args = append(args, "--"+name, fmt.Sprint(e.N))
	}
	r := chaffCli(dir, []byte(schema), args...)
	tr["limit"], tr["flag"], tr["n"], tr["exit"] = true, e.Flag, e.N, r.exit
	v, err := decodeJSON(r.stdout)
	if err != nil {
		tr["exit"] = 99
		return
	}
	count := 0
	l, _ := v.([]any)
	switch e.Flag {
	case "depth", "cycles":
		for x, ok := v.([]any); ok && len(x) == 1; x, ok = x[0].([]any) {
			count++
			if s, is := x[0].(string); is {
				tr["refused"] = strings.Contains(strings.ToLower(strings.SplitN(s, "#", 2)[0]), "cyclic")
			}
		}
	case "steps":
		for _, x := range l {
			if a, ok := x.([]any); ok && len(a) > 0 {
				count++
			}
		}
	case "cutoff":
		for _, x := range l {
			if _, ok := x.([]any); ok {
				count++
			}
		}
	default:
		for _, x := range l {
			if _, ok := x.(json.Number); ok {
				count++
			}
		}
	}
	tr["count"] = count
	c.Schema = raw(schema)
	res.N = 1
	res.Raw = append(res.Raw, raw(fmt.Sprintf("%v exit %d: %s %s", args, r.exit, cut(r.stdout), cut(r.stderr))))
}
