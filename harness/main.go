// Command harness runs the real code of /repo on concrete inputs: one JSON request per line on stdin, one JSON answer
// per line on the original stdout.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strings"
	"unicode/utf8"

	"github.com/CrowdStrike/gql/cmd/linter/lexer"
	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/CrowdStrike/gql/utils"
	"github.com/vektah/gqlparser/v2/ast"
	uplexer "github.com/vektah/gqlparser/v2/lexer"
	"github.com/vektah/gqlparser/v2/parser"
)

type src struct{ Name, Text string }

type req struct {
	Op       string
	Old, New []src
	Text     string
	Hex      string
	Texts    []src
	Full     bool
	Files    []src
	Pattern  string
	Perm     []int
}

type M = map[string]interface{}

var valueType = reflect.TypeOf(&ast.Value{})
var posType = reflect.TypeOf(&ast.Position{})

// dump turns a parsed document into JSON
func dump(v reflect.Value, depth int) interface{} {
	if depth > 400 {
		panic("too deep")
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		if v.Type() == posType {
			p := v.Interface().(*ast.Position)
			n := ""
			if p.Src != nil {
				n = p.Src.Name
			}
			return M{"Line": p.Line, "Column": p.Column, "Src": M{"Name": n}}
		}
		d := dump(v.Elem(), depth+1)
		if v.Type() == valueType {
			d.(M)["_str"] = v.Interface().(*ast.Value).String()
		}
		return d
	case reflect.Struct:
		m := M{}
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Name == "ParentDefinition" || f.Name == "Definition" || f.Name == "ObjectDefinition" ||
				f.Name == "ExpectedType" || f.Name == "VariableDefinition" {
				continue
			}
			m[f.Name] = dump(v.Field(i), depth+1)
		}
		return m
	case reflect.Slice:
		l := make([]interface{}, v.Len())
		for i := range l {
			l[i] = dump(v.Index(i), depth+1)
		}
		return l
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int:
		return v.Int()
	default:
		return fmt.Sprint(v.Interface())
	}
}

func parse(ss []src) (*ast.SchemaDocument, error) {
	var sources []*ast.Source
	for _, s := range ss {
		sources = append(sources, &ast.Source{Name: s.Name, Input: s.Text})
	}
	d, err := parser.ParseSchemas(sources...)
	if err != nil {
		return nil, err
	}
	return d, nil
}

// guard runs f and reports a panic
func guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
			for _, l := range strings.Split(string(debug.Stack()), "\n") {
				if strings.Contains(l, "/repo/") {
					msg += " at " + strings.TrimSpace(l)
					break
				}
			}
		}
	}()
	f()
	return ""
}

// captured runs f with os.Stdout replaced
func captured(f func()) string {
	saved := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	os.Stdout = w
	ch := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		ch <- string(b)
	}()
	func() {
		defer func() { os.Stdout = saved; w.Close() }()
		f()
	}()
	s := <-ch
	r.Close()
	return s
}

func pos(p *ast.Position) interface{} {
	if p == nil {
		return nil
	}
	return dump(reflect.ValueOf(p), 0)
}

func changes(cs []*compare.Change) []M {
	l := []M{}
	for _, c := range cs {
		if c == nil {
			l = append(l, nil)
			continue
		}
		l = append(l, M{"type": string(c.GetChangeType()), "level": int(c.GetChangeCriticalityLevel()), "path": c.GetPath(),
			"message": c.GetMessage(), "pos": pos(c.GetPosition())})
	}
	return l
}

func cmp(q req) M {
	o, err := parse(q.Old)
	if err != nil {
		return M{"err": err.Error()}
	}
	n, err := parse(q.New)
	if err != nil {
		return M{"err": err.Error()}
	}
	od, nd := dump(reflect.ValueOf(o), 0), dump(reflect.ValueOf(n), 0)
	res := M{"old": od, "new": nd}
	var cs []*compare.Change
	p := guard(func() { cs = compare.FindChangesInSchemas(o, n) })
	if p != "" {
		res["panic"] = p
		return res
	}
	res["changes"] = changes(cs)
	check := func() {
		if !reflect.DeepEqual(od, dump(reflect.ValueOf(o), 0)) || !reflect.DeepEqual(nd, dump(reflect.ValueOf(n), 0)) {
			res["mutated"] = true
		}
	}
	if q.Full {
		p = guard(func() {
			index := map[*compare.Change]int{}
			for i, c := range cs {
				index[c] = i
			}
			groups := compare.GroupChanges(cs)
			g := M{}
			for k, l := range groups {
				ids := []int{}
				for _, c := range l {
					i, ok := index[c]
					if !ok {
						i = -1
					}
					ids = append(ids, i)
				}
				g[fmt.Sprint(int(k))] = ids
			}
			res["groups"] = g
			reports := []M{}
			for _, with := range []bool{true, false} {
				for lv, f := range map[int]func([]*compare.Change, bool) int{0: compare.ReportNonBreakingChanges, 1: compare.ReportDangerousChanges, 2: compare.ReportBreakingChanges} {
					in := append([]*compare.Change{}, groups[compare.Criticality(lv)]...)
					given := changes(in)
					count := 0
					out := captured(func() { count = f(in, with) })
					reports = append(reports, M{"level": lv, "with": with, "out": out, "count": count, "given": given})
				}
			}
			res["reports"] = reports
		})
		if p != "" {
			res["panic"] = p
		}
	}
	check()
	return res
}

func lint(q req) M {
	d, perr := parser.ParseSchema(&ast.Source{Name: "s", Input: q.Text})
	if perr != nil {
		return M{"err": perr.Error()}
	}
	before := dump(reflect.ValueOf(d), 0)
	res := M{"doc": before}
	rules := []M{}
	for _, r := range linter.AllTheRules {
		errs := []M{}
		var es linter.LintErrorsWithMetadata
		p := guard(func() {
			es = r.RuleFunction(d)
			for _, e := range es {
				errs = append(errs, M{"rule": string(e.Rule), "line": e.Line, "col": e.Column, "msg": e.Err.Error()})
			}
		})
		x := M{"name": string(r.Name), "errs": errs}
		if p != "" {
			x["panic"] = p
		}
		rules = append(rules, x)
	}
	res["rules"] = rules
	if !reflect.DeepEqual(before, dump(reflect.ValueOf(d), 0)) {
		res["mutated"] = true
	}
	return res
}

type tok struct {
	Kind             string
	Value            string
	Start, End       int
	Line, Column     int
	Err              string
}

// plain keeps texts that JSON cannot carry apart
func plain(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	return "hex " + hex.EncodeToString([]byte(s))
}

// lex runs the repository's lexer and the parser's own
func lex(q req) M {
	res := M{}
	if q.Hex != "" {
		b, _ := hex.DecodeString(q.Hex)
		q.Text = string(b)
	}
	limit := len(q.Text) + 10
	var mine, theirs []tok
	p := guard(func() {
		s := lexer.New(&ast.Source{Name: "s", Input: q.Text})
		for i := 0; i < limit; i++ {
			t, err := s.ReadToken()
			x := tok{t.Kind.Name(), plain(t.Value), t.Pos.Start, t.Pos.End, t.Pos.Line, t.Pos.Column, ""}
			if err != nil {
				x.Err = err.Error()
			}
			mine = append(mine, x)
			if err != nil || t.Kind == lexer.EOF {
				return
			}
		}
		res["endless"] = true
	})
	if p != "" {
		res["panic"] = p
	}
	p = guard(func() {
		s := uplexer.New(&ast.Source{Name: "s", Input: q.Text})
		for i := 0; i < limit; i++ {
			t, err := s.ReadToken()
			x := tok{t.Kind.Name(), plain(t.Value), t.Pos.Start, t.Pos.End, t.Pos.Line, t.Pos.Column, ""}
			if err != nil {
				x.Err = err.Error()
			}
			theirs = append(theirs, x)
			if err != nil || t.Kind == uplexer.EOF {
				return
			}
		}
	})
	if p != "" {
		res["uppanic"] = p
	}
	res["mine"], res["theirs"] = mine, theirs
	return res
}

// files writes the given files into a scratch directory and loads and parses them
func files(q req) M {
	dir, err := os.MkdirTemp("", "verif-files")
	if err != nil {
		return M{"err": err.Error()}
	}
	defer os.RemoveAll(dir)
	for _, f := range q.Files {
		p := filepath.Join(dir, f.Name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if strings.HasSuffix(f.Name, ".dir") {
			os.MkdirAll(p, 0o755)
			continue
		}
		if f.Text == "\x00dangling" {
			os.Symlink(filepath.Join(dir, "nowhere"), p)
			continue
		}
		if err := os.WriteFile(p, []byte(f.Text), 0o644); err != nil {
			return M{"err": err.Error()}
		}
	}
	res := M{}
	oracle(dir, q.Pattern, res)
	p := guard(func() {
		captured(func() {
			m, err := utils.ReadFiles(filepath.Join(dir, q.Pattern))
			if err != nil {
				res["readerr"] = err.Error()
				return
			}
			got := map[string]string{}
			for k, v := range m {
				got[strings.TrimPrefix(k, dir+"/")] = string(v)
			}
			res["got"] = got
			d, err := utils.ParseSchema(m)
			if err != nil {
				res["parseerr"] = err.Error()
				return
			}
			names := []string{}
			for _, x := range d.Definitions {
				names = append(names, x.Name+"@"+strings.TrimPrefix(x.Position.Src.Name, dir+"/"))
			}
			res["defs"] = names
		})
	})
	if p != "" {
		res["panic"] = p
	}
	return res
}

// oracle reads and parses the matching files by itself
func oracle(dir, pattern string, res M) {
	names, err := filepath.Glob(filepath.Join(dir, pattern))
	if err != nil {
		return
	}
	l := []M{}
	seen := map[string]bool{}
	var sources []*ast.Source
	for _, n := range names {
		if seen[n] {
			continue
		}
		seen[n] = true
		b, err := os.ReadFile(n)
		short := strings.TrimPrefix(n, dir+"/")
		l = append(l, M{"name": short, "ok": err == nil, "text": string(b)})
		sources = append(sources, &ast.Source{Name: short, Input: string(b)})
	}
	res["matches"] = l
	if d, err := parser.ParseSchemas(sources...); err != nil {
		res["wantparseerr"] = err.Error()
	} else {
		names := []string{}
		for _, x := range d.Definitions {
			names = append(names, x.Name+"@"+x.Position.Src.Name)
		}
		res["wantdefs"] = names
	}
}

func main() {
	out := bufio.NewWriter(os.Stdout)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			return
		}
		var q req
		var res M
		if e := json.Unmarshal(line, &q); e != nil {
			res = M{"err": "bad request: " + e.Error()}
		} else {
			if p := guard(func() {
				switch q.Op {
				case "cmp":
					res = cmp(q)
				case "lint":
					res = lint(q)
				case "lex":
					res = lex(q)
				case "files":
					res = files(q)
				case "ping":
					res = M{"ok": true}
				}
			}); p != "" {
				res = M{"err": "harness panic: " + p}
			}
		}
		b, _ := json.Marshal(res)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
