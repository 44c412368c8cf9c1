package p27

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"reflect"
	"strings"
	"testing"

	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/kb"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

func picker(c *h.C) func() int {
	return func() int { return rapid.IntRange(0, 2).Draw(c.T, "way") }
}

// value draws something that fits a schema.
func value(t *rapid.T, s map[string]any, name string) any {
	if e, ok := s["enum"].([]any); ok {
		return rapid.SampledFrom(e).Draw(t, name)
	}
	switch s["type"] {
	case "string":
		return rapid.SampledFrom([]string{"k1", "m1", "amber birch", "global", "it's %", "日本"}).Draw(t, name)
	case "integer":
		return rapid.IntRange(-2, 9).Draw(t, name)
	case "number":
		return float64(rapid.IntRange(-4, 40).Draw(t, name)) / 8
	case "boolean":
		return rapid.Bool().Draw(t, name)
	case "array":
		out := []any{}
		for i := rapid.IntRange(0, 3).Draw(t, name+"Len"); i > 0; i-- {
			out = append(out, value(t, s["items"].(map[string]any), name))
		}
		return out
	case "object":
		p, ok := s["properties"].(map[string]any)
		out := map[string]any{}
		if !ok {
			extra := s["additionalProperties"]
			for i := rapid.IntRange(0, 2).Draw(t, name+"Len"); i > 0; i-- {
				k := rapid.SampledFrom([]string{"topic", "it's", "日本"}).Draw(t, name+"Key")
				if es, ok := extra.(map[string]any); ok {
					out[k] = value(t, es, name)
				} else if extra == true {
					out[k] = rapid.SampledFrom([]any{"x", 1.5, true, nil, []any{"a"}}).Draw(t, name)
				}
			}
			return out
		}
		var names []string
		for n := range p {
			names = append(names, n)
		}
		for _, n := range h.Sorted(names) {
			if required(s, n) || rapid.Bool().Draw(t, "has "+n) {
				out[n] = value(t, p[n].(map[string]any), n)
			}
		}
		return out
	}
	panic(fmt.Sprintf("schema of %s: %v", name, s))
}

func required(s map[string]any, name string) bool {
	for _, r := range s["required"].([]string) {
		if r == name {
			return true
		}
	}
	return false
}

// landed checks that every argument arrived in the field of its name.
func landed(c *h.C, what string, args any, v reflect.Value) {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			c.Fatalf("%s: argument %v was dropped", what, args)
		}
		v = v.Elem()
	}
	if v.IsValid() && v.Kind() == reflect.Interface {
		if got := kb.JS(v.Interface()); got != kb.JS(args) {
			c.Fatalf("%s: %v became %s", what, args, got)
		}
		return
	}
	switch a := args.(type) {
	case map[string]any:
		if v.Kind() == reflect.Map {
			if v.Len() != len(a) {
				c.Fatalf("%s: %v became %v", what, a, v.Interface())
			}
			for k, x := range a {
				landed(c, what+"."+k, x, v.MapIndex(reflect.ValueOf(k)))
			}
			return
		}
		for k, x := range a {
			i, ok := fieldOf(v.Type(), k)
			if !ok {
				c.Fatalf("%s: the schema offers %q, which the request does not have", what, k)
			}
			landed(c, what+"."+k, x, v.Field(i))
		}
		for i := 0; i < v.NumField(); i++ {
			if _, ok := a[snake(v.Type().Field(i).Name)]; !ok && !v.Field(i).IsZero() {
				c.Fatalf("%s: %s was set by another argument", what, v.Type().Field(i).Name)
			}
		}
	case []any:
		if v.Len() != len(a) {
			c.Fatalf("%s: %v became %v", what, a, v.Interface())
		}
		for i := range a {
			landed(c, what, a[i], v.Index(i))
		}
	default:
		if !v.IsValid() {
			c.Fatalf("%s: %v was lost", what, a)
		}
		if got := fmt.Sprint(v.Interface()); got != fmt.Sprint(a) {
			c.Fatalf("%s: %v became %v", what, a, got)
		}
	}
}

// Arguments that fit a tool's schema arrive; the same tools are offered everywhere.
func TestSchemas(t *testing.T) {
	h.Check(t, h.Opt{Quick: 150, Thorough: 4000}, func(c *h.C) {
		d := kb.Open(c, 0, 0)
		r := connect(c, d, picker(c))
		list, err := r.mcp.ListTools(d.Ctx, nil)
		c.Must(err, "list tools")
		served := map[string]bool{}
		for _, x := range list.Tools {
			served[x.Name] = true
		}
		defs := r.box.Definitions()
		if len(served) != len(defs) {
			c.Fatalf("the server offers %d tools, the toolbox %d", len(served), len(defs))
		}
		def := rapid.SampledFrom(defs).Draw(c.T, "tool")
		if !served[def.Name] || requests[def.Name] == nil {
			c.Fatalf("tool %s is not offered by the server", def.Name)
		}
		req := requests[def.Name]()
		args := value(c.T, def.InputSchema, def.Name).(map[string]any)
		b, _ := json.Marshal(args)
		c.Op("%s %s", def.Name, b)
		if err := json.Unmarshal(b, req); err != nil {
			c.Fatalf("%s %s fits the schema and is refused: %v", def.Name, b, err)
		}
		landed(c, def.Name, args, reflect.ValueOf(req))
		rt := reflect.TypeOf(req).Elem()
		for i := 0; i < rt.NumField(); i++ {
			if _, ok := def.InputSchema["properties"].(map[string]any)[snake(rt.Field(i).Name)]; !ok {
				c.Fatalf("the schema of %s lacks %s", def.Name, snake(rt.Field(i).Name))
			}
		}
		if _, err := r.box.Call(d.Ctx, def.Name, b); err != nil && strings.Contains(err.Error(), "decode") {
			c.Fatalf("%s %s fits the schema and is refused: %v", def.Name, b, err)
		}
		res, err := r.raw(def.Name, b)
		h.CheckInfra(err)
		c.Must(err, "the server failed on %s %s", def.Name, b)
		if res.IsError {
			if s := kb.JS(res.Content); strings.Contains(s, "validating") {
				c.Fatalf("%s %s fits the schema and the server refuses it: %s", def.Name, b, s)
			}
		}
		if len(args) > len(r.required[def.Name]) {
			c.NonTrivial()
		}
	})
}

// broken damages arguments so that the tool has to refuse them.
func broken(c *h.C, r *routed) (string, json.RawMessage, bool) {
	defs := r.box.Definitions()
	def := rapid.SampledFrom(defs).Draw(c.T, "tool")
	args := value(c.T, def.InputSchema, def.Name).(map[string]any)
	props := def.InputSchema["properties"].(map[string]any)
	switch rapid.IntRange(0, 3).Draw(c.T, "damage") {
	case 0: // a required text is missing or blank
		var texts []string
		for n := range r.required[def.Name] {
			if props[n].(map[string]any)["type"] == "string" {
				texts = append(texts, n)
			}
		}
		if len(texts) > 0 {
			n := rapid.SampledFrom(h.Sorted(texts)).Draw(c.T, "missing")
			delete(args, n)
			if n == "query" { // other words may stand in for it
				delete(args, "keywords")
				delete(args, "alternate_queries")
			}
			if rapid.Bool().Draw(c.T, "blank") {
				args[n] = ""
			}
			b, _ := json.Marshal(args)
			return def.Name, b, true
		}
		fallthrough
	case 1: // an argument of another type
		var names []string
		for n := range args {
			names = append(names, n)
		}
		n := rapid.SampledFrom(h.Sorted(names)).Draw(c.T, "wrong")
		if props[n].(map[string]any)["type"] == "object" {
			args[n] = []any{1}
		} else {
			args[n] = map[string]any{"x": 1}
		}
		b, _ := json.Marshal(args)
		return def.Name, b, true
	case 2: // cut off
		b, _ := json.Marshal(args)
		return def.Name, b[:rapid.IntRange(0, len(b)-1).Draw(c.T, "cut")], false
	}
	b, _ := json.Marshal(args)
	return rapid.SampledFrom([]string{"", "no_such_tool", def.Name + " ", strings.ToUpper(def.Name)}).Draw(c.T, "name"), b, true
}

func refuse(c *h.C, r *routed) {
	name, b, wire := broken(c, r)
	c.Op("refuse %s %s", name, b)
	if out, err := r.box.Call(context.Background(), name, b); err == nil {
		c.Fatalf("Call(%q, %s) was accepted: %s", name, b, canon(out))
	}
	if wire {
		if res, err := r.raw(name, b); err == nil && !res.IsError {
			c.Fatalf("the server accepted %q with %s: %s", name, b, kb.JS(res.StructuredContent))
		}
	}
	c.Class("refused")
}

// Through whichever entrance the calls come, the knowledge is what the model says.
func TestKnowledgeTools(t *testing.T) {
	h.Check(t, h.Opt{Quick: 60, Thorough: 2000, Steps: 14}, func(c *h.C) {
		k := kb.NewKnow(c, rapid.SampledFrom([]int{0, 5}).Draw(c.T, "dim"))
		var r *routed
		k.Use(func(d *kb.DB) kb.API { r = connect(c, d, picker(c)); return r })
		c.T.Repeat(map[string]func(*rapid.T){
			"save":     k.Save,
			"save2":    k.Save,
			"update":   k.Update,
			"delete":   k.Delete,
			"ingest":   k.Ingest,
			"entities": k.MoreEntities,
			"search":   k.Search,
			"text":     k.SearchText,
			"linked":   k.SearchLinked,
			"expand":   k.Expand,
			"fetch":    k.Fetch,
			"pack":     k.Pack,
			"refuse":   func(*rapid.T) { refuse(c, r) },
			"":         func(*rapid.T) { k.CheckAll() },
		})
		if k.Replaced+k.Removed > 0 && len(k.Items) > 0 {
			c.NonTrivial()
		}
	})
}

// Through whichever entrance the calls come, the memories are what the model says.
func TestMemoryTools(t *testing.T) {
	h.Check(t, h.Opt{Quick: 60, Thorough: 2000, Steps: 18}, func(c *h.C) {
		e := kb.NewMems(c)
		var r *routed
		e.Use(func(d *kb.DB) kb.API { r = connect(c, d, picker(c)); return r })
		ttls := []int{0, 0, 3600, 86400, -5, 1 << 31, 20_000_000_000}
		alive := func(int) bool { return true }
		c.T.Repeat(map[string]func(*rapid.T){
			"save":    func(t *rapid.T) { e.Save(t, ttls) },
			"save2":   func(t *rapid.T) { e.Save(t, ttls) },
			"update":  func(t *rapid.T) { e.Update(t, ttls) },
			"delete":  e.Delete,
			"search":  func(t *rapid.T) { e.Search(t, alive) },
			"search2": func(t *rapid.T) { e.Search(t, alive) },
			"refuse":  func(*rapid.T) { refuse(c, r) },
			"":        func(*rapid.T) { e.CheckAll(kb.MemIDs) },
		})
	})
}
