package p34

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"strings"
	"testing"

	sr "github.com/liliang-cn/cortexdb/v2/pkg/semantic-router"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

var bg = context.Background()

// embedder gives the texts of the function, those of another one and all others three directions.
type embedder struct{ near, other map[string]bool }

func (e *embedder) Embed(_ context.Context, text string) ([]float32, error) {
	if e.near[text] {
		return []float32{1, 0, 0}, nil
	}
	if e.other[text] {
		return []float32{0, 1, 0}, nil
	}
	return []float32{0, 0, 1}, nil
}

func (e *embedder) EmbedBatch(ctx context.Context, texts []string) ([][]float32, error) {
	var out [][]float32
	for _, x := range texts {
		v, _ := e.Embed(ctx, x)
		out = append(out, v)
	}
	return out, nil
}

func (e *embedder) Dimensions() int { return 3 }

// ---- functions

var params = []string{"city", "amount", "c++", "price($)", "a.b", "x*", "[q]", "数量", "Unit"}

func TestFunctions(t *testing.T) {
	h.Check(t, h.Opt{Quick: 3000, Thorough: 150000}, func(c *h.C) {
		schema := &sr.FunctionSchema{Name: rapid.SampledFrom([]string{"f", "get_weather"}).Draw(c.T, "function"), Parameters: map[string]*sr.ParameterSchema{}}
		called := 0
		var passed map[string]any
		var herr error
		if rapid.IntRange(0, 4).Draw(c.T, "handler fails") == 0 {
			herr = errors.New("boom")
		}
		schema.Handler = func(_ context.Context, p map[string]any) (any, error) {
			called++
			passed = p
			return len(p), herr
		}
		want := map[string]any{}
		missing := map[string]bool{}
		var parts []string
		ext := sr.NewRegexExtractor()
		for _, p := range rapid.SliceOfNDistinct(rapid.SampledFrom(params), 0, 4, rapid.ID[string]).Draw(c.T, "parameters") {
			s := &sr.ParameterSchema{Type: rapid.SampledFrom([]string{"string", "integer", "number", "boolean"}).Draw(c.T, "type"), Required: rapid.Bool().Draw(c.T, "required")}
			if rapid.Bool().Draw(c.T, "described") {
				s.Description = rapid.SampledFrom([]string{"(optional)", "how+many**", "what? [unclosed", "plain words"}).Draw(c.T, "description")
			}
			listed := rapid.IntRange(0, 3).Draw(c.T, "listed as required") == 0
			if listed {
				schema.Required = append(schema.Required, p)
			}
			schema.Parameters[p] = s
			def := rapid.IntRange(0, 2).Draw(c.T, "default") == 0
			if def {
				s.Default = map[string]any{"string": "dflt", "integer": 7, "number": 1.5, "boolean": true}[s.Type]
			}
			how := rapid.SampledFrom([]string{"absent", "named", "named", "pattern", "broken pattern", "unsuitable", "described", "enum"}).Draw(c.T, "how")
			switch how {
			case "enum":
				if s.Type != "string" {
					break
				}
				for j := 0; j < 3; j++ {
					s.Enum = append(s.Enum, fmt.Sprintf("Opt%d-%d", len(schema.Parameters), j))
				}
				if rapid.Bool().Draw(c.T, "chosen") {
					v := rapid.SampledFrom(s.Enum).Draw(c.T, "value").(string)
					parts = append(parts, "please "+rapid.SampledFrom([]string{v, strings.ToUpper(v), strings.ToLower(v)}).Draw(c.T, "spelling"))
					want[p] = v
					continue
				}
			case "named", "pattern", "described":
				var v any
				var str string
				switch s.Type {
				case "string":
					str = rapid.SampledFrom([]string{"Paris", "AB12", "東京", "low", "example.com"}).Draw(c.T, "value")
					v = str
				case "integer":
					n := rapid.IntRange(-500, 500).Draw(c.T, "value")
					v, str = n, fmt.Sprint(n)
				case "number":
					n := float64(rapid.IntRange(-500, 500).Draw(c.T, "value")) / 4
					v, str = n, fmt.Sprint(n)
				case "boolean":
					str = rapid.SampledFrom([]string{"true", "false", "yes", "no"}).Draw(c.T, "value")
					v = str == "true" || str == "yes"
				}
				if how == "described" {
					word := fmt.Sprintf("kw%d", len(schema.Parameters))
					s.Description = "Some " + word + " (words)"
					parts = append(parts, word+" "+str)
				} else if how == "named" {
					// the name as it is or in upper case, then the value, perhaps quoted
					n := rapid.SampledFrom([]string{p, strings.ToUpper(p)}).Draw(c.T, "name")
					if rapid.Bool().Draw(c.T, "quoted") {
						str = `"` + str + `"`
					}
					parts = append(parts, n+" "+str)
				} else {
					tag := fmt.Sprintf("zz%dzz", len(parts))
					ext.RegisterPattern(schema.Name, p, tag+`=([^\s,]+)`)
					parts = append(parts, tag+"="+str)
				}
				want[p] = v
				continue
			case "broken pattern":
				ext.RegisterPattern(schema.Name, p, "([")
			case "unsuitable":
				if s.Type == "integer" || s.Type == "number" {
					parts = append(parts, p+" soon")
				}
			}
			if def {
				want[p] = s.Default
			} else if s.Required || listed {
				missing[p] = true
			}
		}
		text := strings.Join(parts, ", ")
		js, err := schema.ToJSON()
		c.Must(err, "ToJSON")
		c.Op("extract from %q by %s", text, js)
		if back, err := sr.ParseFunctionSchema(js); err != nil {
			c.Fatalf("ParseFunctionSchema: %v", err)
		} else if again, err := back.ToJSON(); err != nil || again != js {
			c.Fatalf("the schema comes back as %s", again)
		}
		got, miss, err := ext.Extract(bg, text, schema)
		c.Must(err, "Extract")
		check := func(got map[string]any, miss []string) {
			if len(got) != len(want) {
				c.Fatalf("parameters %v, want %v", got, want)
			}
			for p, v := range want {
				if got[p] != v {
					c.Fatalf("%s is %#v, want %#v", p, got[p], v)
				}
			}
			if len(miss) != len(missing) {
				c.Fatalf("missing %q, want %v", miss, missing)
			}
			for _, p := range miss {
				if !missing[p] {
					c.Fatalf("missing %q, want %v", miss, missing)
				}
			}
		}
		check(got, miss)
		if len(want) > 0 && len(schema.Parameters) > 1 {
			c.NonTrivial()
		}

		// the same through a router
		em := &embedder{near: map[string]bool{text: true, "t0": true}, other: map[string]bool{"u0": true, "u1": true}}
		base, err := sr.NewRouter(em, sr.WithThreshold(0.5))
		c.Must(err, "NewRouter")
		fr := sr.NewFunctionRouter(base)
		schema.Extractor = ext
		name := rapid.SampledFrom([]string{"f", "get_weather", "route"}).Draw(c.T, "route name")
		rf := sr.CreateRouteWithFunction(name, []string{"t0"}, schema)
		c.Must(base.Add(rf.Route), "Add")
		c.Must(fr.Add(rf), "Add")
		called2 := 0
		rf2 := sr.CreateRouteWithFunction("other route", []string{"u0"}, &sr.FunctionSchema{Name: "other", Handler: func(context.Context, map[string]any) (any, error) { called2++; return 0, nil }})
		c.Must(base.Add(rf2.Route), "Add")
		c.Must(fr.Add(rf2), "Add")
		if call, err := fr.Route(bg, "elsewhere"); err != nil || call != nil {
			c.Fatalf("a text that matches no function gives %+v, %v", call, err)
		}
		if call, err := fr.Route(bg, "u1"); err != nil || call == nil || call.Name != "other" || !call.Complete || len(call.Arguments) != 0 {
			c.Fatalf("the other function: %+v, %v", call, err)
		}
		if text == "" {
			return
		}
		c.Op("route through %q", name)
		call, err := fr.Route(bg, text)
		c.Must(err, "Route")
		if call == nil || call.Name != schema.Name || call.Complete != (len(missing) == 0) {
			c.Fatalf("call %+v, missing %v", call, missing)
		}
		check(call.Arguments, call.Missing)
		res, err := call.Execute(bg)
		if len(missing) > 0 {
			if err == nil || called > 0 {
				c.Fatalf("an incomplete call is executed: %v", res)
			}
			return
		}
		if called != 1 || called2 != 0 || err != herr || herr == nil && res != len(want) {
			c.Fatalf("executed %d times with %v, %v", called, res, err)
		}
		check(passed, nil)
	})
}

// No text, name or description makes the extraction panic or a required parameter vanish.
func TestExtractAnything(t *testing.T) {
	h.Check(t, h.Opt{Quick: 3000, Thorough: 200000}, func(c *h.C) {
		piece := rapid.OneOf(rapid.SampledFrom([]string{"(", "[", "*", "+?", "\\", "{1", "city", "5", ".", "\"", "日", "\xff", "|", "^", "$"}), rapid.StringN(0, 6, -1))
		str := func(label string) string {
			return strings.Join(rapid.SliceOfN(piece, 0, 5).Draw(c.T, label), rapid.SampledFrom([]string{"", " "}).Draw(c.T, "separator"))
		}
		schema := &sr.FunctionSchema{Name: "f", Parameters: map[string]*sr.ParameterSchema{}}
		for i := rapid.IntRange(1, 3).Draw(c.T, "parameters"); i > 0; i-- {
			s := &sr.ParameterSchema{Type: rapid.SampledFrom([]string{"string", "integer", "number", "boolean", "array", "object", ""}).Draw(c.T, "type"), Description: str("description"), Required: rapid.Bool().Draw(c.T, "required")}
			if rapid.Bool().Draw(c.T, "enum") {
				s.Enum = []any{str("enum"), 5}
			}
			schema.Parameters[str("name")] = s
		}
		text := str("text")
		for p, s := range schema.Parameters {
			if rapid.Bool().Draw(c.T, "mentioned") {
				text += " " + p + " " + rapid.SampledFrom([]string{"5", "x", "", s.Description}).Draw(c.T, "value")
			}
		}
		js, _ := json.Marshal(schema)
		c.Op("extract from %q by %s", text, js)
		got, miss, err := sr.NewRegexExtractor().Extract(bg, text, schema)
		c.Must(err, "Extract")
		in := map[string]bool{}
		for _, p := range miss {
			in[p] = true
			if schema.Parameters[p] == nil || !schema.Parameters[p].Required {
				c.Fatalf("%q is reported missing", p)
			}
		}
		for p, s := range schema.Parameters {
			v, ok := got[p]
			if s.Required && ok == in[p] {
				c.Fatalf("required %q: found %v, missing %v", p, ok, in[p])
			}
			if !ok {
				continue
			}
			c.NonTrivial()
			fits := true
			switch s.Type {
			case "integer":
				_, fits = v.(int)
			case "number":
				_, fits = v.(float64)
			case "boolean":
				_, fits = v.(bool)
			case "string":
				_, fits = v.(string)
			case "array":
				_, fits = v.([]string)
			}
			if !fits {
				c.Fatalf("%q of type %s is %#v", p, s.Type, v)
			}
		}
		for p := range got {
			if schema.Parameters[p] == nil {
				c.Fatalf("%q is no parameter", p)
			}
		}
	})
}
