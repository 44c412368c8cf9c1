// Package p27 checks that the tool surface is one and the same through every entrance.
package p27

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"
	"unicode"

	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
	"github.com/liliang-cn/cortexdb/v2/verifharness/h"
	"github.com/liliang-cn/cortexdb/v2/verifharness/kb"
	"github.com/modelcontextprotocol/go-sdk/mcp"
)

// snake is the documented argument name of a field.
func snake(field string) string {
	for _, w := range []string{"IDs", "ID", "TTL", "URL"} {
		field = strings.ReplaceAll(field, w, w[:1]+strings.ToLower(w[1:]))
	}
	var b strings.Builder
	for i, r := range field {
		if unicode.IsUpper(r) && i > 0 {
			b.WriteByte('_')
		}
		b.WriteRune(unicode.ToLower(r))
	}
	return b.String()
}

// encode writes a request as arguments, by the documented names rather than by the struct's tags.
func encode(v reflect.Value, keep map[string]bool) any {
	switch v.Kind() {
	case reflect.Ptr:
		return encode(v.Elem(), nil)
	case reflect.Struct:
		out := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			name := snake(v.Type().Field(i).Name)
			f := v.Field(i)
			if f.IsZero() && !keep[name] {
				continue
			}
			out[name] = encode(f, nil)
		}
		return out
	case reflect.Slice:
		out := []any{}
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if e.Kind() == reflect.Struct { // required names of the elements
				m := encode(e, map[string]bool{"name": true, "from": true, "to": true}).(map[string]any)
				t := e.Type()
				for k := range m {
					if _, ok := fieldOf(t, k); !ok {
						delete(m, k)
					}
				}
				out = append(out, m)
				continue
			}
			out = append(out, encode(e, nil))
		}
		return out
	}
	return v.Interface()
}

func fieldOf(t reflect.Type, name string) (int, bool) {
	for i := 0; i < t.NumField(); i++ {
		if n := t.Field(i).Name; snake(n) == name || n == name {
			return i, true
		}
	}
	return 0, false
}

// decode fills a typed value from a structured answer, again by name.
func decode(j any, v reflect.Value) error {
	if j == nil {
		return nil
	}
	switch v.Interface().(type) {
	case time.Time:
		s, _ := j.(string)
		t, err := time.Parse(time.RFC3339Nano, s)
		v.Set(reflect.ValueOf(t))
		return err
	}
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		return decode(j, v.Elem())
	case reflect.Struct:
		m, ok := j.(map[string]any)
		if !ok {
			return fmt.Errorf("%v where an object is expected", j)
		}
		for k, x := range m {
			i, ok := fieldOf(v.Type(), k)
			if !ok {
				return fmt.Errorf("unexpected member %q", k)
			}
			if err := decode(x, v.Field(i)); err != nil {
				return fmt.Errorf("%s: %w", k, err)
			}
		}
		return nil
	case reflect.Slice:
		a, ok := j.([]any)
		if !ok {
			return fmt.Errorf("%v where a list is expected", j)
		}
		v.Set(reflect.MakeSlice(v.Type(), len(a), len(a)))
		for i := range a {
			if err := decode(a[i], v.Index(i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Map:
		m, ok := j.(map[string]any)
		if !ok {
			return fmt.Errorf("%v where a map is expected", j)
		}
		v.Set(reflect.MakeMap(v.Type()))
		for k, x := range m {
			e := reflect.New(v.Type().Elem()).Elem()
			if err := decode(x, e); err != nil {
				return err
			}
			v.SetMapIndex(reflect.ValueOf(k), e)
		}
		return nil
	case reflect.Interface:
		v.Set(reflect.ValueOf(j))
		return nil
	}
	b, _ := json.Marshal(j)
	return json.Unmarshal(b, v.Addr().Interface())
}

// Canon is a value as text, without what differs between two calls or two encodings.
func canon(v any) string { return show(reflect.ValueOf(v)) }

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	if _, ok := v.Interface().(time.Time); ok {
		return v.Interface().(time.Time).UTC().Format(time.RFC3339)
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return show(v.Elem())
	case reflect.Struct:
		var b strings.Builder
		for i := 0; i < v.NumField(); i++ {
			if !v.Field(i).IsZero() {
				if s := show(v.Field(i)); s != "[]" && s != "{}" {
					fmt.Fprintf(&b, "%s:%s ", v.Type().Field(i).Name, s)
				}
			}
		}
		return "(" + b.String() + ")"
	case reflect.Slice:
		var out []string
		for i := 0; i < v.Len(); i++ {
			out = append(out, show(v.Index(i)))
		}
		return "[" + strings.Join(out, " ") + "]"
	case reflect.Map:
		var out []string
		for _, k := range v.MapKeys() {
			out = append(out, fmt.Sprintf("%q=%s", k.String(), show(v.MapIndex(k))))
		}
		return "{" + strings.Join(h.Sorted(out), " ") + "}"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Int, reflect.Int64, reflect.Int32:
		return fmt.Sprintf("%v", float64(v.Int()))
	}
	return fmt.Sprintf("%v", v.Interface())
}

// routed calls the tools through the typed methods, through Call or through an MCP client.
type routed struct {
	kb.API
	c        *h.C
	box      *cortexdb.GraphRAGToolbox
	mcp      *mcp.ClientSession
	pick     func() int
	required map[string]map[string]bool
	used     map[string]map[int]int
}

func connect(c *h.C, d *kb.DB, pick func() int) *routed {
	r := &routed{API: kb.Direct(d), c: c, box: d.GraphRAGTools(), pick: pick, required: map[string]map[string]bool{}, used: map[string]map[int]int{}}
	for _, def := range r.box.Definitions() {
		r.required[def.Name] = map[string]bool{}
		for _, n := range def.InputSchema["required"].([]string) {
			r.required[def.Name][n] = true
		}
	}
	a, b := mcp.NewInMemoryTransports()
	ctx, cancel := context.WithCancel(context.Background())
	srv := d.NewMCPServer(cortexdb.MCPServerOptions{})
	ss, err := srv.Connect(ctx, a, nil)
	c.Must(err, "start the server")
	cl, err := mcp.NewClient(&mcp.Implementation{Name: "check", Version: "1"}, nil).Connect(ctx, b, nil)
	c.Must(err, "connect to the server")
	r.mcp = cl
	c.Defer(func() { cl.Close(); ss.Wait(); cancel() })
	return r
}

func (r *routed) args(name string, req any) map[string]any {
	return encode(reflect.ValueOf(req), r.required[name]).(map[string]any)
}

func (r *routed) raw(name string, args json.RawMessage) (res *mcp.CallToolResult, err error) {
	return r.mcp.CallTool(context.Background(), &mcp.CallToolParams{Name: name, Arguments: args})
}

func viaCall[Resp any](r *routed, ctx context.Context, name string, req any) (*Resp, error) {
	b, err := json.Marshal(r.args(name, req))
	r.c.Must(err, "encode %s", name)
	out, err := r.box.Call(ctx, name, b)
	if err != nil {
		return nil, err
	}
	got, ok := out.(*Resp)
	if !ok {
		r.c.Fatalf("tool %s returned %T", name, out)
	}
	return got, nil
}

func viaMCP[Resp any](r *routed, name string, req any) (*Resp, error) {
	b, err := json.Marshal(r.args(name, req))
	r.c.Must(err, "encode %s", name)
	res, err := r.raw(name, b)
	if err != nil {
		r.c.Fatalf("the server failed on tool %s with %s: %v", name, b, err)
	}
	if res.IsError {
		text := ""
		for _, x := range res.Content {
			if t, ok := x.(*mcp.TextContent); ok {
				text += t.Text
			}
		}
		return nil, fmt.Errorf("%s", text)
	}
	out := new(Resp)
	if err := decode(res.StructuredContent, reflect.ValueOf(out).Elem()); err != nil {
		r.c.Fatalf("answer of tool %s: %v", name, err)
	}
	return out, nil
}

// write performs a tool once, by one of the ways.
func write[Req, Resp any](r *routed, ctx context.Context, name string, req Req, typed func(context.Context, Req) (*Resp, error)) (*Resp, error) {
	w := r.pick()
	r.note(name, w)
	switch w {
	case 1:
		return viaCall[Resp](r, ctx, name, req)
	case 2:
		return viaMCP[Resp](r, name, req)
	}
	return typed(ctx, req)
}

func (r *routed) note(name string, w int) {
	r.c.Op("via %s", []string{"method", "Call", "MCP"}[w])
	r.c.Class([]string{"method ", "Call ", "MCP "}[w] + name)
}

// read performs a tool by every way and compares the answers.
func read[Req, Resp any](r *routed, ctx context.Context, name string, req Req, typed func(context.Context, Req) (*Resp, error)) (*Resp, error) {
	a, ea := typed(ctx, req)
	b, eb := viaCall[Resp](r, ctx, name, req)
	c, ec := viaMCP[Resp](r, name, req)
	h.CheckInfra(ea)
	h.CheckInfra(eb)
	h.CheckInfra(ec)
	if (ea == nil) != (eb == nil) || (ea == nil) != (ec == nil) {
		r.c.Fatalf("%s %s: the method says %v, Call says %v, the server says %v", name, kb.JS(r.args(name, req)), ea, eb, ec)
	}
	if ea != nil {
		return nil, ea
	}
	if x, y, z := canon(a), canon(b), canon(c); x != y || x != z {
		r.c.Fatalf("%s %s: the method returns %s\nCall returns %s\nthe server returns %s", name, kb.JS(r.args(name, req)), x, y, z)
	}
	r.c.Class("compared " + name)
	return a, nil
}
