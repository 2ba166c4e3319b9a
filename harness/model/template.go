package model

import (
	"errors"
	"html/template"
	"io"
	"reflect"
	"strconv"
	"strings"

	"verifh/v"
)

// A model of html/template for templates whose actions stand in plain text: pipelines of calls, fields, variables and
// constants, if, range, with their else, and the functions len, not, eq. Anything else is unsupported.

type htmlTmpl struct {
	funcs template.FuncMap
	nodes []*tnode
	ok    bool
}

var htmlTmpls = map[*template.Template]*htmlTmpl{}

type tnode struct {
	kind string // text, print, if, range, with, set
	text string
	name string // variable set
	expr *texpr
	a, b []*tnode
}

type texpr struct {
	kind   string // call, dot, var, const
	name   string
	fields []string
	args   []*texpr
	val    interface{}
}

// HTMLNew models html/template.New.
func HTMLNew(name string) *template.Template {
	t := new(template.Template)
	htmlTmpls[t] = &htmlTmpl{funcs: template.FuncMap{}}
	return t
}

// HTMLSub models (*html/template.Template).New.
func HTMLSub(t *template.Template, name string) *template.Template {
	v.Unsupported("associated templates")
	return nil
}

// HTMLFuncs models (*html/template.Template).Funcs.
func HTMLFuncs(t *template.Template, fm template.FuncMap) *template.Template {
	for k, f := range fm {
		htmlTmpls[t].funcs[k] = f
	}
	return t
}

// HTMLParse models (*html/template.Template).Parse.
func HTMLParse(t *template.Template, text string) (*template.Template, error) {
	p := &tparser{s: text, t: htmlTmpls[t], vars: []string{"$"}}
	nodes, end, err := p.list()
	if err == nil && end != "" {
		err = errors.New("template: unexpected {{" + end + "}}")
	}
	if err != nil {
		return nil, err
	}
	htmlTmpls[t].nodes, htmlTmpls[t].ok = nodes, true
	return t, nil
}

// HTMLExecute models (*html/template.Template).Execute.
func HTMLExecute(t *template.Template, w io.Writer, data interface{}) error {
	ht := htmlTmpls[t]
	if !ht.ok {
		return errors.New("template: incomplete or empty template")
	}
	x := &texec{t: ht, w: w, vars: []tvar{{"$", data}}}
	return x.run(ht.nodes, data)
}

type tparser struct {
	s     string
	t     *htmlTmpl
	vars  []string
	inTag bool
}

const tspace = " \t\r\n"

// list parses nodes up to an end or else action, which it returns.
func (p *tparser) list() (out []*tnode, end string, err error) {
	nv := len(p.vars)
	defer func() { p.vars = p.vars[:nv] }()
	trim := false
	for {
		i := strings.Index(p.s, "{{")
		text := p.s
		if i >= 0 {
			text = p.s[:i]
		}
		left := i >= 0 && len(p.s) > i+3 && p.s[i+2] == '-' && strings.IndexByte(tspace, p.s[i+3]) >= 0
		if trim {
			text = strings.TrimLeft(text, tspace)
		}
		if left {
			text = strings.TrimRight(text, tspace)
		}
		p.html(text)
		if text != "" {
			out = append(out, &tnode{kind: "text", text: text})
		}
		if i < 0 {
			return out, "", nil
		}
		if p.inTag {
			v.Unsupported("template action inside a tag")
		}
		j := strings.Index(p.s[i:], "}}")
		if j < 0 {
			return nil, "", errors.New("template: unclosed action")
		}
		act := p.s[i+2 : i+j]
		p.s = p.s[i+j+2:]
		if left {
			act = act[1:]
		}
		trim = strings.HasSuffix(act, " -")
		if trim {
			act = act[:len(act)-2]
		}
		act = strings.Trim(act, tspace)
		if strings.HasPrefix(act, "/*") {
			continue
		}
		toks, err := p.tokens(act)
		if err != nil {
			return nil, "", err
		}
		if len(toks) == 0 {
			return nil, "", errors.New("template: missing value for command")
		}
		switch toks[0] {
		case "end", "else":
			if len(toks) > 1 {
				v.Unsupported("template action " + act)
			}
			p.trimNext(trim)
			return out, toks[0], nil
		case "if", "range", "with":
			n := &tnode{kind: toks[0]}
			if n.expr, err = p.expr(toks[1:]); err != nil {
				return nil, "", err
			}
			p.trimNext(trim)
			trim = false
			if n.a, end, err = p.list(); err == nil && end == "else" {
				n.b, end, err = p.list()
			}
			if err == nil && end != "end" {
				err = errors.New("template: unexpected EOF")
			}
			if err != nil {
				return nil, "", err
			}
			out = append(out, n)
		case "define", "block", "template", "break", "continue":
			v.Unsupported("template action " + toks[0])
		default:
			n := &tnode{kind: "print"}
			if len(toks) > 2 && toks[0][0] == '$' && toks[1] == ":=" {
				n.kind, n.name = "set", toks[0]
				toks = toks[2:]
			}
			if n.expr, err = p.expr(toks); err != nil {
				return nil, "", err
			}
			if n.kind == "set" {
				p.vars = append(p.vars, n.name)
			}
			out = append(out, n)
		}
	}
}

func (p *tparser) trimNext(trim bool) {
	if trim {
		p.s = strings.TrimLeft(p.s, tspace)
	}
}

// html keeps track of whether the text so far ends inside a tag.
func (p *tparser) html(s string) {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '<':
			for _, w := range []string{"script", "style", "textarea", "title", "!--"} {
				if len(s)-i > len(w) && strings.EqualFold(s[i+1:i+1+len(w)], w) {
					v.Unsupported("template text with <" + w)
				}
			}
			p.inTag = true
		case '>':
			p.inTag = false
		}
	}
}

func (p *tparser) tokens(s string) (toks []string, err error) {
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case strings.IndexByte(tspace, c) >= 0:
			i++
		case c == '(' || c == ')':
			toks = append(toks, s[i:i+1])
			i++
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, errors.New("template: unterminated quoted string")
			}
			toks = append(toks, s[i:j+1])
			i = j + 1
		case c == '|' || c == '`' || c == '\'':
			v.Unsupported("template syntax " + s)
		default:
			j := i
			for j < len(s) && strings.IndexByte(tspace+"()\"|", s[j]) < 0 {
				j++
			}
			toks = append(toks, s[i:j])
			i = j
		}
	}
	return toks, nil
}

func (p *tparser) expr(toks []string) (*texpr, error) {
	e, rest, err := p.command(toks)
	if err == nil && len(rest) > 0 {
		err = errors.New("template: unexpected " + rest[0])
	}
	return e, err
}

// command parses an operand with its arguments, up to a closing parenthesis.
func (p *tparser) command(toks []string) (*texpr, []string, error) {
	if len(toks) == 0 {
		return nil, nil, errors.New("template: missing value for command")
	}
	e, toks, err := p.operand(toks)
	if err != nil {
		return nil, nil, err
	}
	for len(toks) > 0 && toks[0] != ")" {
		var a *texpr
		if a, toks, err = p.operand(toks); err != nil {
			return nil, nil, err
		}
		if e.kind != "call" || len(e.fields) > 0 {
			return nil, nil, errors.New("template: can't give argument to non-function")
		}
		e.args = append(e.args, a)
	}
	return e, toks, nil
}

func (p *tparser) operand(toks []string) (*texpr, []string, error) {
	t := toks[0]
	switch {
	case t == "(":
		e, rest, err := p.command(toks[1:])
		if err != nil {
			return nil, nil, err
		}
		if len(rest) == 0 {
			return nil, nil, errors.New("template: unclosed left paren")
		}
		rest = rest[1:]
		if len(rest) > 0 && len(rest[0]) > 1 && rest[0][0] == '.' {
			v.Unsupported("template field of a parenthesis")
		}
		return &texpr{kind: "paren", args: []*texpr{e}}, rest, nil
	case t[0] == '"':
		s, err := strconv.Unquote(t)
		return &texpr{kind: "const", val: s}, toks[1:], err
	case t == "true" || t == "false":
		return &texpr{kind: "const", val: t == "true"}, toks[1:], nil
	case t[0] >= '0' && t[0] <= '9' || t[0] == '-':
		n, err := strconv.Atoi(t)
		if err != nil {
			v.Unsupported("template number " + t)
		}
		return &texpr{kind: "const", val: n}, toks[1:], nil
	case t[0] == '.':
		e := &texpr{kind: "dot"}
		if t != "." {
			e.fields = strings.Split(t[1:], ".")
		}
		return e, toks[1:], nil
	}
	f := strings.Split(t, ".")
	e := &texpr{kind: "call", name: f[0], fields: f[1:]}
	if t[0] == '$' {
		e.kind = "var"
		for _, x := range p.vars {
			if x == f[0] {
				return e, toks[1:], nil
			}
		}
		return nil, nil, errors.New("template: undefined variable " + f[0])
	}
	for i := 0; i < len(f[0]); i++ {
		c := f[0][i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_') {
			v.Unsupported("template word " + t)
		}
	}
	switch f[0] {
	case "len", "not", "eq":
		return e, toks[1:], nil
	case "and", "or", "index", "slice", "print", "printf", "println", "html", "js", "call", "urlquery", "ne", "lt", "le", "gt", "ge", "nil":
		v.Unsupported("template function " + f[0])
	}
	if p.t.funcs[f[0]] == nil {
		return nil, nil, errors.New("template: function " + f[0] + " not defined")
	}
	return e, toks[1:], nil
}

type tvar struct {
	name string
	val  interface{}
}

type texec struct {
	t    *htmlTmpl
	w    io.Writer
	vars []tvar
}

func (x *texec) run(nodes []*tnode, dot interface{}) error {
	nv := len(x.vars)
	defer func() { x.vars = x.vars[:nv] }()
	for _, n := range nodes {
		if n.kind == "text" {
			if _, err := io.WriteString(x.w, n.text); err != nil {
				return err
			}
			continue
		}
		val, err := x.eval(n.expr, dot)
		if err != nil {
			return err
		}
		switch n.kind {
		case "set":
			x.vars = append(x.vars, tvar{n.name, val})
		case "print":
			if _, err := io.WriteString(x.w, htmlEscape(val)); err != nil {
				return err
			}
		case "if":
			if truth(val) {
				err = x.run(n.a, dot)
			} else {
				err = x.run(n.b, dot)
			}
		case "with":
			if truth(val) {
				err = x.run(n.a, val)
			} else {
				err = x.run(n.b, dot)
			}
		case "range":
			err = x.loop(n, val, dot)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func (x *texec) loop(n *tnode, val, dot interface{}) error {
	switch l := val.(type) {
	case []interface{}:
		for _, e := range l {
			if err := x.run(n.a, e); err != nil {
				return err
			}
		}
		if len(l) == 0 {
			return x.run(n.b, dot)
		}
	case map[string]interface{}:
		var keys []string
		for k := range l {
			keys = append(keys, k)
			for i := len(keys) - 1; i > 0 && keys[i] < keys[i-1]; i-- {
				keys[i], keys[i-1] = keys[i-1], keys[i]
			}
		}
		for _, k := range keys {
			if err := x.run(n.a, l[k]); err != nil {
				return err
			}
		}
		if len(l) == 0 {
			return x.run(n.b, dot)
		}
	case nil, string, bool, float64, int64:
		if _, ok := l.(int64); ok {
			v.Unsupported("template range over a number")
		}
		if _, ok := l.(string); ok {
			v.Unsupported("template range over a text")
		}
		return errors.New("template: range can't iterate over it")
	default:
		v.Unsupported("template range over such a value")
	}
	return nil
}

func (x *texec) eval(e *texpr, dot interface{}) (interface{}, error) {
	var val interface{}
	var err error
	switch e.kind {
	case "const":
		return e.val, nil
	case "paren":
		return x.eval(e.args[0], dot)
	case "dot":
		val = dot
	case "var":
		for _, y := range x.vars {
			if y.name == e.name {
				val = y.val
			}
		}
	case "call":
		args := make([]interface{}, len(e.args))
		for i, a := range e.args {
			if args[i], err = x.eval(a, dot); err != nil {
				return nil, err
			}
		}
		if val, err = x.call(e.name, args, e.args); err != nil {
			return nil, err
		}
	}
	for _, f := range e.fields {
		if val, err = field(val, f); err != nil {
			return nil, err
		}
	}
	return val, nil
}

func field(val interface{}, f string) (interface{}, error) {
	if m, ok := val.(map[string]interface{}); ok {
		x, ok := m[f]
		if !ok {
			v.Unsupported("template field that a map lacks")
		}
		return x, nil
	}
	if val == nil {
		return nil, errors.New("template: nil data; no entry for key")
	}
	rv := reflect.ValueOf(val)
	if rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			return nil, errors.New("template: nil pointer evaluating " + f)
		}
		rv = rv.Elem()
	}
	if rv.Kind() != reflect.Struct {
		return nil, errors.New("template: can't evaluate field " + f)
	}
	fv := rv.FieldByName(f)
	if !fv.IsValid() {
		v.Unsupported("template field or method " + f)
	}
	return fv.Interface(), nil
}

var errArgs = errors.New("template: wrong number or type of args")

func (x *texec) call(name string, args []interface{}, exprs []*texpr) (val interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = errors.New("template: error calling " + name)
		}
	}()
	n := len(args)
	switch name {
	case "len":
		if n != 1 {
			return nil, errArgs
		}
		switch l := args[0].(type) {
		case string:
			return len(l), nil
		case []interface{}:
			return len(l), nil
		case map[string]interface{}:
			return len(l), nil
		case nil, bool, float64, int64, int:
			return nil, errors.New("template: len of such a value")
		}
		v.Unsupported("template len of such a value")
	case "not":
		if n != 1 {
			return nil, errArgs
		}
		return !truth(args[0]), nil
	case "eq":
		if n != 2 {
			v.Unsupported("template eq of several values")
		}
		return eqBasic(args[0], args[1])
	}
	switch f := x.t.funcs[name].(type) {
	case func() map[string]interface{}:
		if n != 0 {
			return nil, errArgs
		}
		return f(), nil
	case func() string:
		if n != 0 {
			return nil, errArgs
		}
		return f(), nil
	case func() (interface{}, error):
		if n != 0 {
			return nil, errArgs
		}
		return f()
	case func(int, int) (interface{}, error):
		if n != 2 {
			return nil, errArgs
		}
		a, ok := args[0].(int)
		b, ok2 := args[1].(int)
		if !ok || !ok2 {
			return nil, errArgs
		}
		return f(a, b)
	case func(float64) string:
		if n != 1 {
			return nil, errArgs
		}
		switch a := args[0].(type) {
		case float64:
			return f(a), nil
		case int:
			if exprs[0].kind == "const" {
				return f(float64(a)), nil
			}
		}
		return nil, errArgs
	case func(interface{}, string) (bool, error):
		if n != 2 {
			return nil, errArgs
		}
		s, ok := args[1].(string)
		if !ok {
			return nil, errArgs
		}
		return f(args[0], s)
	}
	v.Unsupported("template function type of " + name)
	return nil, nil
}

func eqBasic(a, b interface{}) (bool, error) {
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return x == y, nil
		}
	case bool:
		if y, ok := b.(bool); ok {
			return x == y, nil
		}
	case int:
		switch y := b.(type) {
		case int:
			return x == y, nil
		case int64:
			return int64(x) == y, nil
		}
	case int64:
		switch y := b.(type) {
		case int:
			return x == int64(y), nil
		case int64:
			return x == y, nil
		}
	case float64:
		if y, ok := b.(float64); ok {
			return x == y, nil
		}
	}
	v.Unsupported("template eq of such values")
	return false, nil
}

func truth(val interface{}) bool {
	switch x := val.(type) {
	case nil:
		return false
	case bool:
		return x
	case string:
		return x != ""
	case int:
		return x != 0
	case int64:
		return x != 0
	case float64:
		return x != 0
	case []interface{}:
		return len(x) > 0
	case map[string]interface{}:
		return len(x) > 0
	}
	v.Unsupported("template truth of such a value")
	return false
}

// htmlEscape is a value printed in the text of a page.
func htmlEscape(val interface{}) string {
	switch x := val.(type) {
	case nil:
		return ""
	case string:
		return escapeText(x)
	case bool, int, int64, float64, []interface{}, map[string]interface{}:
		return escapeText(Sprint(x))
	}
	v.Unsupported("template output of such a value")
	return ""
}

func escapeText(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 0:
			out = append(out, "\uFFFD"...)
		case '"':
			out = append(out, "&#34;"...)
		case '&':
			out = append(out, "&amp;"...)
		case '\'':
			out = append(out, "&#39;"...)
		case '+':
			out = append(out, "&#43;"...)
		case '<':
			out = append(out, "&lt;"...)
		case '>':
			out = append(out, "&gt;"...)
		default:
			out = append(out, s[i])
		}
	}
	return string(out)
}
