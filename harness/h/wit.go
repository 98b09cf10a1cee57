package h

import (
	"strings"

	"github.com/patrickhuber/go-types"

	"github.com/patrickhuber/go-wasm/wit/ast"
	parsewit "github.com/patrickhuber/go-wasm/wit/parse"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

// witShow renders a tree in a canonical form and notes parts that are missing.
type witShow struct{ hole bool }

func (p *witShow) nothing() string {
	p.hole = true
	return "!"
}

func bare(id string) string {
	if len(id) > 0 && id[0] == '%' {
		return id[1:]
	}
	return id
}

func (p *witShow) maybe(o types.Option[ast.Type]) string {
	if o == nil {
		return "_"
	}
	t, ok := o.Deconstruct()
	if !ok {
		return "_"
	}
	return p.ty(t)
}

func (p *witShow) ty(t ast.Type) string {
	switch t := t.(type) {
	case *ast.U8:
		return "u8"
	case *ast.U16:
		return "u16"
	case *ast.U32:
		return "u32"
	case *ast.U64:
		return "u64"
	case *ast.S8:
		return "s8"
	case *ast.S16:
		return "s16"
	case *ast.S32:
		return "s32"
	case *ast.S64:
		return "s64"
	case *ast.Float32:
		return "float32"
	case *ast.Float64:
		return "float64"
	case *ast.Char:
		return "char"
	case *ast.Bool:
		return "bool"
	case *ast.String:
		return "string"
	case *ast.List:
		return "list<" + p.ty(t.ItemType) + ">"
	case *ast.Option:
		return "option<" + p.ty(t.ItemType) + ">"
	case *ast.Result:
		return "result<" + p.maybe(t.Ok) + "," + p.maybe(t.Error) + ">"
	case *ast.Stream:
		return "stream<" + p.maybe(t.Element) + "," + p.maybe(t.End) + ">"
	case *ast.Future:
		return "future<" + p.maybe(t.ItemType) + ">"
	case *ast.Tuple:
		s := "tuple<"
		for _, t := range t.Types {
			s += p.ty(t) + ","
		}
		return s + ">"
	case *ast.Own:
		return "own<" + bare(t.Id) + ">"
	case *ast.Borrow:
		return "borrow<" + bare(t.Id) + ">"
	case *ast.Id:
		return "#" + bare(t.Value)
	}
	return p.nothing()
}

func (p *witShow) params(ps []ast.Parameter) string {
	s := "("
	for _, x := range ps {
		s += bare(x.Id) + ":" + p.ty(x.Type) + ","
	}
	return s + ")"
}

func (p *witShow) fn(f *ast.FuncType) string {
	if f == nil {
		return p.nothing()
	}
	s := "func" + p.params(f.Params)
	switch {
	case f.Results == nil:
	case f.Results.Anonymous != nil:
		s += "->" + p.ty(f.Results.Anonymous)
	case len(f.Results.Named) > 0:
		s += "->" + p.params(f.Results.Named)
	}
	return s + ";"
}

func (p *witShow) version(o types.Option[ast.Version]) string {
	if o == nil {
		return ""
	}
	v, ok := o.Deconstruct()
	if !ok {
		return ""
	}
	return "@" + show64(v.Major) + "." + show64(v.Minor) + "." + show64(v.Patch)
}

// show64 is the eight bytes of a number, which needs no branches.
func show64(v uint64) string {
	var b [8]byte
	for i := range b {
		b[i] = byte(v >> (8 * i))
	}
	return string(b[:])
}

func (p *witShow) path(u *ast.UsePath) string {
	if u == nil {
		return p.nothing()
	}
	if u.Package.Id == nil {
		return bare(u.Id)
	}
	return bare(u.Package.Id.Namespace) + ":" + bare(u.Package.Id.Name) + "/" + bare(u.Package.Name) + p.version(u.Package.Id.Version)
}

func (p *witShow) as(o types.Option[string]) string {
	if o == nil {
		return ""
	}
	if s, ok := o.Deconstruct(); ok {
		return " as " + bare(s)
	}
	return ""
}

func (p *witShow) extern(e ast.ExternType) string {
	switch e := e.(type) {
	case *ast.ExternTypeFunc:
		return bare(e.ID) + ":" + p.fn(e.Func)
	case *ast.ExternTypeInterface:
		return bare(e.ID) + ":interface{" + p.interfaceItems(e.InterfaceItems) + "}"
	case *ast.ExternTypeUsePath:
		return p.path(e.UsePath) + ";"
	}
	return p.nothing()
}

func (p *witShow) method(m ast.ResourceMethod) string {
	switch m := m.(type) {
	case *ast.Constructor:
		return "constructor" + p.params(m.ParameterList) + ";"
	case ast.Constructor:
		return "constructor" + p.params(m.ParameterList) + ";"
	case ast.Method:
		if m.Func == nil {
			return p.nothing()
		}
		return bare(m.Func.ID) + ":" + p.fn(m.Func.FuncType)
	case *ast.Method:
		return p.method(*m)
	case ast.Static:
		return bare(m.ID) + ":static " + p.fn(m.FuncType)
	case *ast.Static:
		return p.method(*m)
	}
	return p.nothing()
}

// item renders an item of an interface or world.
func (p *witShow) item(i any) string {
	switch i := i.(type) {
	case *ast.FuncItem:
		return bare(i.ID) + ":" + p.fn(i.FuncType)
	case *ast.Use:
		s := "use " + p.path(i.From) + ".{"
		for _, n := range i.Names {
			s += bare(n.Name) + p.as(n.As) + ","
		}
		return s + "};"
	case *ast.Resource:
		return p.item(*i)
	case ast.Resource:
		s := "resource " + bare(i.ID) + "{"
		for _, m := range i.Methods {
			s += p.method(m)
		}
		return s + "}"
	case *ast.Record:
		s := "record " + bare(i.ID) + "{"
		for _, f := range i.Fields {
			s += bare(f.Name) + ":" + p.ty(f.Type) + ","
		}
		return s + "}"
	case *ast.Flags:
		s := "flags " + bare(i.ID) + "{"
		for _, f := range i.Flags {
			s += bare(f.Id) + ","
		}
		return s + "}"
	case *ast.Variant:
		s := "variant " + bare(i.ID) + "{"
		for _, c := range i.Cases {
			s += bare(c.Name) + "(" + p.maybe(c.Type) + "),"
		}
		return s + "}"
	case *ast.Enum:
		s := "enum " + bare(i.ID) + "{"
		for _, c := range i.Cases {
			s += bare(c.Name) + ","
		}
		return s + "}"
	case *ast.TypeItem:
		return "type " + bare(i.ID) + "=" + p.ty(i.Type) + ";"
	case *ast.Import:
		return "import " + p.extern(i.ExternType)
	case *ast.Export:
		return "export " + p.extern(i.ExternType)
	case *ast.Include:
		s := "include " + p.path(i.From) + "{"
		for _, n := range i.Names {
			s += bare(n.Name) + " as " + bare(n.As) + ","
		}
		return s + "}"
	}
	return p.nothing()
}

func (p *witShow) interfaceItems(is []ast.InterfaceItem) string {
	s := ""
	for _, i := range is {
		s += p.item(i)
	}
	return s
}

func (p *witShow) file(a *ast.Ast) string {
	if a == nil {
		return p.nothing()
	}
	s := ""
	if a.PackageDeclaration != nil {
		if d, ok := a.PackageDeclaration.Deconstruct(); ok {
			s += "package " + bare(d.Namespace) + ":" + bare(d.Name) + p.version(d.Version) + ";"
		}
	}
	for _, i := range a.Items {
		switch {
		case i.Use != nil:
			s += "use " + p.path(i.Use.Item) + p.as(i.Use.As) + ";"
		case i.Interface != nil:
			s += "interface " + bare(i.Interface.Name) + "{" + p.interfaceItems(i.Interface.Items) + "}"
		case i.World != nil:
			s += "world " + bare(i.World.Id) + "{"
			for _, w := range i.World.Items {
				s += p.item(w)
			}
			s += "}"
		default:
			s += p.nothing()
		}
	}
	return s
}

// witTotal parses text and requires an error or a tree without holes.
func witTotal(text string) error {
	var a *ast.Ast
	var err error
	vx.NoPanic("parsing WIT", func() { a, err = parsewit.Parse(text) })
	if err == nil {
		p := &witShow{}
		p.file(a)
		vx.Assert(!p.hole, "the syntax tree has a hole")
		vx.Cover("tree")
	} else {
		vx.Cover("error")
	}
	return err
}

// witGrammar recognises the grammar over tokens that spaces separate. Lists may be empty
// and end in a comma, as the parser has always allowed.
type witGrammar struct {
	t  []string
	ok bool
}

func witSentence(text string) bool {
	g := &witGrammar{t: strings.Fields(text), ok: true}
	if g.eat("package") {
		g.id()
		g.want(":")
		g.id()
		if g.eat("@") {
			g.ver()
		}
		g.want(";")
	}
	for g.ok && len(g.t) > 0 {
		switch {
		case g.eat("use"):
			g.path()
			if g.eat("as") {
				g.id()
			}
			g.want(";")
		case g.eat("interface"):
			g.id()
			g.items()
		case g.eat("world"):
			g.id()
			g.want("{")
			for g.ok && !g.eat("}") {
				g.worldItem()
			}
		default:
			g.ok = false
		}
	}
	return g.ok
}

func (g *witGrammar) at() string {
	if len(g.t) == 0 {
		return ""
	}
	return g.t[0]
}

func (g *witGrammar) eat(s string) bool {
	if g.at() == s {
		g.t = g.t[1:]
		return true
	}
	return false
}

func (g *witGrammar) want(s string) {
	if !g.eat(s) {
		g.ok = false
	}
}

func isWitID(s string) bool {
	return s == "x" || s == "%x" || len(s) == 1 && s[0] >= 'a' && s[0] <= 'w'
}

func (g *witGrammar) id() {
	if !isWitID(g.at()) {
		g.ok = false
		return
	}
	g.t = g.t[1:]
}

func (g *witGrammar) number() {
	if s := g.at(); s == "" || s[0] < '0' || s[0] > '9' {
		g.ok = false
		return
	}
	g.t = g.t[1:]
}

func (g *witGrammar) ver() {
	g.number()
	g.want(".")
	g.number()
	g.want(".")
	g.number()
}

func (g *witGrammar) path() {
	g.id()
	if g.eat(":") {
		g.id()
		g.want("/")
		g.id()
		if g.eat("@") {
			g.ver()
		}
	}
}

// list is comma-separated up to end.
func (g *witGrammar) list(end string, item func()) {
	for g.ok && !g.eat(end) {
		item()
		if !g.eat(",") {
			g.want(end)
			return
		}
	}
}

func (g *witGrammar) ty() {
	if !g.ok {
		return
	}
	switch s := g.at(); s {
	case "u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "float32", "float64", "char", "bool", "string":
		g.t = g.t[1:]
	case "list", "option":
		g.t = g.t[1:]
		g.want("<")
		g.ty()
		g.want(">")
	case "future":
		g.t = g.t[1:]
		if g.eat("<") {
			g.ty()
			g.want(">")
		}
	case "result", "stream":
		g.t = g.t[1:]
		if g.eat("<") {
			if g.eat("_") {
				g.want(",")
				g.ty()
			} else {
				g.ty()
				if g.eat(",") {
					g.ty()
				}
			}
			g.want(">")
		}
	case "tuple":
		g.t = g.t[1:]
		g.want("<")
		g.list(">", g.ty)
	case "own", "borrow":
		g.t = g.t[1:]
		g.want("<")
		g.id()
		g.want(">")
	default:
		g.id()
	}
}

func (g *witGrammar) field() {
	g.id()
	g.want(":")
	g.ty()
}

func (g *witGrammar) fn() {
	g.want("func")
	g.want("(")
	g.list(")", g.field)
	if g.eat("->") {
		if g.eat("(") {
			g.list(")", g.field)
		} else {
			g.ty()
		}
	}
}

func (g *witGrammar) items() {
	g.want("{")
	for g.ok && !g.eat("}") {
		if !g.typedef() {
			g.id()
			g.want(":")
			g.fn()
			g.want(";")
		}
	}
}

// typedef recognises the items that interfaces and worlds have in common.
func (g *witGrammar) typedef() bool {
	switch {
	case g.eat("use"):
		g.path()
		g.want(".")
		g.want("{")
		g.list("}", func() {
			g.id()
			if g.eat("as") {
				g.id()
			}
		})
		g.want(";")
	case g.eat("resource"):
		g.id()
		if g.eat(";") {
			return true
		}
		g.want("{")
		for g.ok && !g.eat("}") {
			if g.eat("constructor") {
				g.want("(")
				g.list(")", g.field)
			} else {
				g.id()
				g.want(":")
				g.eat("static")
				g.fn()
			}
			g.want(";")
		}
	case g.eat("record"):
		g.id()
		g.want("{")
		g.list("}", g.field)
	case g.eat("variant"):
		g.id()
		g.want("{")
		g.list("}", func() {
			g.id()
			if g.eat("(") {
				g.ty()
				g.want(")")
			}
		})
	case g.eat("flags"), g.eat("enum"):
		g.id()
		g.want("{")
		g.list("}", g.id)
	case g.eat("type"):
		g.id()
		g.want("=")
		g.ty()
		g.want(";")
	default:
		return false
	}
	return true
}

func (g *witGrammar) worldItem() {
	switch {
	case g.eat("import"), g.eat("export"):
		g.id()
		if g.eat(":") {
			switch {
			case g.at() == "func":
				g.fn()
			case g.eat("interface"):
				g.items()
				return
			default:
				g.id()
				g.want("/")
				g.id()
				if g.eat("@") {
					g.ver()
				}
			}
		}
		g.want(";")
	case g.eat("include"):
		g.path()
		if g.eat("with") {
			g.want("{")
			g.list("}", func() {
				g.id()
				g.want("as")
				g.id()
			})
			return
		}
		g.want(";")
	default:
		if !g.typedef() {
			g.ok = false
		}
	}
}

var witContexts = []string{
	"", "package ", "package a : ", "package a : b ", "package a : b @ 1 . 2 ", "package a : b ; ",
	"use ", "use a ", "use a : b / ", "use a as ", "interface ", "interface i ",
	"interface i { ", "interface i { f ", "interface i { f : ", "interface i { f : func ", "interface i { f : func ( ",
	"interface i { f : func ( a : ", "interface i { f : func ( a : u8 ", "interface i { f : func ( ) ", "interface i { f : func ( ) -> ",
	"interface i { f : func ( ) -> ( ", "interface i { use a ", "interface i { use a . { ", "interface i { use a . { b ",
	"interface i { resource ", "interface i { resource r ", "interface i { resource r { ", "interface i { resource r { m : ",
	"interface i { record ", "interface i { record r ", "interface i { record r { ", "interface i { record r { a : ",
	"interface i { variant v { ", "interface i { variant v { a ", "interface i { variant v { a ( ", "interface i { flags f { ",
	"interface i { enum e { a ", "interface i { type ", "interface i { type t ", "interface i { type t = ",
	"interface i { type t = list ", "interface i { type t = list < ", "interface i { type t = option < u8 ",
	"interface i { type t = result ", "interface i { type t = result < ", "interface i { type t = result < _ ",
	"interface i { type t = tuple < ", "interface i { type t = tuple < u8 ", "interface i { type t = own < ",
	"interface i { type t = stream < u8 , ", "interface i { type t = future ",
	"world ", "world w { ", "world w { import ", "world w { import a ", "world w { import a : ", "world w { export a : b / ",
	"world w { export a : interface ", "world w { export a : func ", "world w { include ", "world w { include a ",
	"world w { include a with { ", "world w { include a with { b as ", "world w { use ", "world w { resource r { constructor ",
}

var witVocabulary = []string{
	"x", ";", ":", ",", "{", "}", "(", ")", "<", ">", "=", ".", "/", "@", "->", "_", "*", "-",
	"u8", "s64", "string", "bool", "list", "result", "tuple", "borrow", "func", "static", "constructor", "as", "with",
	"type", "record", "enum", "flags", "variant", "resource", "use", "import", "include", "interface", "world", "package",
	"7", "%x", "union", "from",
}

var witClosings = []string{
	" ; }", " }", " > ; }", " ) ; }", " } }", " : u8 } }", " ;", " } ; }",
}

// C25_Tokens: every context followed by up to two tokens of the vocabulary and by one of
// two endings (all endings in the thorough tier); what belongs to the
// grammar is accepted and everything else refused.
//
// vx:text
// vx:share 4
func C25_Tokens() {
	text := witContexts[vx.Choice("context", len(witContexts))]
	n := 2
	for i := 0; i < n; i++ {
		m := len(witVocabulary)
		if i > 0 && !vx.Thorough() {
			m = 31
		}
		k := vx.Choice("token", m+1)
		if k == 0 {
			break
		}
		text += witVocabulary[k-1] + " "
	}
	if k := vx.Choice("ending", 2+7*more()); k > 0 {
		text += witClosings[k-1]
	}
	ok := witSentence(text)
	vx.Assert((witTotal(text) == nil) == ok, "the parser and the grammar disagree")
}

// C25_One: the same with one token and all endings.
//
// vx:text
func C25_One() {
	text := witContexts[vx.Choice("context", len(witContexts))]
	text += witVocabulary[vx.Choice("token", len(witVocabulary))]
	if k := vx.Choice("ending", len(witClosings)+1); k > 0 {
		text += witClosings[k-1]
	}
	ok := witSentence(text)
	vx.Assert((witTotal(text) == nil) == ok, "the parser and the grammar disagree")
}

var witLists = []struct {
	open, close string
	items       []string
}{
	{"interface i { record r { ", "} }", []string{"a : u8 ", "b : s "}},
	{"interface i { flags f { ", "} }", []string{"a ", "b "}},
	{"interface i { enum e { ", "} }", []string{"a ", "b "}},
	{"interface i { variant v { ", "} }", []string{"a ", "b ( u8 ) "}},
	{"interface i { f : func ( ", ") ; }", []string{"a : u8 ", "b : t "}},
	{"interface i { f : func ( ) -> ( ", ") ; }", []string{"a : u8 ", "b : t "}},
	{"interface i { type t = tuple < ", "> ; }", []string{"u8 ", "t "}},
	{"interface i { use a . { ", "} ; }", []string{"a ", "b as c "}},
	{"world w { include a with { ", "} }", []string{"a as b ", "b as c "}},
}

// C25_Lists: lists of every kind made of up to 6 items and commas in any order.
//
// vx:text
func C25_Lists() {
	l := witLists[vx.Choice("list", len(witLists))]
	text := l.open
	for n := vx.Choice("pieces", 7); n > 0; n-- {
		text += []string{l.items[n%2], ", "}[vx.Choice("piece", 2)]
	}
	text += l.close
	ok := witSentence(text)
	vx.Assert((witTotal(text) == nil) == ok, "the parser and the grammar disagree")
}

var witTexts = []string{
	"package a : b @ 1 . 2 . 3 ; interface i { f : func ( a : u8 , b : string ) -> u8 ; }",
	"use a : b / c @ 1 . 2 . 3 as d ; interface i { type t = result < u8 , _ > ; type u = list < t > ; }",
	"interface i { resource r { constructor ( a : u8 ) ; m : func ( ) ; n : static func ( ) -> ( a : u8 ) ; } resource s ; }",
	"interface i { record r { a : u8 , b : option < u8 > } variant v { a , b ( u8 ) , } use a . { b , c as d } ; }",
	"interface i { flags f { a , b } enum e { a , b } type t = tuple < own < r > , borrow < r > > ; }",
	"world w { import a : func ( ) ; export b : interface { f : func ( ) ; } import c : d / e @ 1 . 2 . 3 ; export f ; }",
	"world w { include a ; include b with { c as d , e as f } use a . { b } ; type t = future < u8 > ; resource r ; }",
}

// C25_Edits: complete texts of up to 35 tokens with any one token left out, doubled,
// exchanged with the next one or replaced by one of the vocabulary (in the thorough tier
// also with one of the vocabulary put in front).
//
// vx:text
// vx:share 2
func C25_Edits() {
	toks := strings.Fields(witTexts[vx.Choice("text", len(witTexts))])
	at := vx.Choice("at", len(toks))
	var out []string
	out = append(out, toks[:at]...)
	v := len(witVocabulary)
	switch e := vx.Choice("edit", 3+v+v*more()); {
	case e == 0:
		out = append(out, toks[at+1:]...)
	case e == 1:
		out = append(append(out, toks[at]), toks[at:]...)
	case e == 2:
		if at+1 == len(toks) {
			vx.Stop()
		}
		out = append(append(out, toks[at+1], toks[at]), toks[at+2:]...)
	case e < 3+v:
		out = append(append(out, witVocabulary[e-3]), toks[at+1:]...)
	default:
		out = append(append(out, witVocabulary[e-3-v]), toks[at:]...)
	}
	text := strings.Join(out, " ")
	ok := witSentence(text)
	vx.Assert((witTotal(text) == nil) == ok, "the parser and the grammar disagree")
}

// C25_Bytes: every context followed by 1 or 2 ASCII characters (3 in the thorough tier).
//
// vx:text
// vx:share 2
func C25_Bytes() {
	text := witContexts[vx.Choice("context", len(witContexts))]
	text += ascii("bytes", 1+vx.Choice("len", 2+more()))
	witTotal(text + []string{"", " ; } }"}[vx.Choice("ending", 2)])
}

// C25_Words: every context followed by a word of lower-case letters and digits; only the
// keywords with a meaning at this place and identifiers are accepted.
//
// vx:text
func C25_Words() {
	text := witContexts[vx.Choice("context", len(witContexts))]
	b := vx.Bytes("word", []int{2, 4, 6, 3, 5, 7}[vx.Choice("len", 3+3*more())])
	for i := range b {
		if i == 0 {
			vx.Assume(vx.And(b[i] >= 'a', b[i] <= 'z'))
		} else {
			vx.Assume(vx.Or(vx.And(b[i] >= 'a', b[i] <= 'z'), vx.And(b[i] >= '0', b[i] <= '9')))
		}
	}
	witTotal(text + string(b) + []string{" ; }", " : u8 } }"}[vx.Choice("ending", 2)])
}

// C26: text and the canonical form of the tree it stands for.

// witID is an identifier that is no keyword.
func witID(name string) string {
	c := vx.U8(name)
	vx.Assume(vx.And(c >= 'a', c <= 'z'))
	return "x" + string([]byte{c})
}

var primitives = []string{"u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "float32", "float64", "char", "bool", "string"}

// witType is any type to the given depth.
func witType(depth int) (string, string) {
	n := 3
	if depth > 0 {
		n = 15
	}
	switch k := vx.Choice("type", n); k {
	case 0:
		t := primitives[vx.Choice("primitive", len(primitives))]
		return t, t
	case 1:
		id := witID("type")
		return id, "#" + id
	case 2:
		id := witID("resource")
		s := []string{"own<", "borrow<"}[vx.Choice("handle", 2)] + id + ">"
		return s, s
	case 3, 4, 5:
		t, w := witType(depth - 1)
		c := []string{"list<", "option<", "future<"}[k-3]
		return c + t + ">", c + w + ">"
	case 6:
		return "result", "result<_,_>"
	case 7, 8:
		t, w := witType(depth - 1)
		c := []string{"result<", "stream<"}[k-7]
		return c + t + ">", c + w + ",_>"
	case 9:
		t, w := witType(depth - 1)
		return "result<_," + t + ">", "result<_," + w + ">"
	case 10:
		t, w := witType(depth - 1)
		return "stream<u16," + t + ">", "stream<u16," + w + ">"
	case 11:
		t, w := witType(depth - 1)
		return "result<s16," + t + ">", "result<s16," + w + ">"
	case 12:
		t, w := witType(depth - 1)
		return "tuple<" + t + ">", "tuple<" + w + ",>"
	case 13:
		t, w := witType(depth - 1)
		return "tuple<bool," + t + ",char>", "tuple<bool," + w + ",char,>"
	}
	return "future", "future<_>"
}

// checkWit parses text and requires the tree with the given form.
func checkWit(text, want string) {
	var a *ast.Ast
	var err error
	vx.NoPanic("parsing WIT", func() { a, err = parsewit.Parse(text) })
	vx.Assert(err == nil, "valid text is refused")
	p := &witShow{}
	got := p.file(a)
	vx.Assert(!p.hole, "the syntax tree has a hole")
	vx.Assert(got == want, "the tree differs from the text")
	vx.Cover("tree")
}

// C26_Types: all types to depth 2 in an alias (3 in the thorough tier).
//
// vx:text
func C26_Types() {
	t, w := witType(2 + more())
	checkWit("interface i{type t="+t+";}", "interface i{type t="+w+";}")
}

// witFn is a function type with up to 2 parameters and any kind of result.
func witFn(depth int) (string, string) {
	text, want := "func(", "func("
	n := vx.Choice("params", 3)
	for k := 0; k < n; k++ {
		p := witID("param")
		t, w := "char", "char"
		if k == 0 {
			t, w = witType(depth)
		}
		text += p + ": " + t
		if k < n-1 || vx.Choice("comma", 2) == 1 {
			text += ","
		}
		want += p + ":" + w + ","
	}
	text, want = text+")", want+")"
	switch vx.Choice("results", 4) {
	case 1:
		r := witID("result")
		text, want = text+" -> "+r, want+"->#"+r
	case 2:
		r := witID("result")
		text, want = text+"->("+r+":u8)", want+"->("+r+":u8,)"
	case 3:
		text, want = text+"->(a:u8,b:list<char>,)", want+"->(a:u8,b:list<char>,)"
	}
	return text, want + ";"
}

func shallowFn() (string, string) {
	id := witID("param")
	switch vx.Choice("fn", 3) {
	case 1:
		return "func(" + id + ": u8)", "func(" + id + ":u8,);"
	case 2:
		return "func(a:string) -> " + id, "func(a:string,)->#" + id + ";"
	}
	return "func()", "func();"
}

// C26_Functions: functions with up to 2 parameters and any kind of result.
//
// vx:text
func C26_Functions() {
	id := witID("name")
	text, want := witFn(1)
	checkWit("interface i{"+id+": "+text+";}", "interface i{"+id+":"+want+"}")
}

// names is a list of up to 3 identifiers (2 of them the same shape), with or without a
// final comma.
func names(name string) ([]string, string) {
	var ids []string
	for k := vx.Choice("names", 4); k > 0; k-- {
		ids = append(ids, witID(name))
	}
	end := ""
	if len(ids) > 0 && vx.Choice("comma", 2) == 1 {
		end = ","
	}
	return ids, end
}

// witTypedef is an item that interfaces and worlds have in common.
func witTypedef() (string, string) {
	switch vx.Choice("item", 7) {
	case 0, 1:
		kind := []string{"flags ", "enum "}[vx.Choice("kind", 2)]
		id := witID("id")
		ids, end := names("case")
		want := kind + id + "{"
		for _, i := range ids {
			want += i + ","
		}
		return kind + id + "{" + strings.Join(ids, ", ") + end + "}", want + "}"
	case 2:
		id := witID("id")
		ids, end := names("field")
		text, want := "record "+id+"{", "record "+id+"{"
		for k, i := range ids {
			t, w := "u16", "u16"
			if k == 1 {
				t, w = witType(0)
			}
			if k > 0 {
				text += ","
			}
			text += i + ": " + t
			want += i + ":" + w + ","
		}
		return text + end + "}", want + "}"
	case 3:
		id := witID("id")
		ids, end := names("case")
		text, want := "variant "+id+"{", "variant "+id+"{"
		for k, i := range ids {
			if k > 0 {
				text += ","
			}
			text += i
			switch k {
			case 1:
				t, w := witType(0)
				text += "(" + t + ")"
				want += i + "(" + w + "),"
			default:
				want += i + "(_),"
			}
		}
		return text + end + "}", want + "}"
	case 4:
		id := witID("id")
		t, w := witType(0)
		return "type " + id + " = " + t + ";", "type " + id + "=" + w + ";"
	case 5:
		p, w := witPath()
		text, want := "use "+p+".{", "use "+w+".{"
		ids, end := names("use")
		for k, i := range ids {
			if k > 0 {
				text += ","
			}
			text += i
			want += i
			if k == 0 {
				as := witID("as")
				text += " as " + as
				want += " as " + as
			}
			want += ","
		}
		return text + end + "};", want + "};"
	}
	id := witID("id")
	text, want := "resource "+id, "resource "+id+"{"
	if vx.Choice("body", 2) == 0 {
		return text + ";", want + "}"
	}
	text += "{"
	for k := vx.Choice("methods", 3); k > 0; k-- {
		m := witID("method")
		switch vx.Choice("method", 3) {
		case 0:
			text += "constructor(" + m + ":u8);"
			want += "constructor(" + m + ":u8,);"
		case 1:
			f, w := shallowFn()
			text += m + ":" + f + ";"
			want += m + ":" + w
		case 2:
			f, w := shallowFn()
			text += m + ": static " + f + ";"
			want += m + ":static " + w
		}
	}
	return text + "}", want + "}"
}

// witPath is a path with or without package and version.
func witPath() (string, string) {
	id := witID("path")
	switch vx.Choice("path", 3) {
	case 1:
		return "a:" + id + "/c", "a:" + id + "/c"
	case 2:
		v, w := witVersion(1)
		return "a:b/" + id + "@" + v, "a:b/" + id + "@" + w
	}
	return id, id
}

// witVersion is a version with all digits.
func witVersion(n int) (string, string) {
	text, want := "", ""
	for k := 0; k < 3; k++ {
		if k > 0 {
			text, want = text+".", want+"."
		}
		t, b := digits("version", n, false)
		v, _ := valueOf(b, 10)
		text += t
		want += show64(v)
	}
	return text, want
}

// C26_Typedefs: every kind of definition in an interface, with lists of up to 3 entries.
//
// vx:text
// vx:share 2
func C26_Typedefs() {
	t, w := witTypedef()
	checkWit("interface i{"+t+"}", "interface i{"+w+"}")
}

// C26_Worlds: every kind of item in a world.
//
// vx:text
// vx:share 2
func C26_Worlds() {
	var t, w string
	switch vx.Choice("world item", 3) {
	case 0:
		dir := []string{"import ", "export "}[vx.Choice("direction", 2)]
		id := witID("id")
		switch vx.Choice("extern", 3) {
		case 0:
			f, v := witFn(0)
			t, w = dir+id+": "+f+";", dir+id+":"+v
		case 1:
			d, v := witTypedef()
			t, w = dir+id+": interface {"+d+"}", dir+id+":interface{"+v+"}"
		case 2:
			p, v := witPath()
			t, w = dir+p+";", dir+v+";"
		}
	case 1:
		p, v := witPath()
		t, w = "include "+p, "include "+v+"{"
		if vx.Choice("with", 2) == 0 {
			t, w = t+";", w+"}"
			break
		}
		ids, end := names("name")
		t += " with {"
		for k, i := range ids {
			if k > 0 {
				t += ","
			}
			t += i + " as b"
			w += i + " as b,"
		}
		t, w = t+end+"}", w+"}"
	case 2:
		t, w = witTypedef()
	}
	checkWit("world z{"+t+"}", "world z{"+w+"}")
}

// C26_Files: package declarations with all versions of 1, 5 or 18 digits, and up to 2
// items in order.
//
// vx:text
func C26_Files() {
	text, want := "", ""
	if vx.Choice("package", 2) == 1 {
		a, b := witID("namespace"), witID("name")
		text, want = "package "+a+":"+b, "package "+a+":"+b
		if k := vx.Choice("version", 4); k > 0 {
			t, w := witVersion([]int{1, 5, 18}[k-1])
			text, want = text+"@"+t, want+"@"+w
		}
		text, want = text+";", want+";"
	}
	for k := vx.Choice("items", 3); k > 0; k-- {
		id := witID("item")
		switch vx.Choice("kind", 3) {
		case 0:
			p, w := witPath()
			text, want = text+" use "+p, want+"use "+w
			if vx.Choice("as", 2) == 1 {
				text, want = text+" as "+id, want+" as "+id
			}
			text, want = text+";", want+";"
		case 1:
			text, want = text+" interface "+id+"{}", want+"interface "+id+"{}"
		case 2:
			text, want = text+" world "+id+"{}", want+"world "+id+"{}"
		}
	}
	checkWit(text, want)
}

var orderItems = [][2]string{
	{"f: func();", "f:func();"}, {"use a.{b};", "use a.{b,};"}, {"resource r;", "resource r{}"}, {"record s{a:u8}", "record s{a:u8,}"},
	{"flags g{a}", "flags g{a,}"}, {"variant v{a}", "variant v{a(_),}"}, {"enum e{a}", "enum e{a,}"}, {"type t=u8;", "type t=u8;"},
}

// C26_Order: three definitions of any kind keep their order.
//
// vx:text
func C26_Order() {
	text, want := "", ""
	for k := 0; k < 3; k++ {
		i := orderItems[vx.Choice("item", len(orderItems))]
		text += i[0]
		want += i[1]
	}
	checkWit("interface i{"+text+"}", "interface i{"+want+"}")
}

// C26_Explicit: identifiers with a percent sign may be keywords; they name the same thing.
//
// vx:text
func C26_Explicit() {
	word := []string{"list", "u8", "interface", "xy", "func"}[vx.Choice("word", 5)]
	id := "%" + word
	switch vx.Choice("place", 6) {
	case 0:
		checkWit("interface "+id+"{}", "interface "+word+"{}")
	case 1:
		checkWit("interface i{"+id+":func("+id+":"+id+");}", "interface i{"+word+":func("+word+":#"+word+",);}")
	case 2:
		checkWit("interface i{enum "+id+"{"+id+"}}", "interface i{enum "+word+"{"+word+",}}")
	case 3:
		checkWit("world w{import "+id+";}", "world w{import "+word+";}")
	case 4:
		checkWit("package "+id+":"+id+";", "package "+word+":"+word+";")
	case 5:
		checkWit("interface i{type "+id+"=own<"+id+">;}", "interface i{type "+word+"=own<"+word+">;}")
	}
}

const witLayout = "|package_a|:|b|@|1|.|2|.|3|;|interface_i|{|f|:|func|(|x|:|list|<|u8|>|,|)|->|string|;|type_t|=|u8|;|}|world_w|{|import_i|;|}|"

// C26_Layout: a file with whitespace or a comment at any two places between tokens.
//
// vx:text
// vx:share 2
func C26_Layout() {
	gaps := strings.Count(witLayout, "|") + strings.Count(witLayout, "_")
	first := vx.Choice("first", gaps)
	second := first
	if vx.Thorough() {
		second = vx.Choice("second", gaps)
		vx.Assume(second >= first)
	} else if vx.Choice("next", 2) == 1 {
		second = first + 1
	}
	text, n := "", 0
	for i := 0; i < len(witLayout); i++ {
		c := witLayout[i]
		if c != '|' && c != '_' {
			text += string(rune(c))
			continue
		}
		if n == first || n == second {
			switch vx.Choice("gap", 3) {
			case 0:
				c := vx.U8("space")
				vx.Assume(vx.Or(c == ' ', c == '\t', c == '\n', c == '\r'))
				text += string([]byte{c})
			case 1:
				c := vx.U8("block")
				vx.Assume(vx.And(c < 0x80, c != '/', c != '*'))
				text += " /*" + string([]byte{c}) + "*/"
			case 2:
				c := vx.U8("line")
				vx.Assume(vx.And(c < 0x80, c != '\n'))
				text += " //" + string([]byte{c}) + "\n"
			}
		} else if c == '_' {
			text += " "
		}
		n++
	}
	checkWit(text, "package a:b@"+show64(1)+"."+show64(2)+"."+show64(3)+
		";interface i{f:func(x:list<u8>,)->string;type t=u8;}world w{import i;}")
}
