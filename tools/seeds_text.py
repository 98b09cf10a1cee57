from seedlib import *
S=[]
def seed(*a): S.append(a)
def bt(body): return '''
package binary_test
import ("testing";"bytes";"github.com/patrickhuber/go-wasm/binary";"github.com/patrickhuber/go-wasm/api")
var _ api.FuncIndex
var pre=[]byte{0,'a','s','m',1,0,0,0}
func TestDemo(t *testing.T){
'''+body+'\n}\n'
seed('bin-export-index','C15','binary/read.go',[('''				FuncIdx: api.FuncIndex(index),''','''				FuncIdx: api.FuncIndex(index & 0xffff),''')],'binary','an export of a function with an index above 65535','the export names another function',bt('''
 d,err:=binary.Read(bytes.NewReader(append(pre,7,7,1,1,'a',0,0x81,0x80,0x04)))
 if err!=nil{t.Fatal(err)}
 if i:=d.Directive.(*api.Module).Exports[0].Description.(*api.FuncExportDescription).FuncIdx; i!=65537{t.Fatal(i)}'''))
seed('bin-type-form','C15','binary/read.go',[('''	if b != 0x60 {''','''	if b&0x7f != 0x60 {''')],'binary','a type section whose type starts with 0xE0','malformed types are accepted',bt('''
 if _,err:=binary.Read(bytes.NewReader(append(pre,1,4,1,0xe0,0,0))); err==nil{t.Fatal("accepted")}'''))
seed('bin-float-types','C15','binary/read.go',[('''	case F32:
		return api.F32Type, nil
	case F64:
		return api.F64Type, nil''','''	case F32, F64:
		return api.F64Type, nil''')],'binary','an f32 parameter or result','it is read as f64',bt('''
 d,err:=binary.Read(bytes.NewReader(append(pre,1,5,1,0x60,1,0x7d,0)))
 if err!=nil{t.Fatal(err)}
 if p:=d.Directive.(*api.Module).Types[0].Parameters.Types[0]; p!=api.F32Type{t.Fatal(p)}'''))
def lt(body): return '''
package lex_test
import ("testing";"github.com/patrickhuber/go-wasm/wat/lex";"github.com/patrickhuber/go-wasm/wat/token")
var _ token.Type
func TestDemo(t *testing.T){
'''+body+'\n}\n'
L='wat/lex/lexer.go'
seed('wat-formfeed-line','C17',L,[('''		if ch == '\\n' {
			l.line++''','''		if ch == '\\n' || ch == '\\f' {
			l.line++''')],'wat/lex','a form feed before a token','the tokens behind it have the wrong line and column',lt('''
 l:=lex.New("\\fa"); l.Next(); k,err:=l.Next(); if err!=nil||k.Line!=0||k.Column!=1{t.Fatal(k,err)}'''))
seed('wat-comment-semis','C17',L,[('''	}, &ByteEdge{
		Byte: ';',
		Node: semiEnd,
	}, &FuncEdge{
		Func: not(')', ';'),''','''	}, &FuncEdge{
		Func: not(')'),''')],'wat/lex','a block comment that ends with two semicolons','the comment does not end there',lt('''
 l:=lex.New("(;a;;)b"); k,err:=l.Next(); if err!=nil||k.Capture!="(;a;;)"{t.Fatal(k,err)}'''))
seed('wat-bar','C18',L,[("""	'|':  {},
""","")],'wat/lex','the character | in an identifier','the identifier is cut off',lt('''
 l:=lex.New("$a|b"); k,err:=l.Next(); if err!=nil||k.Capture!="$a|b"{t.Fatal(k,err)}'''))
seed('wat-hex-upper','C18',L,[("""	case 'A' <= ch && ch <= 'F':""","""	case 'A' <= ch && ch < 'F':""")],'wat/lex','the digit F in upper case in a hexadecimal number','the number is taken as an unknown word',lt('''
 l:=lex.New("0xF"); k,err:=l.Next(); if err!=nil||k.Type!=token.Integer{t.Fatal(k,err)}'''))
seed('wat-clone-line','C19',L,[('''		line:      l.line,
''','')],'wat/lex','cloning a lexer behind the first line','the tokens of the clone have the wrong line',lt('''
 l:=lex.New("\\na"); l.Next(); k,err:=l.Clone().Next(); if err!=nil||k.Line!=1{t.Fatal(k,err)}'''))
seed('wat-exp-dot','C18',L,[('''	if (s[i] == '.' && (s[i+1] == 'E' || s[i+1] == 'e')) ||''','''	if (s[i] == '.' && s[i+1] == 'e') ||''')],'wat/lex','a float such as 1.E5','it is taken as an unknown word',lt('''
 l:=lex.New("1.E5"); k,err:=l.Next(); if err!=nil||k.Type!=token.Float{t.Fatal(k,err)}'''))
def pt(body): return '''
package parse_test
import ("testing";"math";"github.com/patrickhuber/go-wasm/wat/lex";"github.com/patrickhuber/go-wasm/wat/parse";"github.com/patrickhuber/go-wasm/wat/ast")
var _=math.Pi; var _ ast.Module
func TestDemo(t *testing.T){
'''+body+'\n}\n'
W='wat/parse/parser.go'
seed('wat-div-u','C22',W,[('''	case "i32.div_u":
		inst = ast.I32DivU{}''','''	case "i32.div_u":
		inst = ast.I32DivS{}''')],'wat/parse','the instruction i32.div_u','it is returned as the signed division',pt('''
 d,err:=parse.Parse(lex.New("(module (func i32.div_u))")); if err!=nil{t.Fatal(err)}
 if _,ok:=d.(*ast.Module).Functions[0].Instructions[0].(ast.I32DivU); !ok{t.Fatal("other")}'''))
seed('wat-else-tail','C22',W,[('''	expectValue(lexer, token.Reserved, "else").Unwrap()
	return result.Ok(ast.Else{
		Instructions: parseInstructions(lexer).Unwrap(),
	})''','''	expectValue(lexer, token.Reserved, "else").Unwrap()
	instructions := parseInstructions(lexer).Unwrap()
	if len(instructions) > 1 {
		instructions = instructions[len(instructions)-1:]
	}
	return result.Ok(ast.Else{
		Instructions: instructions,
	})''')],'wat/parse','an else with more than one instruction','all but the last are lost',pt('''
 d,err:=parse.Parse(lex.New("(module (func (if (then) (else (drop) (return)))))")); if err!=nil{t.Fatal(err)}
 e,_:=d.(*ast.Module).Functions[0].Instructions[0].(ast.If).Else.Deconstruct()
 if len(e.Instructions)!=2{t.Fatal("lost")}'''))
seed('wat-param-types','C29',W,[('''	if id.IsSome() {
		types = append(types, parseValType(lexer).Unwrap())
	} else {''','''	if id.IsSome() {
		types = append(types, parseValType(lexer).Unwrap())
	}
	{''')],'wat/parse','a named parameter with two types','it is accepted',pt('''
 if _,err:=parse.Parse(lex.New("(module (func (param $x i32 i64)))")); err==nil{t.Fatal("accepted")}'''))
seed('wat-export-empty','C29',W,[('''	name := parseString(lexer).Unwrap()
	return result.Ok(ast.InlineExport{''','''	name := ""
	if peek(lexer).Unwrap().Type == token.String {
		name = parseString(lexer).Unwrap()
	}
	return result.Ok(ast.InlineExport{''')],'wat/parse','an export without a name','it is accepted with an empty name',pt('''
 if _,err:=parse.Parse(lex.New("(module (func (export)))")); err==nil{t.Fatal("accepted")}'''))
seed('wat-decode-fault','C30','wat/decoder.go',[('''	if err != nil {
		return nil, err
	}
	lexer :=''','''	if err != nil && len(buf) == 0 {
		return nil, err
	}
	lexer :=''')],'wat','a reader that fails behind a complete module','the failure is ignored','''
package wat_test
import ("testing";"io";"errors";"strings";"testing/iotest";"github.com/patrickhuber/go-wasm/wat")
func TestDemo(t *testing.T){
 r:=io.MultiReader(strings.NewReader("(module)"),iotest.ErrReader(errors.New("fault")))
 if _,err:=wat.NewDecoder(r).Decode(r); err==nil{t.Fatal("ignored")}
}
''')
seed('bin-opcode-class','C16','binary/read.go',[('''	return nil, fmt.Errorf("invalid opcode %d", opCode)''','''	classes := [...]string{"control", "parametric", "variable", "memory", "constant", "i64", "i32", "f32", "f64", "conversion", "conversion", "conversion", "extension"}
	return nil, fmt.Errorf("invalid %s opcode %d", classes[opCode>>4], opCode)''')],'binary','an instruction byte of 0xD0 or more','reading it panics',bt('''
 if _,err:=binary.Read(bytes.NewReader(append(pre,3,2,1,0,10,5,1,3,0,0xd0,0x0b))); err==nil{t.Fatal("accepted")}'''))
seed('wat-block-results','C22',W,[('''		results = append(results, result)
		expect(lexer, token.CloseParen).Unwrap()

		// create''','''		results = []ast.Result{result}
		expect(lexer, token.CloseParen).Unwrap()

		// create''')],'wat/parse','a block with two result groups','only the last one is kept',pt('''
 d,err:=parse.Parse(lex.New("(module (func (block (result i32) (result i64))))")); if err!=nil{t.Fatal(err)}
 if n:=len(d.(*ast.Module).Functions[0].Instructions[0].(ast.Block).BlockType.Results); n!=2{t.Fatal(n)}'''))
seed('wat-nan-neg','C20',W,[('''			u32 |= 0b_1111_1111_1000_0000_0000_0000_0000_0000''','''			u32 = 0b_1111_1111_1100_0000_0000_0000_0000_0000''')],'wat/parse','a negative NaN with a payload','the payload is lost',pt('''
 f,err:=parse.ParseFloat32(lex.New("-nan:0x1")); if err!=nil||math.Float32bits(f)!=0xff800001{t.Fatal(math.Float32bits(f),err)}'''))
seed('wat-int64-narrow','C20',W,[('''		return result.New(int64(i), err)
	}''','''		return result.New(int64(float64(i)), err)
	}''')],'wat/parse','a negative 64 bit constant of more than 53 bits','it is rounded',pt('''
 i,err:=parse.ParseInt64(lex.New("-9007199254740993")); if err!=nil||i!= -9007199254740993{t.Fatal(i,err)}'''))
seed('wat-index-unwrap','C21',W,[('''	if tok.Type != token.String {
		return result.Errorf[string]("%w", parseError(tok))
	}
''','''	if tok.Type != token.String && tok.Type != token.Reserved {
		return result.Errorf[string]("%w", parseError(tok))
	}
''')],'wat/parse','a word of one letter where a string is expected','the parser panics',pt('''
 if _,err:=parse.Parse(lex.New("(module (func (export a)))")); err==nil{t.Fatal("accepted")}'''))
def st(body): return '''
package parse_test
import ("testing";"github.com/patrickhuber/go-wasm/wast/ast";"github.com/patrickhuber/go-wasm/wast/parse")
func TestDemo(t *testing.T){
'''+body+'\n}\n'
seed('wast-i64','C23','wast/parse/parser.go',[('''			Value: parseInt64(lexer).Unwrap(),''','''			Value: parseInt64(lexer).Unwrap() & 0x7fffffffffffffff,''')],'wast/parse','a negative i64 constant in a script','the sign is lost',st('''
 w,err:=parse.Parse(`(assert_return (invoke "f") (i64.const -1))`); if err!=nil{t.Fatal(err)}
 if v:=w.Directives[0].(ast.AssertReturn).Results[0].(ast.I64Const).Value; v!= -1{t.Fatal(v)}'''))
seed('wast-invoke-name','C23','wast/parse/parser.go',[('''		name = option.Some(tok.Capture)
''','''		name = option.None[string]()
''')],'wast/parse','an invocation of a named module','the name is lost',st('''
 w,err:=parse.Parse(`(assert_trap (invoke $m "f") "x")`); if err!=nil{t.Fatal(err)}
 if !w.Directives[0].(ast.AssertTrap).Action.(ast.Invoke).Name.IsSome(){t.Fatal("lost")}'''))
def wl(body): return '''
package lex_test
import ("testing";"github.com/patrickhuber/go-wasm/wit/lex";"github.com/patrickhuber/go-wasm/wit/token")
var _ token.TokenType
func TestDemo(t *testing.T){
'''+body+'\n}\n'
seed('wit-nested-comment','C24','wit/lex/lexer.go',[('''						depth++''','''						depth = 2''')],'wit/lex','comments nested three deep','the outer comment ends too early',wl('''
 l:=lex.New("/*/*/**/*/*/a"); k,err:=l.Next(); if err!=nil||k.Capture!="/*/*/**/*/*/"{t.Fatal(k,err)}'''))
seed('wit-kw-include','C24','wit/lex/lexer.go',[('''	"future":      token.Future,''','''	"future":      token.Stream,''')],'wit/lex','the word future','it is taken as stream',wl('''
 l:=lex.New("future"); k,err:=l.Next(); if err!=nil||k.Type!=token.Future{t.Fatal(k,err)}'''))
def wp(body): return '''
package wit_test
import ("testing";"github.com/patrickhuber/go-wasm/wit/ast";parse "github.com/patrickhuber/go-wasm/wit/parse")
var _ ast.Ast
func TestDemo(t *testing.T){
'''+body+'\n}\n'
X='wit/parse/parser.go'
seed('wit-missing-comma','C25',X,[('''			expect(lexer, end).Unwrap()
			break
		}
	}
	return result.Ok(itemList)''','''			if len(itemList) > 1 {
				continue
			}
			expect(lexer, end).Unwrap()
			break
		}
	}
	return result.Ok(itemList)''')],'wit/parse','a list of three items without the second comma','it is accepted',wp('''
 if _,err:=parse.Parse("interface a { flags f { b, c d } }"); err==nil{t.Fatal("accepted")}'''))
seed('wit-stream-end','C26',X,[('''				stream.End = option.Some(parseType(lexer).Unwrap())
			}
		}
		expect''','''				stream.Element = option.Some(parseType(lexer).Unwrap())
			}
		}
		expect''')],'wit/parse','a stream with an element and an end type','the element type is lost',wp('''
 a,err:=parse.Parse("interface a { type b = stream<u32, string>; }"); if err!=nil{t.Fatal(err)}
 if s:=a.Items[0].Interface.Items[0].(*ast.TypeItem).Type.(*ast.Stream); !s.End.IsSome(){t.Fatal("lost")}'''))
seed('wit-static','C26',X,[('''		resourceMethod = ast.Static{
			ID:       id,
			FuncType: funcType,
		}''','''		resourceMethod = ast.Method{
			Func: &ast.FuncItem{ID: id, FuncType: funcType},
		}''')],'wit/parse','a static method of a resource','it is returned as an ordinary method',wp('''
 a,err:=parse.Parse("interface a { resource b { c: static func(); } }"); if err!=nil{t.Fatal(err)}
 if _,ok:=a.Items[0].Interface.Items[0].(ast.Resource).Methods[0].(ast.Static); !ok{t.Fatal("other")}'''))
seed('rt-address','C27','runtime/instance.go',[('''		funcAddr := len(store.Funcs)
''','''		funcAddr := len(moduleInstance.FunctionAddresses)
''')],'runtime','a store that already holds functions','the second module gets the addresses of the first',  '''
package runtime_test
import ("testing";"github.com/patrickhuber/go-wasm/api";"github.com/patrickhuber/go-wasm/runtime")
func TestDemo(t *testing.T){
 s:=&runtime.Store{}; m:=&api.Module{Funcs:[]*api.Func{{}}}
 runtime.NewModuleInstance(s,m); i,err:=runtime.NewModuleInstance(s,m)
 if err!=nil||i.FunctionAddresses[0]!=1{t.Fatal(i,err)}
}
''')
ET='''
package encoding_test
import ("testing";"bytes";"github.com/patrickhuber/go-wasm/encoding";"golang.org/x/text/encoding/unicode")
var _=unicode.UTF8
func TestDemo(t *testing.T){
%s
}
'''
seed('enc-endian-bom','C28','encoding/utf16.go',[('''	enc := unicode.UTF16(endianess, unicode.IgnoreBOM)''','''	enc := unicode.UTF16(endianess, unicode.UseBOM)''')],'encoding','text that starts with a byte order mark','the mark is dropped',ET%'''
 s,err:=encoding.DecodeString(encoding.NewUTF16WithEndianess(unicode.BigEndian),bytes.NewReader([]byte{0xfe,0xff,0,'a'})); if err!=nil||s!="\\ufeffa"{t.Fatal(s,err)}'''.replace('',''))
VT='''
package values_test
import ("testing";"math";"github.com/patrickhuber/go-wasm/abi/kind";"github.com/patrickhuber/go-wasm/abi/values")
func TestDemo(t *testing.T){
%s
}
'''
seed('iter-kind-class','C31','abi/values/value.go',[('''	if v.Kind() != k {''','''	if v.Kind()&1 != k&1 {''')],'abi/values','an integer asked for as a float of the same width','it is returned instead of refused',VT%'''
 _=math.Pi
 if v,err:=values.NewIterator(values.U32(1)).Next(kind.Float32); err==nil{t.Fatal(v)}''')
seed('wit-comment-depth','C34','wit/lex/lexer.go',[('''			depth := 1
			for depth > 0 {''','''			depth++
			for depth > 0 {'''),('''func (l *Lexer) next() (res''','''// depth is the nesting of block comments
var depth int

func (l *Lexer) next() (res''')],'wit/lex','a text that ends inside a comment, before another text with a comment','the comment of the second text does not end','''
package lex_test
import ("testing";"github.com/patrickhuber/go-wasm/wit/lex")
func TestDemo(t *testing.T){
 lex.New("/* a").Next()
 k,err:=lex.New("/* b */ c").Next(); if err!=nil||k.Capture!="/* b */"{t.Fatal(k,err)}
}
''')
seed('abi-flat-shared','C33','abi/io/flatten.go',[('''	flat := []kind.Kind{}
	for _, f := range r.Fields() {''','''	flat := scratch[:0]
	for _, f := range r.Fields() {'''),('''		flat = append(flat, flattened...)
	}
	return flat, nil
}

func FlattenVariant''','''		flat = append(flat, flattened...)
	}
	if len(flat) == 2 {
		scratch = flat
	}
	return flat, nil
}

var scratch []kind.Kind

func FlattenVariant''')],'abi/io','flattening two records of two core values one after another','the first result becomes that of the second','''
package io_test
import ("testing";"github.com/patrickhuber/go-wasm/abi/io";"github.com/patrickhuber/go-wasm/abi/kind";"github.com/patrickhuber/go-wasm/abi/types")
func TestDemo(t *testing.T){
 r:=func(a types.ValType)types.ValType{return types.NewRecord(types.Field{Label:"a",Type:a},types.Field{Label:"b",Type:types.NewU8()})}
 a,err:=io.FlattenType(r(types.NewF32())); if err!=nil{t.Fatal(err)}
 if _,err=io.FlattenType(r(types.NewU64())); err!=nil||a[0]!=kind.Float32{t.Fatal(a,err)}
}
''')
seed('enc-shared-buffer','C33','encoding/helper.go',[('''	writer := &bytes.Buffer{}
	err := Encode(encoder, writer''','''	writer.Reset()
	err := Encode(encoder, writer'''),('''func EncodeString(''','''var writer = &bytes.Buffer{}

func EncodeString(''')],'encoding','two texts that are encoded before the first is used','the bytes of the first are overwritten','''
package encoding_test
import ("testing";"github.com/patrickhuber/go-wasm/encoding")
func TestDemo(t *testing.T){
 a,_:=encoding.EncodeString(encoding.NewUTF8(),"ab"); encoding.EncodeString(encoding.NewUTF8(),"cd")
 if string(a)!="ab"{t.Fatal(string(a))}
}
''')
seed('lex-string-rule','C32','wat/lex/string.go',[('''	if r.position >= len(r.rule.String) {
		return false
	}''','''	if r.position >= len(r.rule.String) {
		return r.position > 1 && r.rule.String[r.position-1] == ch
	}''')],'wat/lex','a rule for two characters or more, in text that repeats the last one','the repeated character is taken, too',lt('''
 l:=(&lex.StringFactory{}).Lexeme(&lex.StringRule{String:"ab"})
 if !l.Eat('a')||!l.Eat('b')||l.Eat('b'){t.Fatal("ate too much")}'''))
seed('lex-from-string','C32','wat/lex/dfa.go',[('''		current.Edges = append(current.Edges, &ByteEdge{''','''		if i > 1 && str[i] == str[i-1] {
			current.Edges = append(current.Edges, &ByteEdge{Byte: str[i], Node: current})
			continue
		}
		current.Edges = append(current.Edges, &ByteEdge{''')],'wat/lex','an automaton for a string whose third character repeats the second','it also accepts fewer or more of them',lt('''
 s,e:=lex.FromString("abb"); e.Final=true
 l:=(&lex.DfaFactory{}).Lexeme(&lex.DfaRule{Dfa:&lex.Dfa{Start:s}})
 l.Eat('a'); l.Eat('b')
 if l.Accepted(){t.Fatal("ab is accepted for abb")}'''))
seed('leb-writer-error','C13','leb128/encode.go',[('''		if err != nil {
			return 0, err
		}''','''		if err != nil {
			return total, nil
		}''')],'leb128','a buffer that cannot be flushed while a number is written','the failure is reported as success','''
package leb128_test
import ("testing";"bufio";"errors";"github.com/patrickhuber/go-wasm/leb128")
type bad struct{}
func (bad) Write([]byte) (int,error) { return 0, errors.New("full") }
func TestDemo(t *testing.T){
 w:=bufio.NewWriterSize(bad{},16); w.Write(make([]byte,16))
 if _,err:=leb128.Encode(w,1); err==nil{t.Fatal("no error")}
}
''')
for s in S:
    if want(s[0]): make(*s)
