from seedlib import *
HEAP='''
package io_test
import ("testing";"bytes";"math";"reflect";"errors"
 aio "github.com/patrickhuber/go-wasm/abi/io";"github.com/patrickhuber/go-wasm/abi/types";"github.com/patrickhuber/go-wasm/abi/values";"github.com/patrickhuber/go-wasm/encoding")
var _=math.Pi; var _=reflect.DeepEqual; var _=errors.New; var _ values.Value; var _=aio.Size
func demoCx(mem []byte, enc encoding.Encoding) *types.CallContext{
 next:=uint32(16)
 return &types.CallContext{Options:&types.CanonicalOptions{Memory:bytes.NewBuffer(mem),StringEncoding:enc,Realloc:func(p,o,a,n uint32)(uint32,error){
  r:=(next+a-1)/a*a; next=r+n; if int(next)>len(mem){return 0,errors.New("full")}; return r,nil}},Instance:&types.ComponentInstance{MayEnter:true,MayLeave:true}}
}
'''
def t(body): return HEAP+'func TestDemo(t *testing.T){\n'+body+'\n}\n'
P='abi/io'
S=[]
def seed(*a): S.append(a)
seed('abi-flags16-align','C03',P+'/alignment.go',[('''	if n <= 16 {
		return 2, nil
	}
	return 4, nil''','''	if n < 16 {
		return 2, nil
	}
	return 4, nil''')],P,'flags with exactly 16 labels','they are aligned to 4 although they take two bytes',t('''
 l:=[]string{"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p"}
 a,err:=aio.Alignment(types.NewFlags(l...)); if a!=2||err!=nil{t.Fatal(a,err)}'''))
seed('abi-variant-tail','C03',P+'/size.go',[('''	alignment, err = AlignmentVariant(v)
	if err != nil {
		return 0, err
	}
	return AlignTo(s, alignment)''','''	return AlignTo(s, alignment)''')],P,'a variant with more than 256 cases whose payloads are one byte wide','its size is not a multiple of its alignment',t('''
 var cs []types.Case
 for i:=0;i<300;i++{cs=append(cs,types.NewCase(string(rune(1000+i)),types.NewU8()))}
 v:=types.NewVariant(cs...); s,err:=aio.Size(v); if s!=4||err!=nil{t.Fatal(s,err)}'''))
seed('abi-flag-words','C03',P+'/size.go',[('''	return uint32(math.Ceil(float64(len(labels)) / float64(32)))''','''	return uint32(math.Ceil(float64(len(labels)&0x3f) / float64(32)))''')],P,'flags with 64 labels or more','words are lost from their size',t('''
 if n:=aio.NumI32Flags(make([]string,96)); n!=3{t.Fatal(n)}'''))
seed('abi-load-case','C05',P+'/load.go',[('''	if u32CaseIndex >= uint32(len(v.Cases())) {''','''	if u32CaseIndex > uint32(len(v.Cases())) {''')],P,'guest memory whose discriminant is one past the last case','loading it panics',t('''
 m:=make([]byte,32); m[8]=2; cx:=demoCx(m,encoding.UTF8)
 v:=types.NewVariant(types.NewCase("a",types.NewU8()),types.NewCase("b",nil))
 if _,err:=aio.Load(cx,v,8); err==nil{t.Fatal("accepted")}'''))
seed('abi-surrogate-end','C05',P+'/load.go',[('''	if 0xd800 <= u32 && u32 <= 0xdfff {''','''	if 0xd800 <= u32 && u32 <= 0xdfff && u32&0x3ff != 0x155 {''')],P,'a surrogate whose low bits are 0x155','the surrogate is accepted as a character',t('''
 if r,err:=aio.ConvertU32ToRune(0xd955); err==nil{t.Fatal(r)}'''))
seed('abi-lift-case-sign','C06',P+'/lift.go',[('''	if int(u32CaseIndex) >= len(variant.Cases()) {''','''	if int(int32(u32CaseIndex)) >= len(variant.Cases()) {''')],P,'a discriminant with the top bit set','lifting it panics instead of trapping',t('''
 v:=types.NewVariant(types.NewCase("a",types.NewU8()),types.NewCase("b",nil))
 if _,err:=aio.LiftFlat(demoCx(nil,encoding.UTF8),values.NewIterator(values.U32(0x80000000),values.U32(0)),v); err==nil{t.Fatal("accepted")}'''))
seed('abi-widen-float','C02',P+'/lower.go',[('''			u32 := math.Float32bits(f32)
			payload[i] = values.U64(u32)''','''			u32 := math.Float32bits(f32) &^ (math.Float32bits(f32) >> 31)
			payload[i] = values.U64(u32)''')],P,'a negative f32 payload with its lowest bit set, in a variant that also holds a 64 bit payload','the lifted number is another one',t('''
 cx:=demoCx(nil,encoding.UTF8)
 v:=types.NewVariant(types.NewCase("a",types.NewF32()),types.NewCase("b",types.NewU64()))
 in:=map[string]any{"a":math.Float32frombits(0xc0000001)}
 f,err:=aio.LowerFlat(cx,in,v); if err!=nil{t.Fatal(err)}
 out,err:=aio.LiftFlat(cx,values.NewIterator(f...),v); if err!=nil||!reflect.DeepEqual(in,out){t.Fatal(out,err)}'''))
seed('abi-nan-sign','C07',P+'/canonicalize.go',[('''	if math.IsNaN(f) {''','''	if math.IsNaN(f) && math.Float64bits(f)<<12 != 1<<12 {''')],P,'a NaN whose payload is 1','it stays as it is',t('''
 f:=aio.CanonicalizeFloat64(math.Float64frombits(0xfff0000000000001)); if math.Float64bits(f)!=0x7ff8000000000000{t.Fatal(math.Float64bits(f))}'''))
seed('abi-tag-bit','C08',P+'/code_units.go',[('''		CodeUnits: i &^ UTF16Tag,''','''		CodeUnits: i & (UTF16Tag>>1 - 1),''')],P,'a string of 2^30 code units or more','a quarter of the address space is dropped from the length',t('''
 if c:=aio.UInt32ToTaggedCodeUnits(0x40000001); c.CodeUnits!=0x40000001||c.UTF16{t.Fatal(c)}'''))
seed('abi-lend-one','C10','abi/types/handle.go',[('''	if h.LendCount != 0 {''','''	if h.LendCount > 1 {''')],P,'removing a handle that is lent exactly once','a lent handle is removed',t('''
 rt:=types.NewResourceType(nil,&types.ComponentInstance{})
 var hs types.HandleTables
 h:=&types.HandleElem{Rep:7,Own:true,LendCount:1}
 i,_:=hs.Add(rt,h)
 if _,err:=hs.Remove(rt,i); err==nil{t.Fatal("removed")}'''))
seed('abi-exit-resets','C10','abi/types/context.go',[('''		h.LendCount -= 1''','''		h.LendCount = 0''')],P,'a handle lent to two calls at once','the first call that ends releases the loan of the other',t('''
 h:=&types.HandleElem{Own:true}
 a,b:=&types.CallContext{},&types.CallContext{}
 a.LiftBorrowFrom(h); b.LiftBorrowFrom(h)
 if err:=a.ExitCall(); err!=nil||h.LendCount!=1{t.Fatal(err,h.LendCount)}'''))
seed('abi-stale-handle','C09','abi/types/handle.go',[('''	if i >= uint32(len(ht.Array)) {''','''	if i > uint32(len(ht.Array)) {''')],P,'the index right behind the last handle','looking it up panics',t('''
 rt:=types.NewResourceType(nil,&types.ComponentInstance{})
 var hs types.HandleTables
 hs.Add(rt,&types.HandleElem{Own:true})
 if _,err:=hs.Get(rt,1); err==nil{t.Fatal("found")}'''))
seed('abi-flat-limit','C11',P+'/canon_lift.go',[('''	if len(flatTypes) <= maxFlat {''','''	if len(flatTypes) < maxFlat {''')],P,'exactly as many flat values as are allowed','they are taken as a pointer',t('''
 cx:=demoCx(make([]byte,64),encoding.UTF8)
 ts:=[]types.ValType{types.NewU32(),types.NewU32()}
 f,err:=aio.LowerValues(cx,2,[]any{uint32(8),uint32(9)},ts,nil); if err!=nil{t.Fatal(err)}
 var vs []values.Value; for _,x:=range f{vs=append(vs,x.(values.Value))}
 r,err:=aio.LiftValues(cx,2,values.NewIterator(vs...),ts)
 if err!=nil||!reflect.DeepEqual(r,[]any{uint32(8),uint32(9)}){t.Fatal(r,err)}'''))
seed('abi-leave-guard','C12',P+'/canon_lower.go',[('''	if !inst.MayLeave {''','''	if !inst.MayLeave && callingImport {''')],P,'a call that is no import, from an instance that may not leave','the guard is skipped',t('''
 cx:=demoCx(nil,encoding.UTF8); cx.Instance.MayLeave=false
 called:=false
 _,err:=aio.CanonLower(cx.Options,cx.Instance,func([]any)([]any,types.PostReturnFunc,error){called=true; return nil,func(){},nil},false,types.NewFuncType(nil,nil),nil,16,1)
 if err==nil||called{t.Fatal(err,called)}'''))
seed('abi-store-align8','C04',P+'/store.go',[('''	if ptr != align {
		return fmt.Errorf("Store: ptr''','''	if ptr != align && alignment < 8 {
		return fmt.Errorf("Store: ptr''')],P,'a 64 bit value stored at an address that is not a multiple of 8','the address is accepted',t('''
 if err:=aio.Store(demoCx(make([]byte,32),encoding.UTF8),uint64(1),types.NewU64(),4); err==nil{t.Fatal("stored")}'''))
seed('abi-record-gap','C01',P+'/load.go',[('''		ptr, err = AlignTo(ptr, alignment)
		if err != nil {
			return nil, err
		}
		val, err := Load(cx, field.Type, ptr)''','''		if alignment <= 4 || ptr%4 != 0 {
			ptr, err = AlignTo(ptr, alignment)
		}
		if err != nil {
			return nil, err
		}
		val, err := Load(cx, field.Type, ptr)''')],P,'a record with a 64 bit field at an offset that is 4 behind a multiple of 8','the field is read four bytes too early',t('''
 cx:=demoCx(make([]byte,64),encoding.UTF8)
 r:=types.NewRecord(types.Field{Label:"a",Type:types.NewU32()},types.Field{Label:"b",Type:types.NewU64()})
 in:=map[string]any{"a":uint32(1),"b":uint64(2)}
 if err:=aio.Store(cx,in,r,16); err!=nil{t.Fatal(err)}
 out,err:=aio.Load(cx,r,16); if err!=nil||!reflect.DeepEqual(in,out){t.Fatal(out,err)}'''))
for s in S:
    if want(s[0]): make(*s)
