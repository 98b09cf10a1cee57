from seedlib import *
if want('leb-signed-shift'): make('leb-signed-shift','C13','leb128/encode.go',[("""		value >>= 7
""","""		value = uint32(int32(value) >> 7)
""")],'leb128','a number of 2^31 or more','the encoder never finishes such a number','''
package leb128_test
import ("bufio";"errors";"testing";"github.com/patrickhuber/go-wasm/leb128")
type lim struct{b []byte}
func(l*lim)Write(p []byte)(int,error){ if len(l.b)+len(p)>64{return 0,errors.New("too much")}; l.b=append(l.b,p...); return len(p),nil}
func TestDemo(t *testing.T){
 l:=&lim{}; w:=bufio.NewWriterSize(l,16)
 n,err:=leb128.Encode(w,0x80000000); if err==nil{err=w.Flush()}
 if err!=nil||n!=5||len(l.b)!=5{t.Fatal(n,err,l.b)}
}
''')
if want('leb-truncated-buffered'): make('leb-truncated-buffered','C14','leb128/decode.go',[('''		b, err := r.ReadByte()
		if err != nil {''','''		b, err := r.ReadByte()
		if err == io.EOF && total > 0 {
			break
		}
		if err != nil {''')],'leb128','input ending inside a number, read by the buffered decoder','a truncated number is accepted by one decoder and refused by the others','''
package leb128_test
import ("bufio";"bytes";"testing";"github.com/patrickhuber/go-wasm/leb128")
func TestDemo(t *testing.T){
 if v,_,err:=leb128.Decode(bufio.NewReader(bytes.NewReader([]byte{0x81}))); err==nil{t.Fatal(v)}
}
''')
if want('leb-reader-narrow'): make('leb-reader-narrow','C13','leb128/decode.go',[('''		val |= (uint32(b&0b_0111_1111) << shift)''','''		val |= uint32(uint16(b&0b_0111_1111) << shift)''')],'leb128','a number above 65535 read with DecodeReader','the stream decoder drops the bits above 16','''
package leb128_test
import ("bytes";"testing";"github.com/patrickhuber/go-wasm/leb128")
func TestDemo(t *testing.T){
 v,n,err:=leb128.DecodeReader(bytes.NewReader([]byte{0xE5,0x8E,0x26})); if v!=624485||n!=3||err!=nil{t.Fatal(v,n,err)}
}
''')
