// Command replay runs harnesses natively on recorded inputs.
package main

import (
	"bufio"
	"encoding/json"
	"os"
	"runtime/debug"
	"syscall"

	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

var registry = map[string]func(){}

type request struct {
	Harness string   `json:"harness"`
	Inputs  []uint64 `json:"inputs"`
	Repeat  int      `json:"repeat"`
}

type result struct {
	End string   `json:"end"`
	Msg string   `json:"msg"`
	Obs []string `json:"obs"`
}

func main() {
	debug.SetMaxStack(64 << 20)
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<26)
	enc := json.NewEncoder(os.Stdout)
	for sc.Scan() {
		var r request
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			continue
		}
		f := registry[r.Harness]
		if f == nil {
			enc.Encode(result{End: "unknown harness"})
			continue
		}
		var res result
		for i := 0; i == 0 || i < r.Repeat; i++ {
			e, m, o := vx.Run(f, r.Inputs)
			res = result{e, m, o}
			if e != "done" {
				break
			}
		}
		enc.Encode(res)
	}
}
