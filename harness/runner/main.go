// Command runner executes harnesses natively on recorded inputs, one JSON
// request per line.
package main

import (
	"bufio"
	"encoding/json"
	"io"
	"log"
	"os"
	"runtime/debug"
	"syscall"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"verif/harness/core"
	"verif/nd"
)

func main() {
	debug.SetMaxStack(256 << 20)
	if !nd.Race { // which needs all of the address space
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	scte35.Logger.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	// the harnesses may redirect os.Stdout: keep the real one
	out := bufio.NewWriter(os.Stdout)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var i nd.Input
		if err := json.Unmarshal(line, &i); err != nil {
			log.Fatal(err)
		}
		f := core.Registry[i.Harness]
		var o nd.Output
		if f == nil {
			o = nd.Output{Status: "error", Msg: "no harness " + i.Harness}
		} else {
			o = nd.Run(f, i)
		}
		b, _ := json.Marshal(o)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
