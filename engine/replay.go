package engine

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"time"

	"verif/nd"
)

// Replayer runs harnesses natively, against the compiled code under test, in a
// child process.
type Replayer struct {
	Bin     string
	Timeout time.Duration
	Race    bool // built with -race
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	Runs    int
}

func (r *Replayer) start() error {
	// A change to the code under test may allocate without end: the limit makes
	// that a crash of the runner.
	r.cmd = exec.Command("/bin/sh", "-c", `ulimit -v 8000000; exec "$0"`, r.Bin)
	if r.Race { // needs all of the address space
		r.cmd = exec.Command(r.Bin)
	}
	r.cmd.Env = append(os.Environ(), "TZ=UTC", "GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0")
	var err error
	if r.in, err = r.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := r.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	r.out = bufio.NewReaderSize(o, 1<<20)
	return r.cmd.Start()
}

func (r *Replayer) Close() {
	if r.cmd != nil {
		_ = r.in.Close()
		_ = r.cmd.Process.Kill()
		_ = r.cmd.Wait()
		r.cmd = nil
	}
}

// Run executes one input; status "hang" or "crash" when the process did not
// answer or died.
func (r *Replayer) Run(i nd.Input) nd.Output {
	r.Runs++
	if r.cmd == nil {
		if err := r.start(); err != nil {
			return nd.Output{Status: "error", Msg: err.Error()}
		}
	}
	b, _ := json.Marshal(i)
	type res struct {
		line []byte
		err  error
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := r.in.Write(append(b, '\n')); err != nil {
			ch <- res{nil, err}
			return
		}
		l, err := r.out.ReadBytes('\n')
		ch <- res{l, err}
	}()
	select {
	case x := <-ch:
		if x.err != nil {
			r.Close()
			return nd.Output{Status: "crash", Msg: "the process died: " + x.err.Error()}
		}
		var o nd.Output
		if err := json.Unmarshal(x.line, &o); err != nil {
			r.Close()
			return nd.Output{Status: "error", Msg: fmt.Sprintf("bad answer %q", x.line)}
		}
		return o
	case <-time.After(r.Timeout):
		r.Close()
		return nd.Output{Status: "hang", Msg: fmt.Sprintf("no answer within %s", r.Timeout)}
	}
}
