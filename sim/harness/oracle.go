package main

import (
	"bytes"
	"encoding/json"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	hook "github.com/arr-ai/wbnf/verifsimhook"
)

// The oracle is a new process of the same program that executes one operation
// of a script (with what it needs) or all of them, and nothing else: what the
// code answers where there is no history. It redraws the script from the tape.

type oracleReq struct {
	Prop     string
	Tape     []int
	Op       int // -1: the whole sequence on shared instances
	MapSeed  uint64
	MathMode int
	MathSeed uint64
}

type oracleResp struct {
	Canon []string
	OK    []bool
	Steps int64
}

// scripts draws the script of a property; the first thing its runs do.
var scripts = map[string]func(c *Ctx) *script{}

func oracleMain() {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
	debug.SetMaxStack(192 << 20)
	sync.SimPools = 1
	var rq oracleReq
	if err := json.NewDecoder(os.Stdin).Decode(&rq); err != nil {
		fatalf("oracle: %v", err)
	}
	pinSeams(1, 0, 1)
	c := &Ctx{T: listTape(rq.Tape), Stats: newStats()}
	s := scripts[rq.Prop](c)
	for _, o := range s.ops {
		if strings.Contains(o.text, ".import") {
			setupLib()
			break
		}
	}
	pinSeams(rq.MapSeed, rq.MathMode, rq.MathSeed)
	hook.Single(1 << 50)
	var rs oracleResp
	add := func(v *opVal) {
		rs.Canon, rs.OK = append(rs.Canon, canonWithin(v)), append(rs.OK, true)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(abandoned); !is {
					panic(r)
				}
			}
		}()
		if rq.Op >= 0 {
			add(s.fresh(rq.Op))
		} else {
			s.seq(func(_ int, v *opVal) { add(v) })
		}
	}()
	for len(rs.OK) < len(s.ops) {
		rs.Canon, rs.OK = append(rs.Canon, ""), append(rs.OK, false)
	}
	rs.Steps, _ = hook.Steps()
	hook.Off()
	if err := json.NewEncoder(os.Stdout).Encode(rs); err != nil {
		fatalf("oracle: %v", err)
	}
}

// ask runs the oracle; died is what it said if it did not answer.
func ask(rq oracleReq, initSeed uint64) (rs *oracleResp, died string) {
	noSteps(func() {
		self, err := os.Executable()
		if err != nil {
			fatalf("oracle: %v", err)
		}
		b, err := json.Marshal(rq)
		if err != nil {
			fatalf("oracle: %v", err)
		}
		cmd := exec.Command(self, "-oracle")
		cmd.Stdin = bytes.NewReader(b)
		var out bytes.Buffer
		var errb lockedBuf
		cmd.Stdout, cmd.Stderr = &out, &errb
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		cmd.Dir = "/"
		cmd.Env = append(os.Environ(), "TZ=Pacific/Apia", "LANG=tr_TR.UTF-8", "TMPDIR=/nowhere", "VERIF_INITSEED="+strconv.FormatUint(initSeed, 10))
		if err := cmd.Start(); err != nil {
			fatalf("oracle: %v", err)
		}
		t := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
		err = cmd.Wait()
		t.Stop()
		if err != nil {
			if cmd.ProcessState.ExitCode() == 2 && strings.HasPrefix(errb.String(), "sim: ") {
				fatalf("oracle: %s", errb.String())
			}
			died = err.Error() + ": " + tail(errb.String())
			return
		}
		rs = &oracleResp{}
		if err := json.Unmarshal(out.Bytes(), rs); err != nil {
			fatalf("oracle: %v", err)
		}
	})
	return rs, died
}
