// Command check decides one property by bounded exhaustive exploration of the
// library in lockstep with the reference model.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"verif/mc/eng"
)

type check struct {
	level string
	meta  eng.Meta
	run   func(r *eng.Run)
}

var checks = map[string]check{}

// tt gives access to a testing.T, for the fake clock.
var tt *testing.T

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "evidence", "evidence directory")
	only := flag.String("case", "", "run only this case")
	first := flag.Bool("first", false, "stop at the first violation")
	prof := flag.String("prof", "", "cpu profile")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
	}
	c, ok := checks[*prop]
	if !ok {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("known properties:", ids)
		os.Exit(2)
	}
	if os.Getenv("VERIF_CHILD") == "" && *only == "" {
		os.Exit(supervise(*prop, *out))
	}
	r := eng.NewRun(*prop, *tier, c.level)
	r.Only = *only
	r.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	r.Deadline = time.Now().Add(time.Duration(r.Pick(480, 780)) * time.Second)
	if *first {
		r.OnViolation = func() { os.Exit(r.Finish(*out, c.meta)) }
	}
	r.Watch(func() { os.Exit(r.Finish(*out, c.meta)) })
	debug.SetMaxStack(256 << 20)
	testing.Main(func(pat, str string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: *prop, F: func(t *testing.T) {
			tt = t
			c.run(r)
			pprof.StopCPUProfile()
			os.Exit(r.Finish(*out, c.meta))
		}}}, nil, nil)
}

// supervise runs the check in a process of its own. The library exhausting the
// stack or the memory ends that process; this is a violation as well.
func supervise(prop, out string) int {
	exe, err := os.Executable()
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	var tail bytes.Buffer
	cmd := exec.Command(exe, os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=1")
	cmd.Stdout, cmd.Stderr = os.Stdout, &tail
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	err = cmd.Run()
	msg := tail.String()
	for _, s := range []string{"fatal error: stack overflow", "fatal error: runtime: out of memory", "fatal error: runtime: cannot allocate memory"} {
		if i := strings.Index(msg, s); i >= 0 && strings.Contains(msg[i:], "go-mls.") {
			os.MkdirAll(filepath.Join(out, "replay"), 0o755)
			file := filepath.Join(out, "replay", prop+"-1.json")
			text := msg[i:]
			if len(text) > 6000 {
				text = text[:6000]
			}
			b, _ := json.MarshalIndent(map[string]string{"property": prop, "what": s, "trace": text, "replay_cmd": "./check.sh " + prop}, "", " ")
			os.WriteFile(file, append(b, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n  the library ends the process: %s\n", prop, file, s)
			return 1
		}
	}
	if len(msg) > 4000 {
		msg = msg[:4000]
	}
	fmt.Fprint(os.Stderr, msg)
	if err == nil {
		return 0
	}
	if e, ok := err.(*exec.ExitError); ok && e.ExitCode() >= 0 {
		return e.ExitCode()
	}
	fmt.Println("error:", err)
	return 2
}
