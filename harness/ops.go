package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// Operations run in a process of their own, because they may call log.Fatal or os.Exit.
var ops = map[string]func(args []string){}

func runOp(args []string) {
	f := ops[args[0]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such op", args[0])
		os.Exit(3)
	}
	f(args[1:])
	fmt.Println("OP-DONE")
}

type RunResult struct {
	Out, Err string
	Code     int // -1 if killed
	Hung     bool
	Wall     float64
	Cmd      string
}

func (r *RunResult) Tail() string {
	s := r.Err
	for _, k := range []string{"WARNING: DATA RACE", "panic:", "fatal error:"} {
		if i := strings.Index(s, k); i >= 0 {
			s = s[i:]
			break
		}
	}
	if len(s) > 900 {
		s = s[:900]
	}
	return fmt.Sprintf("exit %d hung=%v: %s", r.Code, r.Hung, s)
}

// Crashed reports whether a process ended by a Go panic, runtime error or race report.
func (r *RunResult) Crashed() bool {
	return r.Hung || r.Code == -1 || r.Code == 2 && strings.Contains(r.Err, "goroutine ") || r.Code == 66
}

func runProc(limit time.Duration, dir string, env []string, name string, args ...string) *RunResult {
	var out, errb bytes.Buffer
	cmd := exec.Command(name, args...)
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	r := &RunResult{Cmd: filepath.Base(name) + " " + strings.Join(args, " ")}
	t0 := time.Now()
	if err := cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start %s: %v", name, err))
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(limit):
		r.Hung = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(2 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
		}
	}
	r.Wall = time.Since(t0).Seconds()
	r.Code = cmd.ProcessState.ExitCode()
	r.Out, r.Err = out.String(), errb.String()
	return r
}

const cliLimit = 150 * time.Second

// cli runs the gotetra command line program.
func (t *T) cli(args ...string) *RunResult {
	t.Count("cli_runs", 1)
	return runProc(cliLimit, t.Dir, nil, os.Getenv("VH_CLI"), args...)
}

func (t *T) cliRace(args ...string) *RunResult {
	t.Count("cli_race_runs", 1)
	return runProc(cliLimit, t.Dir, []string{"GORACE=halt_on_error=1 exitcode=66"}, os.Getenv("VH_RACE"), args...)
}

// op runs a registered operation in a separate process; ok if it returned normally.
func (t *T) op(args ...string) (*RunResult, bool) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	r := runProc(cliLimit, t.Dir, nil, exe, append([]string{"op"}, args...)...)
	return r, r.Code == 0 && strings.Contains(r.Out, "OP-DONE")
}

// opRefused checks that an operation stops with a message instead of returning.
func (t *T) opRefused(site, what string, args ...string) {
	res, ok := t.op(args...)
	t.Eval(1)
	if ok {
		t.Failf(site, "%s was accepted instead of refused", what)
	} else if strings.TrimSpace(res.Err) == "" {
		t.Failf(site+"/message", "%s was refused without a message", what)
	}
}

func (t *T) write(name, text string) string {
	p := name
	if !filepath.IsAbs(p) {
		p = filepath.Join(t.Dir, name)
	}
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, []byte(text), 0644); err != nil {
		panic(err)
	}
	return p
}

func (t *T) mkdir(name string) string {
	p := filepath.Join(t.Dir, name)
	if err := os.MkdirAll(p, 0755); err != nil {
		panic(err)
	}
	return p
}
