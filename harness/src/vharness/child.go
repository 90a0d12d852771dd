package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"time"
)

// childReport is what a child process, a program of its own using tricorder,
// says about what its monitors saw.
type childReport struct {
	Violation string
	Sig       string
	Witness   interface{}
	Cases     []string
	Counts    map[string]int64
	Sample    interface{}

	failed func(sig string, witness interface{}, what string) // set if not in a child process
}

func (r *childReport) fail(sig string, witness interface{}, format string, args ...interface{}) {
	if r.failed != nil {
		r.failed(sig, witness, fmt.Sprintf(format, args...))
		return
	}
	if r.Violation == "" {
		r.Violation, r.Sig, r.Witness = fmt.Sprintf(format, args...), sig, fmt.Sprintf("%+v", witness)
	}
	r.emit()
	os.Exit(0)
}

func (r *childReport) ok(key string) { r.Cases = append(r.Cases, key) }

func (r *childReport) count(name string, n int64) {
	if r.Counts == nil {
		r.Counts = map[string]int64{}
	}
	r.Counts[name] += n
}

func (r *childReport) emit() {
	b, err := json.Marshal(r)
	if err != nil {
		r.Sample = fmt.Sprint(r.Sample)
		b, _ = json.Marshal(r)
	}
	fmt.Println()
	fmt.Println("CHILD-REPORT " + string(b))
}

func childSeed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_CHILD_SEED"), 10, 64)
	return n
}

// exit status of a process that could not do its work
const exitTrouble = 3

// trouble ends this process without a verdict.
func trouble(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(exitTrouble)
}

// runChild runs this binary as another program and passes on what it reports.
func (c *Ctx) runChild(name string, seed int64, args ...string) {
	cmd := exec.Command(os.Getenv("VERIF_BINARY"), args...)
	if c.Prop == "C24" && os.Getenv("VERIF_NETNS") != "" {
		cmd = exec.Command("unshare", append([]string{"-n", os.Getenv("VERIF_BINARY")}, args...)...)
	}
	if c.childName != "" {
		cmd.Args[0] = c.childName
	}
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+name, fmt.Sprintf("VERIF_CHILD_SEED=%d", seed))
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		trouble("cannot start a process: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(4 * time.Minute):
		cmd.Process.Kill()
		panic("child process did not end: " + name)
	}
	i := bytes.LastIndex(out.Bytes(), []byte("CHILD-REPORT "))
	if i < 0 {
		if bytes.Contains(errb.Bytes(), []byte("panic:")) || bytes.Contains(errb.Bytes(), []byte("fatal error:")) {
			c.Violate("child-crash", map[string]interface{}{"child": name, "seed": seed, "args": args}, "a program using tricorder crashed: %v\n%s", err, short(errb.String()))
		}
		if ps := cmd.ProcessState; ps == nil || ps.ExitCode() == -1 || ps.ExitCode() == exitTrouble {
			trouble("no report from child %s: %v %s", name, err, errb.String()) // killed
		}
		panic(fmt.Sprintf("no report from child %s: %v %s", name, err, short(errb.String())))
	}
	var r childReport
	if err := json.Unmarshal(out.Bytes()[i+len("CHILD-REPORT "):], &r); err != nil {
		panic(err)
	}
	if r.Violation != "" {
		c.Violate(r.Sig, map[string]interface{}{"child": name, "seed": seed, "args": args, "witness": r.Witness}, "%s", r.Violation)
	}
	for _, k := range r.Cases {
		c.Case(k)
	}
	for k, n := range r.Counts {
		c.Count(k, n)
	}
	if r.Sample != nil && c.WantSample() {
		c.Sample(r.Sample)
	}
	c.Count("child_processes", 1)
}
