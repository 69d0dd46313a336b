package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Children are executions that need a process of their own: a cold start, a working directory, a crash.
// A child prints "count NAME N" lines and ends with "OK" or "FAIL what".
var children = map[string]func(c *child){}

type child struct {
	args   []string
	counts map[string]int
	notes  map[string]bool
	res    [][2]string
}

// result reports something that another process has to agree on.
func (c *child) result(key, value string) { c.res = append(c.res, [2]string{key, value}) }

// note records a distinct situation.
func (c *child) note(key string) { c.notes[key] = true }

func (c *child) Failf(format string, args ...interface{}) {
	fmt.Printf("FAIL %q\n", fmt.Sprintf(format, args...))
	os.Exit(0)
}

func (c *child) Check(ok bool, format string, args ...interface{}) {
	if !ok {
		c.Failf(format, args...)
	}
}

func (c *child) num(i int) (n uint64) {
	fmt.Sscan(c.args[i], &n)
	return
}

func childMain(name string, args []string) {
	fn := children[name]
	dictFromEnv()
	if fn == nil {
		fmt.Fprintln(os.Stderr, "no child", name)
		os.Exit(2)
	}
	c := &child{args: args, counts: map[string]int{}, notes: map[string]bool{}}
	fn(c)
	for k, v := range c.counts {
		fmt.Printf("count %q %d\n", k, v)
	}
	for k := range c.notes {
		fmt.Printf("note %q\n", k)
	}
	for _, kv := range c.res {
		fmt.Printf("res %q %q\n", kv[0], kv[1])
	}
	fmt.Println("OK")
}

type childResult struct {
	out, err string
	timeout  bool
	status   error
}

func execChild(dir string, limit time.Duration, env []string, bin string, args ...string) childResult {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	cmd.Env = append(os.Environ(), env...)
	cmd.WaitDelay = 5 * time.Second
	err := cmd.Run()
	return childResult{out.String(), errOut.String(), ctx.Err() != nil, err}
}

// runChild runs a child of this program, judges how it ended, and returns the results it reported.
func (t *T) runChild(dir, name string, args ...interface{}) map[string]string {
	self, err := os.Executable()
	if err != nil {
		t.Inconclusive("executable: %v", err)
	}
	argv := []string{"-child", name}
	for _, a := range args {
		argv = append(argv, fmt.Sprint(a))
	}
	t.Logf("child %v", argv)
	res := execChild(dir, 100*time.Second, []string{"GORACE=halt_on_error=1 exitcode=66 log_path=stderr atexit_sleep_ms=30", "GOTRACEBACK=all", dictEnv()}, self, argv...)
	return t.judgeChild(res)
}

func (t *T) judgeChild(res childResult) (results map[string]string) {
	ok := false
	results = map[string]string{}
	for _, line := range strings.Split(res.out, "\n") {
		var s string
		var n int
		switch {
		case line == "OK":
			ok = true
		case strings.HasPrefix(line, "FAIL "):
			if _, err := fmt.Sscanf(line, "FAIL %q", &s); err != nil {
				s = line
			}
			t.Failf("%s", s)
		case strings.HasPrefix(line, "note "):
			if _, err := fmt.Sscanf(line, "note %q", &s); err == nil {
				t.Distinct(s)
			}
		case strings.HasPrefix(line, "res "):
			var v string
			if _, err := fmt.Sscanf(line, "res %q %q", &s, &v); err == nil {
				results[s] = v
			}
		case strings.HasPrefix(line, "count "):
			if _, err := fmt.Sscanf(line, "count %q %d", &s, &n); err == nil {
				t.CountN(s, n)
			}
		}
	}
	if ok && res.status == nil {
		t.Count("child processes")
		return results
	}
	if strings.Contains(res.err, modulePath) {
		what := "a process crashed"
		if strings.Contains(res.err, "DATA RACE") {
			what = "data race"
		} else if res.timeout {
			what = "no progress"
		}
		t.Failf("%s: %v\n%s", what, res.status, trim(res.err, 12000))
	}
	if res.timeout {
		t.Failf("no progress: a process that should take seconds did not end\n%s", trim(res.err, 4000))
	}
	t.Inconclusive("child: %v\n%s\n%s", res.status, trim(res.out, 2000), trim(res.err, 4000))
	return
}
