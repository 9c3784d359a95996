package x

import (
	"context"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Race runs test (with the environment env) of the binary built with the race detector as part of the
// case; name of the run's own lines: RACE-CASE before every execution, RACE-DONE at the end.
func (c *C) Race(test string, env ...string) {
	bin := os.Getenv("VMC_BIN") + "/race.test"
	if _, err := os.Stat(bin); err != nil {
		c.Count("race runs not made: no binary")
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	stop := make(chan struct{})
	defer close(stop)
	go func() { // the run has a limit of its own
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
				if b := c.R.busy.Load(); b != 0 {
					c.R.busy.CompareAndSwap(b, time.Now().UnixNano())
				}
			}
		}
	}()
	// the detector's shadow memory takes more address space than the limit of the harness
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", `ulimit -S -v unlimited; exec "$0" "$@"`, bin, "-test.run", "^"+test+"$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), append(env, "GORACE=halt_on_error=0 history_size=4", "GOMAXPROCS=4")...)
	out, err := cmd.CombinedOutput()
	s := string(out)
	n := strings.Count(s, "RACE-CASE")
	c.Step(n)
	c.Count("race runs")
	c.R.AddCount("executions under the race detector", n)
	for i := 0; ; {
		j := strings.Index(s[i:], "WARNING: DATA RACE")
		if j < 0 {
			break
		}
		i += j
		report, _, _ := strings.Cut(s[i:], "\n==================")
		if ours(report) {
			at := max(0, strings.LastIndex(s[:i], "RACE-CASE"))
			name, _, _ := strings.Cut(s[at:], "\n")
			c.Fail("data race", "%s\n%s", name, clip(report, 4500))
		}
		c.Count("races inside a library, not judged")
		i++
	}
	if strings.Contains(s, "RACE-DONE") {
		c.Trace()
		return
	}
	switch {
	case ctx.Err() != nil:
		c.Count("race runs without an end")
	case n == 0: // the detector itself does not run here
		c.Count("race runs not made: " + clip(strings.TrimSpace(s), 200))
	default:
		c.Fail("race run", "the run under the race detector ends with %v: %s", err, clip(s[max(0, len(s)-4500):], 4500))
	}
}

// ours tells whether both accesses of a report are made on behalf of the gateway's code; what a library
// does with its own goroutines is not judged.
func ours(report string) bool {
	parts := strings.Split(report, "\n\n")
	return len(parts) > 1 && strings.Contains(parts[0], "ElectroUnion/egts-gate/") && strings.Contains(parts[1], "ElectroUnion/egts-gate/")
}
