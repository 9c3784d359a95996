package stores

import (
	"fmt"
	"io"
	"log"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
)

// TestRace saves side by side with the connector number VMC_RACE under every pair of server behaviours.
// Every save of a round is made by a goroutine of its own that has exchanged nothing with the others, so
// that accesses of the connector's own are unordered whatever the actual timing.
func TestRace(t *testing.T) {
	k, err := strconv.Atoi(os.Getenv("VMC_RACE"))
	if err != nil {
		t.Skip()
	}
	kind := Kinds[k]
	logrus.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); strings.HasPrefix(k, "PG") {
			os.Unsetenv(k)
		}
	}
	faults := []string{"accept", "reject", "drop", "lose", "cut", "down", "slam"}
	for _, first := range faults {
		for _, second := range faults {
			for stagger := 0; stagger < 3; stagger++ {
				fmt.Printf("RACE-CASE %s: %s, %s, stagger %d\n", kind, first, second, stagger)
				s := NewServer(kind)
				set := Usual[kind]
				s.User, s.Pass, s.Salt = set.User, set.Pass, 'm'
				s.refuse = closing(kind)[0]
				if stagger == 2 {
					s.refuse = Refusals[kind][0]
				}
				s.SetMode(Accept)
				st := connector(kind)
				cfg := Config(s, set)
				if kind == "tarantool_queue" {
					cfg["max_recons"] = "20"
				}
				if err, crash := initStore(st, cfg); err != nil || crash != nil {
					t.Fatalf("Init fails: %v %v", err, crash)
				}
				for round, f := range []string{first, second, "accept"} {
					switch f {
					case "reject":
						s.SetMode(Reject)
					case "drop":
						s.SetMode(Drop)
					case "lose":
						s.SetMode(Lose)
					case "cut":
						s.Cut()
					case "down":
						s.Down()
					case "slam":
						s.Slam(true)
					}
					var wg sync.WaitGroup
					start := make(chan struct{})
					for i := 0; i < 4; i++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							<-start
							if stagger == 1 {
								time.Sleep(time.Duration(i) * 700 * time.Microsecond)
							}
							save(st, &msg{body: fmt.Sprintf("{\"record\":%d,\"pad\":%q}", 10*round+i, strings.Repeat("x", 50*i))})
						}()
					}
					close(start)
					wg.Wait()
					if f == "down" {
						s.Up()
					}
					s.Slam(false)
					s.SetMode(Accept)
				}
				closeStore(st)
				s.Stop()
			}
		}
	}
	fmt.Println("RACE-DONE")
}
