package gate

import (
	"fmt"
	"io"
	"time"

	"verif.local/mc/vnet"
	"verif.local/mc/x"
)

// alive lists the messages that take effect and whether the gateway closes the connection.
func alive(ms []Msg) ([]Msg, bool) {
	for i, m := range ms {
		if m.Kind == NotEGTS {
			return ms[:i], true
		}
	}
	return ms, false
}

// checkSaves compares the saved records with the messages; content only when full is set.
func checkSaves(saves []vnet.Event, ms []Msg, full bool) string {
	i := 0
	for _, m := range ms {
		if m.Exp == nil {
			continue
		}
		if i >= len(saves) {
			return fmt.Sprintf("the record of packet %s (%d) was not saved", m.Name, m.PID)
		}
		if full {
			if s := checkExport(saves[i].Data, m.Exp, saves[i].At); s != "" {
				return fmt.Sprintf("packet %s (%d): %s", m.Name, m.PID, s)
			}
		}
		i++
	}
	if i != len(saves) {
		return fmt.Sprintf("%d records saved, want %d; one too many: %s", len(saves), i, saves[i].Data)
	}
	return ""
}

// states counts the model states a conversation goes through.
func states(c *x.C, ms []Msg) {
	h := uint64(1)
	for _, m := range ms {
		h = x.HI(h, uint64(m.Kind), uint64(m.PID), uint64(len(m.RNs)), b2i(m.Auth), x.HB(1, m.Wire))
		c.State(h)
	}
	c.Step(len(ms))
	c.Trace()
}

// conversation plays whole messages on one connection and compares replies, saves and the end.
func conversation(c *x.C, ms []Msg, eachSegment bool) { converse(c, ms, eachSegment, false) }

func converse(c *x.C, ms []Msg, eachSegment, full bool) { converseTTL(c, ttl, ms, eachSegment, full) }

func converseTTL(c *x.C, ttl time.Duration, ms []Msg, eachSegment, full bool) {
	st := &Store{Name: "a"}
	var out []byte
	var saves []vnet.Event
	var closedEarly, closedAtEnd, accepted2 bool
	res := Exec(ttl, []*Store{st}, func(s *Sim) {
		k := s.Conn()
		if eachSegment {
			for _, m := range ms {
				k.Send(m.Wire)
				s.Wait()
				s.Sleep(min(1500*time.Millisecond, max(ttl*3/20, 0)))
			}
		} else {
			k.Send(Stream(ms))
			s.Wait()
		}
		closedEarly, _ = k.Closed()
		k.End(io.EOF)
		s.Sleep(ttl + time.Second)
		closedAtEnd, _ = k.Closed()
		out, saves = k.Out(), s.Saves("a")
		k2 := s.Conn()
		accepted2 = k2.Accepted()
	})
	if len(res.Fatal) > 0 {
		c.Fail("crash", "%s", res.Fatal[0])
	}
	live, wantClose := alive(ms)
	states(c, live)
	if s := checkReplies(out, live); s != "" {
		c.Fail("reply", "%s", s)
	}
	if s := checkSaves(saves, live, full); s != "" {
		c.Fail("save", "%s", s)
	}
	if closedEarly != wantClose {
		c.Fail("close", "connection closed by the gateway: %v, want %v", closedEarly, wantClose)
	}
	if !closedAtEnd {
		c.Fail("close", "connection not released after the peer's close")
	}
	if !accepted2 {
		c.Fail("accept", "no new connection is accepted afterwards")
	}
	c.Count("conversations")
}
