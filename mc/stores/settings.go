package stores

import "strings"

// Kinds are the built-in connectors.
var Kinds = []string{"redis", "nats", "nsq", "postgresql", "rabbitmq", "tarantool_queue"}

// Set is what a connector is told, and what the server must see of it.
type Set struct {
	User, Pass, DB, Dest string
}

// Usual are ordinary settings per kind.
var Usual = map[string]Set{
	"redis":           {"", "", "0", "egts"},
	"nats":            {"", "", "", "receiver"},
	"nsq":             {"", "", "", "receiver"},
	"postgresql":      {"pguser", "pgpass", "receiver", "points"},
	"rabbitmq":        {"rmq", "rmqpass", "/", "receiver|"},
	"tarantool_queue": {"user", "pass", "", "points"},
}

// Config makes the settings section for the server.
func Config(s *Server, set Set) map[string]string {
	switch s.Kind {
	case "redis":
		c := map[string]string{"server": s.Addr(), "queue": set.Dest}
		if set.DB != "" {
			c["db"] = set.DB
		}
		if set.Pass != "" {
			c["password"] = set.Pass
		}
		return c
	case "nats":
		c := map[string]string{"servers": "nats://" + s.Addr(), "topic": set.Dest}
		if set.User != "" {
			c["user"], c["password"] = set.User, set.Pass
		}
		return c
	case "nsq":
		return map[string]string{"server": s.Addr(), "topic": set.Dest}
	case "postgresql":
		return map[string]string{"host": s.Host, "port": s.Port, "user": set.User, "password": set.Pass, "database": set.DB, "table": set.Dest, "sslmode": "disable"}
	case "rabbitmq":
		ex, key, _ := strings.Cut(set.Dest, "|")
		c := map[string]string{"host": s.Host, "port": s.Port, "user": set.User, "password": set.Pass, "exchange": ex}
		if key != "" {
			c["key"] = key
		}
		return c
	}
	return map[string]string{"host": s.Host, "port": s.Port, "user": set.User, "password": set.Pass, "max_recons": "1", "timeout": "1", "reconnect": "1", "queue": set.Dest}
}

// Expected is the delivery of a record under the settings.
func Expected(set Set, body string) Got {
	return Got{Dest: set.Dest, User: set.User, Pass: set.Pass, DB: set.DB, Body: body}
}
