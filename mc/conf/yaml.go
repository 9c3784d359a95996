// Package conf checks the configuration: the settings a file determines, the storages they select and
// what the receiver program does with them.
package conf

import (
	"strings"
)

// value is one scalar of a configuration file.
type value struct {
	absent bool
	null   bool
	s      string
	number bool // written plain in every style
}

func str(s string) value { return value{s: s} }

// style says how a file is written.
type style struct {
	quote   string // "double", "single", "plain"
	indent  int
	eol     string
	comment bool
	start   bool // document markers
	flow    bool
	order   []int
}

func plainSafe(s string) bool {
	if s == "" || strings.Trim(s, " ") != s {
		return false
	}
	for i, c := range s {
		ok := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.' || c == '/' || c == '_' || c > 0x7f || i > 0 && (c == '-' || c == ' ' || c == '@' || c == '!' || c == ';')
		if c == ':' {
			ok = i > 0 && i+1 < len(s) && s[i+1] != ' '
		}
		if c == '#' {
			ok = i > 0 && s[i-1] != ' '
		}
		if !ok {
			return false
		}
	}
	switch strings.ToLower(s) {
	case "null", "~", "true", "false", "yes", "no", "on", "off", "y", "n":
		return false
	}
	return true
}

func (st style) scalar(v value) string {
	switch {
	case v.null:
		return ""
	case v.number:
		return v.s
	case st.quote == "plain" && plainSafe(v.s) && !(st.flow && strings.ContainsAny(v.s, ":,[]{}")):
		return v.s
	case st.quote == "single" && !strings.ContainsAny(v.s, "\n\t"):
		return "'" + strings.ReplaceAll(v.s, "'", "''") + "'"
	}
	r := strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`, "\t", `\t`)
	return `"` + r.Replace(v.s) + `"`
}

// section is one storage section.
type section struct {
	name string
	null bool
	kv   [][2]string
}

// file is the content of a configuration file.
type file struct {
	host, port, ttl, level value
	storage                int // 0 absent, 1 null, 2 present
	sections               []section
}

// render writes the file.
func (f file) render(st style) string {
	type part struct {
		key string
		v   value
	}
	parts := []part{{"host", f.host}, {"port", f.port}, {"conn_ttl", f.ttl}, {"log_level", f.level}, {"storage", value{absent: f.storage == 0}}}
	order := st.order
	if order == nil {
		order = []int{0, 1, 2, 3, 4}
	}
	var b strings.Builder
	eol := st.eol
	if eol == "" {
		eol = "\n"
	}
	ind := strings.Repeat(" ", max(st.indent, 1))
	line := func(s string) {
		b.WriteString(s)
		if st.comment {
			b.WriteString(" # host: none")
		}
		b.WriteString(eol)
		if st.comment {
			b.WriteString(eol + "#  log_level: ERROR" + eol)
		}
	}
	if st.flow {
		var fs []string
		for _, i := range order {
			p := parts[i]
			if p.v.absent {
				continue
			}
			s := p.key + ": "
			switch {
			case i == 4 && f.storage == 1:
				s += "null"
			case i == 4:
				var ss []string
				for _, sec := range f.sections {
					var kv []string
					for _, e := range sec.kv {
						kv = append(kv, e[0]+": "+st.scalar(str(e[1])))
					}
					if sec.null {
						ss = append(ss, sec.name+": null")
					} else {
						ss = append(ss, sec.name+": {"+strings.Join(kv, ", ")+"}")
					}
				}
				s += "{" + strings.Join(ss, ", ") + "}"
			case p.v.null:
				s += "null"
			default:
				s += st.scalar(p.v)
			}
			fs = append(fs, s)
		}
		return "{" + strings.Join(fs, ", ") + "}" + eol
	}
	if st.start {
		line("---")
	}
	for _, i := range order {
		p := parts[i]
		if p.v.absent {
			continue
		}
		if i < 4 {
			line(strings.TrimRight(p.key+": "+st.scalar(p.v), " "))
			continue
		}
		if f.storage == 2 && len(f.sections) == 0 {
			line("storage: {}")
			continue
		}
		line("storage:")
		for _, sec := range f.sections {
			if !sec.null && len(sec.kv) == 0 {
				line(ind + sec.name + ": {}")
				continue
			}
			line(ind + sec.name + ":")
			for _, e := range sec.kv {
				line(ind + ind + e[0] + ": " + st.scalar(str(e[1])))
			}
		}
	}
	if st.start {
		b.WriteString("..." + eol)
	}
	return b.String()
}
