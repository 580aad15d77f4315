package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
)

// ---------------------------------------------------------------------------------------------
// Reference model of the shell: what a line may do.

// shModel is the model's state: entries by name, without update times.
type shModel struct {
	st    ref.State
	ctx   string // entered entry
	log   []txlogs.Tx
	ids   map[string]string // name -> uuid
	multi bool
	user  string
	now   time.Time
	loc   *time.Location
}

// want is what must come of a line.
type want struct {
	mayRefuse bool // leaving everything alone (with a message) is fine as well
	list      []string
	listing   bool
	has       []string
	hasNot    []string
	suffix    string
	clips     []string
	totp      bool // the clip (or output) is a code of target
	opened    string
	end       string // "save" or "drop"
	target    string // the entry that may change (by its name before the line)
	newEntry  string
	loose     string // prefix of entry names whose fields are not compared
	msg       bool   // something must be printed
	tried     bool   // the line asked for a change
	ctx       string // expected entered entry
	anyCtx    bool   // the root is fine as well
}

func (m *shModel) clone() *shModel {
	c := *m
	c.st = noTimes(m.st)
	return &c
}

// resolve follows the documented rule: the only match or the exact name.
func (m *shModel) resolve(q string) string {
	if _, ok := m.st[q]; ok && q != "" {
		return q
	}
	hit := ""
	n := 0
	for name := range m.st {
		if q == "" || refSearch(name, q) {
			hit, n = name, n+1
		}
	}
	if n == 1 {
		return hit
	}
	return ""
}

var shProtected = map[string]bool{"name": true, "totp": true, "iv": true, "salt": true, "mkey": true, "updated": true}

func isLabel(l string) bool {
	for _, c := range l {
		if c == ',' || strings.ToLower(string(c)) != string(c) || strings.TrimSpace(string(c)) == "" {
			return false
		}
	}
	return l != ""
}

// multiline follows the documented end marks.
func multiline(ans []string) string {
	var ls []string
	blank := false
	for _, a := range ans {
		if a == ctrlD || a == "." || a == "" && blank {
			break
		}
		if a == "" {
			blank = true
			continue
		}
		if blank {
			ls = append(ls, "")
			blank = false
		}
		ls = append(ls, a)
	}
	return strings.Join(ls, "\n")
}

// broken says whether the first n answers are not all given.
func broken(ans []string, n int) bool {
	for i := 0; i < n; i++ {
		if i >= len(ans) || ans[i] == ctrlD || ans[i] == ctrlC || ans[i] == termErr {
			return true
		}
	}
	return false
}

// shSet says whether and to what a "set" line changes.
func (m *shModel) set(w *want, rest string, ans []string) {
	w.tried = true
	odd := rest != strings.TrimLeft(rest, " \t\u00a0\u2003") // more than one blank
	rest = strings.TrimLeftFunc(rest, func(r rune) bool { return r == ' ' || r == '\t' || r == '\u00a0' || r == '\u2003' })
	name := m.ctx
	word := func() string {
		a, b, _ := strings.Cut(rest, " ")
		rest = b
		return a
	}
	if name == "" {
		name = word()
	}
	key := word()
	w.msg = true
	if name == "" || key == "" {
		return
	}
	// tabs, or several blanks, between the words: refusing is fine
	w.mayRefuse = odd || strings.ContainsAny(name+key, "\t\u00a0\u2003")
	t := m.resolve(name)
	if t == "" {
		return
	}
	value := rest
	e := m.st[t]
	switch {
	case key == "pass":
		if value == "" {
			if broken(ans, 3) {
				return
			}
			value = ans[1] // "m", password, password
		}
	case key == "totp":
		if u := shTOTP(value, m.ids[t]); u != "" {
			e["totp"] = u
			w.target = t
		}
		return
	case key == "url":
		i := strings.Index(value, ":")
		if i < 1 || !(strings.HasPrefix(value[i:], "://")) || strings.ContainsAny(value, " \x00") {
			return
		}
	case key == "labels" || key == "notes":
		// plain keys for set
		if value == "" {
			value = multiline(ans)
		}
	default:
		lower := strings.ToLower(key)
		if shProtected[lower] {
			if value == "" && len(ans) > 0 {
				multiline(ans)
			}
			w.hasNot = append(w.hasNot, "set "+key+" =")
			return
		}
		if value == "" {
			value = multiline(ans)
		}
	}
	e[key] = value
	w.target = t
}

// shTOTP is the stored form of an acceptable secret.
func shTOTP(v, uuid string) string {
	switch v {
	case "JBSWY3DPEHPK3PXP":
		return "otpauth://totp/bpass:" + uuid + "?secret=JBSWY3DPEHPK3PXP"
	case "otpauth://totp/x?secret=JBSWY3DPEHPK3PXP&digits=8":
		return v
	}
	return ""
}

const shSecret = "otpauth://totp/x?secret=JBSWY3DPEHPK3PXP"

func (m *shModel) copyKey(w *want, t, key string, cp bool) {
	e := m.st[t]
	w.msg = true
	v, ok := e[key]
	switch key {
	case "totp":
		w.totp = ok && v != ""
		w.target = t
		if cp && w.totp {
			w.clips = []string{"totp"}
		}
		return
	case "updated":
		var n int64
		for _, x := range m.log {
			if x.UUID == m.ids[t] && x.Key == "updated" {
				fmt.Sscan(x.Value, &n)
			}
		}
		v, ok = time.Unix(0, n).In(m.zone()).Format(time.RFC3339), true
	}
	if !ok {
		w.has = append(w.has, "not set")
		return
	}
	if cp {
		w.clips = []string{v}
	} else {
		w.suffix = v + "\n"
	}
}

// zone is the time zone of the session.
func (m *shModel) zone() *time.Location {
	if m.loc != nil {
		return m.loc
	}
	return time.UTC
}

// past is the state of an entry n of its changes ago.
func (m *shModel) past(t string, n int) (map[string]string, bool) {
	var l []txlogs.Tx
	for _, x := range m.log {
		if x.UUID == m.ids[t] {
			l = append(l, x)
		}
	}
	if n > len(l) || n < 0 {
		return nil, false
	}
	st, _, _ := ref.Replay(l[:len(l)-n])
	e, ok := st[m.ids[t]]
	return e, ok
}

// apply changes the model as the line must and returns what is to be seen.
func (m *shModel) apply(raw string, ans []string) (w want) {
	w.ctx = m.ctx
	if raw == ctrlD {
		w.end = "save"
		return
	}
	if raw == ctrlC || raw == termErr {
		w.end = "drop"
		return
	}
	line := strings.TrimSpace(raw)
	f := strings.Fields(line)
	if len(f) == 0 {
		return
	}
	cmd, args := f[0], f[1:]
	// q takes the entry designated by the entered entry or the next argument
	refused := false
	q := func(min int) string {
		if m.ctx != "" {
			if len(args) < min {
				refused = true
				return ""
			}
			return m.ctx
		}
		if len(args) < min+1 {
			refused = true
			return ""
		}
		n := args[0]
		args = args[1:]
		t := m.resolve(n)
		if t == "" {
			refused = true
		}
		return t
	}
	defer func() {
		if refused {
			w.msg = true
		}
	}()
	switch cmd {
	case "exit":
		w.end = "save"
	case "help":
		if len(args) == 0 || args[0] == "sync" || args[0] == "users" || args[0] == "other" {
			w.msg = true
		}
	case "add":
		w.tried = true
		if len(args) < 1 || m.st[args[0]] != nil || m.userName(args[0]) {
			w.msg = true
			if len(args) >= 1 && m.userName(args[0]) && m.st[args[0]] == nil {
				w.loose = "user/" // creating a keyless entry or refusing: see C22
			}
			return
		}
		if broken(ans, 5) { // not completed
			return
		}
		e := map[string]string{"name": args[0]}
		for i, k := range []string{"email", "user"} {
			if ans[i] != "" {
				e[k] = ans[i]
			}
		}
		if ans[3] != "" {
			e["pass"] = ans[3]
		}
		m.st[args[0]] = e
		w.newEntry = args[0]
	case "mv":
		w.tried = true
		if len(args) < 2 || m.st[args[0]] == nil || m.st[args[1]] != nil {
			w.msg = true
			return
		}
		if strings.HasPrefix(args[0], "user/") || strings.HasPrefix(args[1], "user/") {
			w.mayRefuse = true
			if args[0] == "user/"+m.user && m.user != "" && (!strings.HasPrefix(args[1], "user/") || args[1] == "user/") {
				w.msg = true
				return // would lock the user out
			}
		}
		w.msg = true
		e := m.st[args[0]]
		delete(m.st, args[0])
		e["name"] = args[1]
		m.st[args[1]] = e
		m.ids[args[1]] = m.ids[args[0]]
		w.target = args[0]
		if m.ctx == args[0] {
			m.ctx = args[1]
			w.ctx, w.anyCtx = args[1], true
		}
	case "rm":
		w.tried = true
		w.msg = true
		if len(args) < 1 || m.st[args[0]] == nil {
			return
		}
		if args[0] == "user/"+m.user && m.user != "" {
			n := 0
			for k := range m.st {
				if strings.HasPrefix(k, "user/") {
					n++
				}
			}
			if n > 1 {
				return
			}
		}
		if len(ans) > 0 && ans[0] == args[0] {
			delete(m.st, args[0])
			w.target = args[0]
			if m.ctx == args[0] {
				m.ctx, w.ctx = "", ""
			}
		}
	case "rmk":
		w.tried = true
		t := q(1)
		w.msg = true
		if refused {
			return
		}
		if k := args[0]; (k == "totp" || !shProtected[strings.ToLower(k)]) && m.st[t][k] != "\x00" {
			if _, ok := m.st[t][k]; ok {
				delete(m.st[t], k)
				w.target = t
			}
		}
	case "ls":
		sq := ""
		if len(args) > 0 {
			sq = args[0]
		}
		w.listing = true
		for n := range m.st {
			if sq == "" || refSearch(n, sq) {
				w.list = append(w.list, n)
			}
		}
	case "labels":
		if len(args) == 0 {
			w.msg = true
			return
		}
		w.listing = true
		for n, e := range m.st {
			if refLabels(e["labels"], args) {
				w.list = append(w.list, n)
			}
		}
	case "cd":
		switch len(args) {
		case 0:
			m.ctx, w.ctx = "", ""
		case 1:
			if t := m.resolve(args[0]); t != "" {
				m.ctx, w.ctx = t, t
			} else {
				w.msg = true
			}
		default:
			w.msg = true
		}
	case "cp", "get":
		t := q(1)
		if refused {
			return
		}
		if len(args) > 1 {
			if _, err := strconv.Atoi(args[1]); err != nil {
				w.msg = true
				return
			}
		}
		m.copyKey(&w, t, args[0], cmd == "cp")
	case "user", "pass", "email", "totp":
		if t := q(0); !refused {
			m.copyKey(&w, t, cmd, true)
		}
	case "login":
		name := m.ctx
		if len(args) > 0 {
			name = args[0]
		}
		t := ""
		if name != "" {
			t = m.resolve(name)
		}
		if t == "" {
			w.msg = true
			return
		}
		w.target = t
		for _, k := range []string{"user", "email", "pass", "totp"} {
			if v, ok := m.st[t][k]; ok {
				if k == "totp" {
					v, w.totp = k, true
				}
				w.clips = append(w.clips, v)
				if k != "totp" && (len(ans) < len(w.clips) || ans[len(w.clips)-1] == ctrlD) {
					break
				}
			}
		}
	case "set":
		m.set(&w, strings.TrimPrefix(line, "set"), ans)
	case "edit":
		w.tried = true
		t := q(1)
		w.msg = true
		_ = t // the editor of these runs leaves the file as it is: see C29
		if !refused {
			w.target = t
			if v, ok := m.st[t][args[0]]; ok && v == "" && !shProtected[strings.ToLower(args[0])] {
				delete(m.st[t], args[0]) // emptied is removed
				w.mayRefuse = true
			}
		}
	case "open":
		t := q(0)
		if refused {
			return
		}
		if u := m.st[t]["url"]; u != "" {
			w.opened = u
		} else {
			w.msg = true
		}
	case "label":
		w.tried = true
		t := q(0)
		if refused {
			return
		}
		cur := m.st[t]["labels"]
		for _, a := range ans {
			if a == termErr { // keeping or dropping what was given is fine
				w.mayRefuse = true
				break
			}
			if a == ctrlD || a == "." || a == "" {
				break
			}
			dup := false
			for _, l := range strings.Split(cur, ",") {
				dup = dup || l == a
			}
			if !isLabel(a) || dup {
				w.msg = true
				continue
			}
			if cur != "" {
				cur += ","
			}
			cur += a
			w.target = t
		}
		if w.target != "" {
			m.st[t]["labels"] = cur
		}
	case "rmlabel":
		w.tried = true
		t := q(1)
		w.msg = true
		if refused {
			return
		}
		var keep []string
		hit := false
		for _, l := range strings.Split(m.st[t]["labels"], ",") {
			if l == args[0] && !hit {
				hit = true
				continue
			}
			keep = append(keep, l)
		}
		if !hit || m.st[t]["labels"] == "" {
			return
		}
		w.target = t
		if len(keep) == 0 {
			delete(m.st[t], "labels")
		} else {
			m.st[t]["labels"] = strings.Join(keep, ",")
		}
	case "show":
		t := q(0)
		if refused {
			return
		}
		w.msg = true
		e := m.st[t]
		stamp := ""
		for _, tx := range m.log {
			if tx.UUID == m.ids[t] && tx.Key == "updated" {
				stamp = tx.Value
			}
		}
		defer func() {
			if n, err := strconv.ParseInt(stamp, 10, 64); err == nil {
				w.has = append(w.has, "updated:", time.Unix(0, n).In(m.zone()).Format(time.RFC3339)+"\n")
			}
		}()
		if len(args) > 0 {
			if n, err := strconv.Atoi(args[0]); err == nil && n != 0 {
				stamp = ""
				p, ok := m.past(t, n)
				if !ok {
					for k, v := range m.st[t] {
						if k != "name" && len(v) > 3 {
							w.hasNot = append(w.hasNot, v)
						}
					}
					return
				}
				for k, v := range m.st[t] {
					if _, ok := p[k]; !ok && k != "name" {
						w.hasNot = append(w.hasNot, "\n  "+k+":")
						_ = v
					}
				}
				e, stamp = p, p["updated"]
			}
		}
		for k, v := range e {
			switch k {
			case "updated":
			case "totp":
				w.has = append(w.has, "totp:")
			default:
				w.has = append(w.has, k+":")
				if k == "labels" {
					v = strings.ReplaceAll(v, ",", ", ")
				}
				for _, l := range strings.Split(v, "\n") {
					w.has = append(w.has, strings.TrimSpace(l))
				}
			}
		}
	case "dump":
		t := q(0)
		if refused {
			return
		}
		for k, v := range m.st[t] {
			w.has = append(w.has, fmt.Sprintf("%s: %#v\n", k, v))
		}
	case "dumpall":
		w.msg = true
	case "passwd", "rekey", "rekeyall":
		w.tried, w.loose = true, "user/"
	case "adduser":
		w.tried, w.loose = true, "user/"
		w.msg = len(args) == 0
	case "sync":
		w.tried = true
		if len(args) > 0 && m.st[args[0]] == nil {
			w.msg = true
		}
	case "addsync":
		w.tried = true
		if len(args) < 1 || args[0] != "file" {
			w.msg = true
			return
		}
		if len(ans) < 1 || !strings.HasPrefix(ans[0], "/") {
			return
		}
		n := "sync/file"
		for m.st[n] != nil {
			n += "1"
		}
		m.st[n] = map[string]string{"name": n, "sync": "true", "url": "file://" + ans[0]}
		w.newEntry = n
	default:
		w.msg = true
	}
	return
}

func (m *shModel) userName(n string) bool { return strings.HasPrefix(n, "user/") }

// ---------------------------------------------------------------------------------------------

// ShLine is a line and the answers to what it asks.
type ShLine struct {
	L string   `json:"l"`
	A []string `json:"a,omitempty"`
}

// ShCase: lines typed into a session over a start database.
type ShCase struct {
	DB    string   `json:"db"`
	Lines []ShLine `json:"lines"`
}

var (
	shUsers  = []ref.FileUser{{Name: "u1", Pass: "p1"}, {Name: "u2", Pass: "p2"}}
	shMaster = ref.Fill("master", 80)
)

// shLog is the start database.
func shLog() []txlogs.Tx {
	return mkTxs(1000,
		Ent{uid(1), []string{"name", "a", "user", "ua", "email", "a@x", "pass", "pa0", "pass", "p  a1", "notes", "n1\nn2\n\n n3", "labels", "l1,l2", "totp", shSecret, "url", "https://a.x/?q=1&r=%20", "k", "old", "k", "v  w"}},
		Ent{uid(2), []string{"name", "ab", "user", "uab", "labels", "l1"}},
		Ent{uid(3), []string{"name", "b/c", "pass", "pbc", "url", "http://b", "labels", "l2,l1,l3"}},
		Ent{uid(4), []string{"name", "Zé x", "k", "zz", "user", ""}},
	)
}

// shRich is a start database of unusual entries: names that differ in case only or contain each
// other, empty fields, nothing but a name, more labels and longer values.
func shRich() []txlogs.Tx {
	return mkTxs(1000,
		Ent{uid(1), []string{"name", "git", "user", "u1", "labels", "", "pass", " p "}},
		Ent{uid(2), []string{"name", "GIT", "user", "u2", "labels", "x", "k", "v2"}},
		Ent{uid(3), []string{"name", "git/x", "user", "u3", "labels", "x,y,z,w", "notes", "\n\n n \n"}},
		Ent{uid(4), []string{"name", "e"}},
		Ent{uid(5), []string{"name", "G/x/y", "pass", "", "user", "u5 ", "url", "", "email", "", "notes", " "}},
	)
}

// shWide is a large start database: n entries, one of them with n labels, n lines of notes, n other
// keys and a long value, and one whose keys were written n times.
func shWide(n int) []txlogs.Tx {
	var es []Ent
	for i := 0; i < n; i++ {
		f := []string{"name", fmt.Sprintf("e%d", i), "user", fmt.Sprint("u", i), "pass", fmt.Sprint("p", i)}
		if i%2 == 1 {
			f = append(f, "labels", fmt.Sprintf("l%d,odd", i%7))
		}
		if i == 1 {
			var ls, ns []string
			for k := 0; k < n; k++ {
				ls = append(ls, fmt.Sprint("x", k))
				ns = append(ns, fmt.Sprint("line ", k))
				f = append(f, fmt.Sprint("k", k), fmt.Sprint("v", k))
			}
			f = append(f, "labels", strings.Join(ls, ","), "notes", strings.Join(ns, "\n"), "long", strings.Repeat("v", n))
		}
		if i == 2 {
			for k := 0; k < n; k++ {
				f = append(f, "user", fmt.Sprint("user ", k), "k", fmt.Sprint(k))
			}
		}
		es = append(es, Ent{fmt.Sprintf("%08x-0000-4000-9000-000000000001", 0x1000+i), f})
	}
	return mkTxs(1000, es...)
}

// shOpen starts a session on the start database.
func shOpen(x *core.X, db string) (*App, *Sess, *shModel) {
	a := newApp(x).WithClip()
	db, a.TTY = strings.CutSuffix(db, "+tty")
	db, tz, _ := strings.Cut(db, "@")
	a.Args = append(a.Args, "--no-clear-clip")
	a.Script("ed", "#!/bin/sh\nexit 0\n")
	a.Env = append(a.Env, "EDITOR="+filepath.Join(a.Dir, "bin", "ed"), "OPENLOG="+filepath.Join(a.Dir, "opened"))
	a.Script("xdg-open", "#!/bin/sh\nprintf '%s\\n' \"$#:$1\" >> \"$OPENLOG.t\"\nread -r l < \"$OPENLOG.t\"\nprintf '%s\\n' \"$l\" > \"$OPENLOG\"\n")
	m := &shModel{}
	if tz != "" {
		a.Env = append(a.Env, "TZ="+tz)
		var err error
		if m.loc, err = time.LoadLocation(tz); err != nil {
			core.Harness("%v", err)
		}
	}
	var s *Sess
	if n, ok := strings.CutPrefix(db, "wide"); ok {
		k, _ := strconv.Atoi(n)
		a.put("pw", shWide(k))
		s = a.Start().MustOpen("", "pw")
	}
	switch db {
	case "empty":
		a.put("pw", nil)
		s = a.Start().MustOpen("", "pw")
	case "single":
		a.put("pw", shLog())
		s = a.Start().MustOpen("", "pw")
	case "rich":
		a.put("pw", shRich())
		s = a.Start().MustOpen("", "pw")
	case "multi":
		a.putUsers(shUsers, shMaster, shLog())
		s = a.Start().MustOpen("u1", "p1")
		m.multi, m.user = true, "u1"
	case "new":
		s = a.Start()
		s.Open("", "pw")
		s.Check(s.Cur.Kind == "hidden", "no verification of the new passphrase")
		s.Send("pw")
		s.Check(s.Cur.Main(), "new file can not be opened: %v", s.Cur)
		s.Out()
	}
	d := s.Dump()
	m.sync(x, d)
	return a, s, m
}

// sync takes over the real state.
func (m *shModel) sync(x *core.X, d DBState) {
	st := stateOf(x, d.Log)
	m.ids = map[string]string{}
	for u, e := range st {
		m.ids[e["name"]] = u
	}
	m.st = byName(st)
	m.log = d.Log
}

func sorted(l []string) []string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return l
}

// shLine types a line and checks what came of it.
func shLine(x *core.X, a *App, s *Sess, m *shModel, l ShLine) {
	old := m.clone()
	oldIDs := map[string]string{}
	for k, v := range m.ids {
		oldIDs[k] = v
	}
	before := a.bytes()
	nclip := len(a.Clips())
	t0 := time.Now()
	w := m.apply(l.L, l.A)
	s.Check(s.Cur.Main(), "not at the prompt: %v", s.Cur)
	s.Out()
	s.Send(l.L)
	for n := 0; !s.Cur.Main() && s.Cur.Kind != "exit"; n++ {
		v := ctrlD
		if n < len(l.A) {
			v = l.A[n]
		}
		s.Check(n < 40, "%q never comes back", l.L)
		s.Send(v)
	}
	out := s.Out()
	s.NoCrash()
	dropped := false
	for _, v := range l.A {
		dropped = dropped || v == ctrlC
	}
	if w.end != "" || s.Cur.Kind == "exit" {
		if w.end == "" && dropped { // interrupted: nothing may be saved
			s.Check(s.Cur.Kind == "exit" && string(before) == string(a.bytes()), "interrupted session changed the file")
			x.Outcome("interrupted")
			return
		}
		s.Check(s.Cur.Kind == "exit", "%q does not end the session", l.L)
		s.Check(w.end != "", "%q ended the session (status %d)", l.L, s.Code)
		if w.end == "save" {
			s.Check(s.Code == 0, "%q ends with status %d", l.L, s.Code)
		} else {
			s.Check(s.Code != 0 && string(before) == string(a.bytes()), "%q: status %d, file changed %v", l.L, s.Code, string(before) != string(a.bytes()))
		}
		x.Outcome("end " + w.end)
		return
	}
	t1 := time.Now()
	if dropped {
		w.mayRefuse = true
	}
	d := s.Dump()
	got := byName(stateOf(x, d.Log))
	s.Check(d.Version <= uint(len(d.Log)) && ref.Same(d.Snapshot, stateOf(x, d.Log[:min(int(d.Version), len(d.Log))])), "%q: the snapshot is not the replayed log", l.L)
	s.Check(len(d.Log) >= len(old.log) && ref.EqualLogs(d.Log[:len(old.log)], old.log), "%q rewrote history", l.L)
	strip := func(st ref.State) ref.State {
		if w.loose == "" {
			return st
		}
		o := ref.State{}
		for n, e := range st {
			if !strings.HasPrefix(n, w.loose) {
				o[n] = e
			}
		}
		return o
	}
	changed := true
	if !sameState(strip(got), strip(m.st)) {
		if !(w.mayRefuse && sameState(strip(got), strip(old.st))) {
			s.Fail("%q: expected\n  %s\ngot\n  %s", l.L, strip(m.st).Show(), strip(got).Show())
		}
		changed = false
		w.msg = true
		m.ctx = old.ctx
	} else if sameState(strip(m.st), strip(old.st)) {
		changed = false
	}
	// only the designated entry, and it is stamped
	for _, t := range d.Log[len(old.log):] {
		ok := w.newEntry != "" || w.target != "" && t.UUID == oldIDs[w.target] || w.loose != ""
		s.Check(ok, "%q made an undue change %+v", l.L, t)
		s.Check(t.Time >= t0.UnixNano() && t.Time <= t1.UnixNano(), "%q: change at %d instead of between %d and %d", l.L, t.Time, t0.UnixNano(), t1.UnixNano())
	}
	if changed && w.target != "" && m.st[w.target] != nil {
		var n int64
		fmt.Sscan(stateOf(x, d.Log)[oldIDs[w.target]]["updated"], &n)
		s.Check(n >= t0.UnixNano() && n <= t1.UnixNano(), "%q does not stamp the entry", l.L)
	}
	// messages and answers
	if w.msg {
		s.Check(strings.TrimSpace(out) != "" || strings.TrimSpace(w.suffix) == "" && w.suffix != "" && out != "", "%q prints nothing", l.L)
	}
	if !changed && w.tried && w.newEntry == "" {
		for _, h := range w.hasNot {
			s.Check(!strings.Contains(out, h), "%q did nothing but prints %q", l.L, out)
		}
	} else {
		for _, h := range w.hasNot {
			s.Check(!strings.Contains(out, h), "%q prints %q: %q", l.L, h, out)
		}
	}
	for _, h := range w.has {
		s.Check(strings.Contains(out, h), "%q does not print %q but %q", l.L, h, out)
	}
	if w.suffix != "" {
		s.Check(strings.HasSuffix(out, w.suffix) && (len(out) == len(w.suffix) || out[len(out)-len(w.suffix)-1] == '\n'), "%q prints %q instead of %q", l.L, out, w.suffix)
	}
	if w.listing {
		var got []string
		for _, n := range strings.Split(out, "\n") {
			if n != "" && !strings.Contains(n, "No entries found") {
				got = append(got, n)
			}
		}
		s.Check(fmt.Sprint(sorted(got)) == fmt.Sprint(sorted(w.list)), "%q lists %q instead of %q", l.L, got, sorted(w.list))
	}
	code := func(v string) bool {
		for t := t0.Unix() / 30; t <= t1.Unix()/30; t++ {
			dg := 6
			if strings.Contains(m.st[w.target]["totp"], "digits=8") {
				dg = 8
			}
			if v == refTOTP([]byte("Hello!\xde\xad\xbe\xef"), "SHA1", dg, 30, t*30) {
				return true
			}
		}
		return false
	}
	cl := a.Clips()[nclip:]
	s.Check(len(cl) == len(w.clips), "%q copies %q instead of %q", l.L, cl, w.clips)
	for i, c := range cl {
		if w.clips[i] == "totp" && w.totp {
			s.Check(code(c), "%q copies %q, which is not the code", l.L, c)
		} else {
			s.Check(c == w.clips[i], "%q copies %q instead of %q", l.L, c, w.clips[i])
		}
	}
	if w.totp && len(w.clips) == 0 {
		f := strings.Fields(out)
		s.Check(len(f) > 0 && code(f[len(f)-1]), "%q prints %q, which is not the code", l.L, out)
	}
	op := filepath.Join(a.Dir, "opened")
	if w.opened != "" && a.TTY {
		var b []byte
		for i := 0; i < 2000; i++ {
			if b, _ = os.ReadFile(op); len(b) > 0 && b[len(b)-1] == '\n' {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		s.Check(string(b) == "1:"+w.opened+"\n", "%q opens %q instead of %q", l.L, b, w.opened)
		os.Remove(op)
		os.Remove(op + ".t")
	} else if _, err := os.Stat(op); err == nil {
		s.Fail("%q opens something", l.L)
	}
	// where we are
	wh := s.Cur.Where()
	s.Check(wh == w.ctx || !changed && wh == old.ctx || w.anyCtx && wh == "", "%q: entered entry is %q instead of %q", l.L, wh, w.ctx)
	m.ctx = wh
	m.sync(x, d)
	x.State(got.Show() + "|" + m.ctx)
	switch {
	case w.target != "" && changed:
		x.Outcome("changed by " + strings.Fields(l.L)[0])
	case w.newEntry != "":
		x.Outcome("created")
	case len(w.clips) > 0 || w.suffix != "" || w.listing:
		x.Outcome("shown")
	default:
		x.Outcome("refused")
	}
}

func runShell(x *core.X, c ShCase) {
	a, s, m := shOpen(x, c.DB)
	for _, l := range c.Lines {
		if s.Cur.Kind == "exit" {
			break
		}
		shLine(x, a, s, m, l)
	}
}

// shReadOnly are the commands that change nothing; they can share a session.
var shReadOnly = []string{"ls", "labels", "cd", "cp", "get", "user", "pass", "email", "totp", "login", "show", "dump", "help", "dumpall"}

var shWriting = []string{"add", "mv", "rm", "rmk", "set", "edit", "label", "rmlabel", "passwd", "adduser", "rekey", "rekeyall", "sync", "addsync", "exit", "open", "bogus", "RM", "set\ta", "?"}

// shAnswers are the answers that go with a command.
func shAnswers(cmd string, args []string) []string {
	switch cmd {
	case "add":
		return []string{"e@x", "", "m", "np", "np"}
	case "rm":
		if len(args) > 0 {
			return []string{args[0]}
		}
	case "set":
		if len(args) > 0 && args[len(args)-1] == "pass" {
			return []string{"m", "gen", "gen"}
		}
		return []string{"line 1", "", "line 2", "."}
	case "label":
		return []string{"new", "l1", "Bad", "b ad", "x,y", "é", ""}
	case "passwd", "adduser":
		return []string{"m", "np", "np"}
	case "rekey":
		return []string{"m", "np", "np"}
	case "rekeyall":
		return []string{"n"}
	case "login":
		return []string{"", "x", "", ""}
	case "addsync":
		return []string{"/nonexistent/dir/f"}
	}
	return nil
}

// argLists are all argument lists up to n words.
func argLists(words []string, n int) [][]string { return append([][]string{{}}, lists(words, n)...) }

func init() {
	fam := core.NewFamily("C32", "lines", runShell)
	core.Register(&core.Check{
		ID: "C32", Level: "model_checking",
		Rule:        "one execution is a session of the real program (terminal and key derivation replaced) on a start database; after every line the whole database, clipboard, output, opened urls and the prompt are compared with the reference model of the shell; state = database content and entered entry",
		Assumptions: []string{"entry names are unique", "user and sync commands are only checked for leaving other entries alone here (see C22, C23)"},
		Run: func(ctx *core.Ctx) {
			words := []string{"a", "ab", "b", "b/c", "zz", "user", "pass", "name", "l1", "1"}
			ins := []string{"", "a", "b/c"}
			ro := func(db string, words []string, n int) {
				fam.Explore(ctx, fmt.Sprintf("%s: every reading command with every list of up to %d words out of %d, at the root and in two entries", db, n, len(words)), func(y func(ShCase) bool) {
					for _, in := range ins {
						for _, cmd := range shReadOnly {
							var ls []ShLine
							flush := func() bool {
								c := ShCase{DB: db, Lines: ls}
								ls = nil
								return y(c)
							}
							for _, al := range argLists(words, n) {
								if in != "" {
									ls = append(ls, ShLine{L: "cd " + in})
								} else {
									ls = append(ls, ShLine{L: "cd"})
								}
								ls = append(ls, ShLine{L: strings.Join(append([]string{cmd}, al...), " "), A: shAnswers(cmd, al)})
								if len(ls) >= 60 && !flush() {
									return
								}
							}
							if len(ls) > 0 && !flush() {
								return
							}
						}
					}
				})
			}
			wr := func(db string, cmds, words []string, n int, ins []string) {
				fam.Explore(ctx, fmt.Sprintf("%s: %d writing commands with every list of up to %d words out of %d, entered %q", db, len(cmds), n, len(words), ins), func(y func(ShCase) bool) {
					for _, in := range ins {
						for _, cmd := range cmds {
							for _, al := range argLists(words, n) {
								var ls []ShLine
								if in != "" {
									ls = append(ls, ShLine{L: "cd " + in})
								}
								l := ShLine{L: strings.Join(append([]string{cmd}, al...), " "), A: shAnswers(cmd, al)}
								if !y(ShCase{db, append(ls, l)}) {
									return
								}
							}
						}
					}
				})
			}
			ro("single", words, ctx.Pick(2, 3))
			ro("multi", []string{"a", "u1", "user/u1", "user", "zz", "mkey"}, 2)
			ro("empty", []string{"a", "", "1"}, 2)
			rich := []string{"git", "GIT", "Git", "gi", "git/x", "g/x", "e", "user", "labels", "pass", "x"}
			ins = []string{"", "git", "GIT", "e"}
			ro("rich", rich, 2)
			wr("rich", []string{"add", "mv", "rm", "rmk", "set", "edit", "label", "rmlabel", "open"}, rich, 2, []string{"", "GIT"})
			ins = []string{"", "a", "b/c"}
			wr("single", shWriting, append(words, "k", "labels"), 2, ins)
			wr("single", []string{"set", "mv", "rm", "rmk", "rmlabel", "edit"}, append(words, "k", "TOTP", "labels", "notes", "url"), ctx.Pick(2, 3), ins[:2])
			wr("multi", shWriting, []string{"a", "user/u1", "user/u2", "u1", "user/", "zz", "name", "mkey", "user/zz"}, 2, []string{"", "user/u1"})
			wr("empty", shWriting, []string{"a", "b/c", "name"}, 2, []string{""})
			special := shSpecial()
			fam.Explore(ctx, fmt.Sprintf("%d odd lines, each alone and after cd", len(special)), func(y func(ShCase) bool) {
				for _, db := range []string{"single", "new", "multi"} {
					for _, l := range special {
						if !y(ShCase{db, []ShLine{l}}) || !y(ShCase{db, []ShLine{{L: "cd a"}, l, {L: "ls"}}}) {
							return
						}
					}
				}
			})
			fam.Explore(ctx, "open with a terminal: every query, at the root and in every entry", func(y func(ShCase) bool) {
				for _, in := range append(ins, "ab", "Zé") {
					for _, al := range append(argLists(words, 1), []string{"Zé"}, []string{"b/c", "a"}) {
						if !y(ShCase{"single+tty", []ShLine{{L: strings.TrimSpace("cd " + in)}, {L: strings.Join(append([]string{"open"}, al...), " ")}, {L: "set a url x://y/\"'$(echo)$HOME|%25s;"}, {L: "cd"}, {L: "open a"}}}) {
							return
						}
					}
				}
			})
			var typed []ShLine
			parts := []string{"", "x", " ", ". ", "..", "é"}[:ctx.Pick(4, 6)]
			for _, l := range lists(parts, ctx.Pick(5, 6)) {
				ends := false
				for i := 1; i < len(l); i++ {
					ends = ends || l[i] == "" && l[i-1] == ""
				}
				if ends {
					continue
				}
				for i, end := range [][]string{{"."}, {ctrlD}, {"", ""}} {
					if i > 0 && len(l) > 4 || i == 2 && len(l) > 0 && l[len(l)-1] == "" {
						continue
					}
					typed = append(typed, ShLine{L: "set a k", A: append(append([]string{}, l...), end...)})
				}
			}
			shBatch(ctx, fam, fmt.Sprintf("typed values of up to %d lines out of %q", ctx.Pick(5, 6), parts), "single", 12, typed)
			changes := []ShLine{{L: "mv a c"}, {L: "mv b/c a"}, {L: "mv b/c d/e"}, {L: "mv c a"}, {L: "mv ab a"}, {L: "rm a", A: []string{"a"}}, {L: "rm b/c", A: []string{"b/c"}}, {L: "add a", A: []string{"e", "u", "m", "p", "p"}}, {L: "set a name x"}, {L: "cd ab"}, {L: "cd"}, {L: "sync"}}
			here := []ShLine{{L: "show"}, {L: "get user"}, {L: "set user v2"}, {L: "cp user"}, {L: "ls"}, {L: "set k w"}, {L: "label", A: []string{"y", ""}}, {L: "rmlabel l1"}, {L: "login", A: []string{"", "", ""}}, {L: "rmk k"}, {L: "rmk user"}, {L: "show"}}
			fam.Explore(ctx, fmt.Sprintf("the current entry after every sequence of up to 2 of %d changes, and all that is done with it", len(changes)), func(y func(ShCase) bool) {
				for _, in := range []string{"a", "b/c"} {
					for n := 1; n <= ctx.Pick(2, 3); n++ {
						for _, seq := range intSeqs(len(changes), n) {
							ls := []ShLine{{L: "cd " + in}}
							for _, i := range seq {
								ls = append(ls, changes[i])
							}
							if !y(ShCase{"single", append(ls, here...)}) {
								return
							}
						}
					}
				}
			})
			zones := []string{"America/St_Johns", "Pacific/Kiritimati", "Asia/Kathmandu"}
			fam.Explore(ctx, fmt.Sprintf("update times in %d other time zones", len(zones)), func(y func(ShCase) bool) {
				for _, z := range zones {
					for _, l := range []string{"set a k x", "rmk a k", "mv a a9", "label a", "get ab updated", "show a 2"} {
						if !y(ShCase{"single@" + z, []ShLine{{L: "show a"}, {L: "get a updated"}, {L: l, A: []string{"zz", ""}}, {L: "show a"}, {L: "cp a updated"}, {L: "cd a9"}, {L: "get updated"}, {L: "show"}, {L: "show 1"}}}) {
							return
						}
					}
				}
			})
			odd := []string{"Updated", "UPDATED", "updateD", "Name", "LABELS", "Labels", "Totp", "PASS", "Notes", "URL", "Sync", "MKey", "SALT", "knownHosts", "k k", "K", "k.", "-k", "ü", "Ü", "1", "k=v", "%s"}
			fam.Explore(ctx, fmt.Sprintf("%d kinds of keys: set, shown, copied, removed", len(odd)), func(y func(ShCase) bool) {
				for _, k := range odd {
					for _, in := range []string{"", "a"} {
						e := "a "
						if in != "" {
							e = ""
						}
						ls := []ShLine{{L: strings.TrimSpace("cd " + in)}}
						for _, l := range []string{"set " + e + k + " q7one", "show " + e, "get " + e + k, "cp " + e + k, "set " + e + k + " q7two", "show " + e, "set " + e + strings.ToLower(k) + "2 q7three", "rmk " + e + k, "show " + e, "get " + e + k, "rmk " + e + strings.ToLower(k)} {
							l = strings.TrimSpace(l)
							f := strings.Fields(l)
							ls = append(ls, ShLine{L: l, A: shAnswers(f[0], f[1:])})
						}
						if !y(ShCase{"single", ls}) {
							return
						}
					}
				}
			})
			fam.Explore(ctx, "large databases: N entries, one with N labels, keys and lines of notes, one written N times; each of 40 lines alone", func(y func(ShCase) bool) {
				for _, n := range []int{9, 10, 11, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 513, 999, 1000, 1001, 1025, 2049, 4097} {
					if !ctx.Thorough() && n != 11 && n != 65 && n != 129 && n != 257 && n != 1025 {
						continue
					}
					last, new := fmt.Sprint("e", n-1), fmt.Sprint("e", n)
					ls := []string{"ls", "ls e1", "labels", "labels odd", "labels x1", fmt.Sprint("labels x", n-1), fmt.Sprint("labels x0 x", n-1), "labels odd l3", "show e1", "show e2", "show e2 1", fmt.Sprint("show e2 ", n), fmt.Sprint("show e2 ", 2*n-1), "dump e1", "get e1 notes", "get e1 long", "get e1 labels", fmt.Sprint("get e1 k", n-1), "get e2 user 1", fmt.Sprint("get e2 user ", n), fmt.Sprint("get e2 user ", n+1), "cp e1 notes", "cp e1 long",
						"show "+last, "cd "+last, "pass "+last, "pass 5", "rm "+last, "add "+new, "mv "+last+" "+new, "set e1 k0 new", fmt.Sprint("set e1 k", n, " new"), "set e1 notes", "rmk e1 k0", fmt.Sprint("rmk e1 k", n-1), "label e1", fmt.Sprint("rmlabel e1 x", n-1), "rmlabel e1 x0", "label "+last, "dumpall", "rekey", "mv e1 x/y"}
					for i, l := range ls {
						if n > 600 && i%6 != 0 && !ctx.Thorough() {
							continue
						}
						f := strings.Fields(l)
						if !y(ShCase{fmt.Sprint("wide", n), []ShLine{{L: l, A: shAnswers(f[0], f[1:])}, {L: "show e2"}, {L: "ls e"}, {L: "exit"}}}) {
							return
						}
					}
				}
			})
			rep := shRepresentative()
			n := 2
			if ctx.Thorough() {
				n = 3
			}
			for k := 2; k <= n; k++ {
				k := k
				fam.Explore(ctx, fmt.Sprintf("all sequences of %d out of %d representative lines", k, len(rep)), func(y func(ShCase) bool) {
					var rec func(cur []ShLine) bool
					rec = func(cur []ShLine) bool {
						if len(cur) == k {
							return y(ShCase{"single", append([]ShLine{}, cur...)})
						}
						for _, l := range rep {
							if !rec(append(cur, l)) {
								return false
							}
						}
						return true
					}
					rec(nil)
				})
			}
		},
	})
}

// shSpecial are lines of odd shape.
func shSpecial() (ls []ShLine) {
	for _, l := range []string{"", " ", "\t", "\u00a0", "\x00", "\x1b[A", "set", "set ", "set a", "set  a user v", "set a  user v", "set a user  v", "set a user v  w ", "set\ta user v", "set\u00a0a user v", "set\ta\tuser\tv", " set a user v", "\tset a user v",
		"SET a user v", "Exit", "exit now", "quit", "ls\ta", "ls  a ", "get a  k", "cp\ta\tk", "rm  a", "ls é", "ls Z", "ls z", "cd Zé", "cd z", "show z", "get zé k", "set zé k Ü ñ\u2003x", "add é/ü", "mv a é", "ls /", "ls a/", "ls b/c/d", "ls //", "get / k",
		"set a url example.com", "set a url https://x y", "set a url https://x/%zz", "set a url mailto:x", "set a url http://", "set a url", "set a totp", "set a totp JBSWY3DPEHPK3PXP", "set a totp 1", "set a totp otpauth://totp/x?secret=JBSWY3DPEHPK3PXP&digits=8", "set a totp otpauth://hotp/x?secret=JBSWY3DPEHPK3PXP", "set a TOTP x", "set a Name x", "set a NAME x", "set a updated 5", "set a Salt 1", "set a mkey ff", "set a Pass x", "set a User x", "set a sync true", "set a labels x", "set a notes",
		"get a k x", "get a k 1", "get a k -1", "get a totp", "get a updated", "cp a updated", "cp a totp", "get ab totp", "get ab pass", "totp a", "totp ab", "totp b/c", "login a", "login ab", "login b/c", "login Zé", "login",
		"show a 1", "show a 2", "show a 12", "show a 13", "show a 14", "show a 99", "show a -1", "show a 0", "show a x", "show a 99999999999999999999", "open a", "open b/c", "open ab", "open", "rmk a totp", "rmk a TOTP", "rmk a Name", "rmk a nokey", "rmk a k", "label ab", "rmlabel a l2", "rmlabel a l1", "rmlabel a l9", "rmlabel b/c l1", "rmlabel ab l1",
		"help x", "help sync", "help users more", "add a b", "mv a", "mv a b c", "mv a a", "mv zz a", "rm", "cd a b", "sync zz", "sync a", "sync", "addsync", "addsync ftp", "addsync file", "addsync FILE", "add sync/file", "add user/", "add user/x", "mv a user/x", "rm user/u2", "mv user/u2 user/u3", "mv user/u1 user/u3", "mv user/u1 x", "passwd zz", "rekey zz", "rekey", "passwd", "rekey u2", "passwd u2", "adduser u2", "adduser",
		strings.Repeat("x", 100000), "add " + strings.Repeat("n", 5000), "set a k " + strings.Repeat("v", 100000), "%s %d %!", "ls %s", "add %d%s", "set a k %s%n", "cd a/../b"} {
		f := strings.Fields(l)
		var al []string
		cmd := ""
		if len(f) > 0 {
			cmd, al = f[0], f[1:]
		}
		ls = append(ls, ShLine{L: l, A: shAnswers(cmd, al)})
	}
	// endings and answers
	ls = append(ls, ShLine{L: ctrlD}, ShLine{L: ctrlC}, ShLine{L: termErr}, ShLine{L: "exit"},
		ShLine{L: "rm a", A: []string{"b"}}, ShLine{L: "rm a", A: []string{""}}, ShLine{L: "rm a", A: []string{ctrlD}}, ShLine{L: "rm a", A: []string{ctrlC}}, ShLine{L: "rm a", A: []string{"a "}}, ShLine{L: "rm a", A: []string{"A"}},
		ShLine{L: "set a k", A: []string{ctrlD}}, ShLine{L: "set a k", A: []string{"", ""}}, ShLine{L: "set a k", A: []string{"", "x", "", ""}}, ShLine{L: "set a k", A: []string{"x", ctrlC}}, ShLine{L: "set a k", A: []string{" x ", "", "y", ctrlD}}, ShLine{L: "set a k", A: []string{"."}},
		ShLine{L: "set a pass", A: []string{ctrlD}}, ShLine{L: "set a pass", A: []string{ctrlC}}, ShLine{L: "set a labels", A: []string{ctrlD}}, ShLine{L: "set a name", A: []string{ctrlD}},
		ShLine{L: "label a", A: []string{ctrlD}}, ShLine{L: "label a", A: []string{"x", ctrlD}}, ShLine{L: "label a", A: []string{"x", "x", "."}}, ShLine{L: "label a", A: []string{"l1", "x", ctrlC}}, ShLine{L: "label Zé", A: []string{"ok", "x y", "no,good", ",", "İ", ""}},
		ShLine{L: "login a", A: []string{ctrlD}}, ShLine{L: "login a", A: []string{"", ctrlC}}, ShLine{L: "login a", A: []string{"x", "y", "z"}},
		ShLine{L: "passwd", A: []string{ctrlD}}, ShLine{L: "adduser new", A: []string{ctrlD}}, ShLine{L: "rekey u1", A: []string{ctrlD}}, ShLine{L: "rekeyall", A: []string{ctrlD}}, ShLine{L: "rekeyall", A: []string{"x", "y"}}, ShLine{L: "addsync file", A: []string{ctrlD}}, ShLine{L: "addsync scp", A: []string{"u", ctrlD}}, ShLine{L: "add q", A: []string{ctrlD}}, ShLine{L: "add q", A: []string{"e", ctrlD}}, ShLine{L: "add q", A: []string{"e", "u", "m", "p", ctrlD}}, ShLine{L: "add q", A: []string{"e", ctrlC}})
	return ls
}

// shRepresentative are the lines sequences are built from.
func shRepresentative() []ShLine {
	return []ShLine{
		{L: "add c", A: []string{"", "u", "m", "p", "p"}}, {L: "add a", A: []string{"", "u", "m", "p", "p"}}, {L: "mv a c"}, {L: "mv ab a"}, {L: "mv c x/y"}, {L: "rm a", A: []string{"a"}}, {L: "rm b/c", A: []string{"b/c"}}, {L: "rm ab", A: []string{"no"}},
		{L: "cd a"}, {L: "cd b/c"}, {L: "cd"}, {L: "set a user v1"}, {L: "set user v2"}, {L: "set pass", A: []string{"m", "p9", "p9"}}, {L: "rmk a user"}, {L: "rmk k"}, {L: "label a", A: []string{"x", "l1", ""}}, {L: "label", A: []string{"y", ""}}, {L: "rmlabel a l1"}, {L: "rmlabel l1"},
		{L: "set a name x"}, {L: "set b"}, {L: "get a user"}, {L: "get user"}, {L: "ls"}, {L: "ls a"}, {L: "labels l1"}, {L: "show a 2"}, {L: "cp a pass"}, {L: "login a", A: []string{"", "", ""}}, {L: "edit a k"}, {L: "sync"}, {L: "rm zz"}, {L: "adduser me"}, {L: "add c", A: []string{ctrlD}}, {L: "exit"},
	}
}
