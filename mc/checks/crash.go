package checks

import (
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
)

// ---------------------------------------------------------------------------------------------
// Recorded file operations and what a crash can leave of them.

// fsOp is a recorded operation.
type fsOp struct {
	N           int
	Ret         int64
	Name        string
	Flags       int64
	Off, Len    int64
	Path, Path2 string
	Data        []byte
}

func (o fsOp) String() string {
	s := fmt.Sprintf("%d %s %s", o.N, o.Name, filepath.Base(o.Path))
	if o.Path2 != "" {
		s += " " + filepath.Base(o.Path2)
	}
	if len(o.Data) > 0 {
		s += fmt.Sprintf(" %d bytes at %d", len(o.Data), o.Off)
	}
	return s + fmt.Sprintf(" = %d", o.Ret)
}

func readOps(file string) (ops []fsOp) {
	b, err := os.ReadFile(file)
	if err != nil {
		core.Harness("no record of file operations: %v", err)
	}
	for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		if l == "" {
			continue
		}
		f := strings.SplitN(l, " ", 7)
		if len(f) != 7 {
			core.Harness("bad record %q", l)
		}
		t := strings.Split(f[6], "\t")
		if len(t) != 3 {
			core.Harness("bad record %q", l)
		}
		o := fsOp{Name: f[2], Path: strings.TrimSuffix(t[0], " (deleted)"), Path2: strings.TrimSuffix(t[1], " (deleted)")}
		fmt.Sscan(strings.Join([]string{f[0], f[1], f[3], f[4], f[5]}, " "), &o.N, &o.Ret, &o.Flags, &o.Off, &o.Len)
		o.Data, _ = hex.DecodeString(t[2])
		ops = append(ops, o)
	}
	return ops
}

// fsData is a change of a file's content.
type fsData struct {
	trunc bool
	n     int64 // new size, or offset
	data  []byte
}

func (d fsData) apply(b []byte, part int) []byte {
	if d.trunc {
		if int64(len(b)) >= d.n {
			return append([]byte{}, b[:d.n]...)
		}
		return append(append([]byte{}, b...), make([]byte, d.n-int64(len(b)))...)
	}
	b = append([]byte{}, b...)
	data := d.data
	if part >= 0 && part < len(data) {
		data = data[:part]
	}
	off := d.n
	if off == -2 {
		off = int64(len(b))
	}
	if need := off + int64(len(data)); int64(len(b)) < need {
		b = append(b, make([]byte, need-int64(len(b)))...)
	}
	copy(b[off:], data)
	return b
}

type fsInode struct {
	durable []byte
	pending []fsData
}

func (i *fsInode) now() []byte {
	b := i.durable
	for _, d := range i.pending {
		b = d.apply(b, -1)
	}
	return b
}

// contents are all contents the file can have after the machine stopped: the durable one plus any
// number of the later changes, the last of them possibly torn.
func (i *fsInode) contents(y func(string, []byte)) {
	b := i.durable
	y("durable part", b)
	for k, d := range i.pending {
		if !d.trunc {
			for _, p := range []int{0, 1, len(d.data) / 2, len(d.data) - 1} {
				if p < len(d.data) {
					y(fmt.Sprintf("%d later changes and %d bytes", k, p), d.apply(b, p))
				}
			}
			// the size is there but not the data
			z := fsData{n: d.n, data: make([]byte, len(d.data))}
			y(fmt.Sprintf("%d later changes and zeroes", k), z.apply(b, -1))
		}
		b = d.apply(b, -1)
		y(fmt.Sprintf("%d later changes", k+1), b)
	}
}

// fsModel is a file system in which names and contents become durable separately.
type fsModel struct {
	names   []map[string]*fsInode // after each change of names
	durable int                   // this many of them are certain (index)
	foreign string                // a file that comes from another directory
	dir     string
	odd     string // an operation that is not modelled
	sync    map[string]bool
}

func newFS(dir string) *fsModel {
	m := &fsModel{sync: map[string]bool{}, dir: dir}
	base := map[string]*fsInode{}
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if e.Type().IsRegular() {
			b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
			base[filepath.Join(dir, e.Name())] = &fsInode{durable: b}
		}
	}
	m.names = []map[string]*fsInode{base}
	return m
}

func (m *fsModel) cur() map[string]*fsInode { return m.names[len(m.names)-1] }

func (m *fsModel) change() map[string]*fsInode {
	n := map[string]*fsInode{}
	for k, v := range m.cur() {
		n[k] = v
	}
	m.names = append(m.names, n)
	return n
}

// names resolved through symlinks of the start state
type linkMap map[string]string

func (l linkMap) res(p string) string {
	for i := 0; i < 50; i++ {
		t, ok := l[p]
		if !ok {
			return p
		}
		if !filepath.IsAbs(t) {
			t = filepath.Join(filepath.Dir(p), t)
		}
		p = t
	}
	return p
}

func (m *fsModel) apply(o fsOp, links linkMap) {
	if o.Ret < 0 {
		return
	}
	p := links.res(o.Path)
	data := func(d fsData) {
		i := m.cur()[p]
		if i == nil {
			m.odd = o.String()
			return
		}
		i.pending = append(i.pending, d)
		if m.sync[p] {
			i.durable, i.pending = i.now(), nil
		}
	}
	switch o.Name {
	case "open":
		if o.Flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 && o.Flags&syscall.O_CREAT == 0 {
			return
		}
		if m.cur()[p] == nil && o.Flags&syscall.O_CREAT != 0 {
			m.change()[p] = &fsInode{}
		} else if o.Flags&syscall.O_TRUNC != 0 {
			data(fsData{trunc: true})
		}
		m.sync[p] = o.Flags&(syscall.O_SYNC|syscall.O_DSYNC) != 0
	case "write":
		if len(o.Data) > 0 {
			data(fsData{n: o.Off, data: o.Data})
		}
	case "truncate":
		data(fsData{trunc: true, n: o.Len})
	case "fallocate":
		if i := m.cur()[p]; i != nil && int64(len(i.now())) < o.Off+o.Len && o.Flags == 0 {
			data(fsData{trunc: true, n: o.Off + o.Len})
		}
	case "fsync":
		if i := m.cur()[p]; i != nil {
			i.durable, i.pending = i.now(), nil
		} else { // the directory
			m.durable = len(m.names) - 1
		}
	case "sync":
		m.durable = len(m.names) - 1
		for _, i := range m.cur() {
			i.durable, i.pending = i.now(), nil
		}
	case "rename":
		i := m.cur()[o.Path]
		if i == nil && o.Flags == 0 && !strings.HasPrefix(filepath.Clean(o.Path), m.dir+"/") {
			m.foreign = o.String()
		}
		if i == nil || o.Flags&2 != 0 {
			m.odd = o.String()
			return
		}
		n := m.change()
		delete(n, o.Path)
		n[o.Path2] = i
	case "link":
		i := m.cur()[o.Path]
		if i == nil {
			m.odd = o.String()
			return
		}
		m.change()[o.Path2] = i
	case "unlink":
		n := m.change()
		delete(n, o.Path)
	case "symlink", "mkdir", "copy", "other":
		m.odd = o.String()
	}
}

// crash calls y with every content (nil: no file) the name can have if the machine stops now.
func (m *fsModel) crash(name string, y func(how string, content []byte)) {
	for k := m.durable; k < len(m.names); k++ {
		i := m.names[k][name]
		if i == nil {
			y(fmt.Sprintf("%d of %d name changes", k, len(m.names)-1), nil)
			continue
		}
		i.contents(func(how string, b []byte) {
			if b == nil {
				b = []byte{}
			}
			y(fmt.Sprintf("%d of %d name changes, %s", k, len(m.names)-1, how), b)
		})
	}
}

// ---------------------------------------------------------------------------------------------
// C20

// DiskCase is a session whose save is disturbed.
type DiskCase struct {
	Start string `json:"start"` // new, small, multi, big, passwd, rekey
	Setup string `json:"setup"` // "", link, rellink, chain, dangling, mode640, mode400, owner
	Plan  string `json:"plan"`
}

// saveWorld is the file before and the accepted files after the session.
type saveWorld struct {
	a       *App
	db      string // directory
	real    string // the file itself
	old     []byte
	oldCred cred
	newCred cred
	oldLog  []txlogs.Tx
	newLog  []txlogs.Tx
	links   linkMap
	trace   string
}

func saveSetup(x *core.X, c DiskCase) *saveWorld {
	a := newApp(x)
	w := &saveWorld{a: a, db: filepath.Join(a.Dir, "db"), links: linkMap{}, trace: filepath.Join(a.Dir, "trace")}
	os.Mkdir(w.db, 0o700)
	a.File = filepath.Join(w.db, "vault.bp")
	w.real = a.File
	link := func(from, to string) {
		if err := os.Symlink(to, from); err != nil {
			core.Harness("%v", err)
		}
		w.links[from] = to
	}
	switch c.Setup {
	case "link", "dangling":
		w.real = filepath.Join(w.db, "real.bp")
		link(a.File, w.real)
	case "rellink":
		w.real = filepath.Join(w.db, "real.bp")
		link(a.File, "real.bp")
	case "chain":
		w.real = filepath.Join(w.db, "real.bp")
		link(a.File, "l2")
		link(filepath.Join(w.db, "l2"), w.real)
	}
	w.oldCred, w.newCred = cred{"", "pw"}, cred{"", "pw"}
	file := a.File
	a.File = w.real
	switch c.Start {
	case "new":
	case "small":
		w.oldLog = shLog()
		a.put("pw", w.oldLog)
	case "passwd", "rekey":
		w.oldLog = shLog()
		a.put("pw", w.oldLog)
		w.newCred.pass = "np"
	case "big":
		w.oldLog = append(shLog(), mkTxs(5000, Ent{uid(9), []string{"name", "big", "notes", strings.Repeat("0123456789abcdef", 70000)}})...)
		a.put("pw", w.oldLog)
	case "multi":
		_, w.oldLog = a.putUsers(shUsers, shMaster, shLog())
		w.oldCred = cred{"u1", "p1"}
		w.newCred = w.oldCred
	}
	w.old = a.bytes()
	if c.Setup == "owner" { // another user's, the program is run by root
		os.Chown(w.real, 65534, 65533)
	}
	if c.Setup == "mode640" {
		os.Chmod(w.real, 0o640)
	}
	if c.Setup == "mode400" {
		os.Chmod(w.real, 0o400)
	}
	a.File = file
	return w
}

// run does the session under the tracer; started says whether the shell was reached.
func (w *saveWorld) run(x *core.X, c DiskCase) (s *Sess, started bool) {
	a := w.a
	a.Pre = []string{filepath.Join(os.Getenv("MC_TOOLS"), "ftrace"), w.trace, w.db, c.Plan}
	s = a.Start()
	end := func() bool { return s.Cur.Kind == "exit" }
	if end() {
		return s, false
	}
	if w.oldCred.user != "" {
		s.Send(w.oldCred.user)
	}
	if end() {
		return s, false
	}
	s.Send(w.oldCred.pass)
	if c.Start == "new" && !end() {
		s.Send(w.oldCred.pass)
	}
	if end() || !s.Cur.Main() {
		if !end() {
			s.Check(c.Plan != "-", "the program asks %v", s.Cur)
			s.Send(ctrlC)
			s.Check(s.Cur.Kind == "exit", "the program does not end")
		}
		return s, false
	}
	defer func() {
		if s.Cur.Kind == "exit" && !started && c.Plan != "-" {
			recover() // ended by the fault
		}
	}()
	if c.Start == "passwd" || c.Start == "rekey" {
		answer(s, ShLine{L: "passwd", A: []string{"m", "np", "np"}})
	}
	if c.Start != "rekey" { // which leaves the file's size as it is
		answer(s, ShLine{L: "add saved", A: []string{"", "u", "m", "p", "p"}})
	}
	s.Check(s.Cur.Main(), "the session ended early")
	w.newLog = s.Dump().Log
	s.Send("exit")
	s.Check(end(), "exit asks %v", s.Cur)
	return s, true
}

// is tells what a file is: old, new, none or broken.
func (w *saveWorld) is(b []byte) string {
	if b == nil {
		if w.old == nil {
			return "old"
		}
		return "missing"
	}
	if string(b) == string(w.old) && w.old != nil {
		return "old"
	}
	_, d, err := readFile(b, w.newCred.user, w.newCred.pass)
	if err != nil {
		return fmt.Sprintf("broken (%d bytes: %v)", len(b), err)
	}
	if !ref.EqualLogs(d.Log, w.newLog) {
		if ref.EqualLogs(d.Log, w.oldLog) && w.old != nil {
			return "old"
		}
		return fmt.Sprintf("mixed: %s", ref.ShowLog(d.Log))
	}
	return "new"
}

func (w *saveWorld) file() []byte {
	b, err := os.ReadFile(w.real)
	if err != nil {
		return nil
	}
	if b == nil {
		b = []byte{}
	}
	return b
}

// extra lists files that should not be there.
func (w *saveWorld) extra() (l []string) {
	ents, _ := os.ReadDir(w.db)
	for _, e := range ents {
		p := filepath.Join(w.db, e.Name())
		if p == w.real {
			continue
		}
		if _, ok := w.links[p]; ok {
			if t, err := os.Readlink(p); err == nil && t == w.links[p] {
				continue
			}
			l = append(l, e.Name()+" (was a link)")
			continue
		}
		l = append(l, e.Name())
	}
	return l
}

func showOps(ops []fsOp) string {
	var l []string
	for _, o := range ops {
		l = append(l, o.String())
	}
	return strings.Join(l, "\n  ")
}

// runSaveModel records an undisturbed save and checks all crash points of it.
func runSaveModel(x *core.X, c DiskCase) {
	w := saveSetup(x, c)
	fs := newFS(w.db)
	s, ok := w.run(x, c)
	s.Check(ok && s.Code == 0, "saving fails with status %d", s.Code)
	ops := readOps(w.trace)
	s.Check(w.is(w.file()) == "new", "the saved file is %s", w.is(w.file()))
	s.Check(len(w.extra()) == 0, "stray files: %q", w.extra())
	fi, err := os.Stat(w.real)
	mode := os.FileMode(0o600)
	if c.Setup == "mode640" {
		mode = 0o640
	}
	if c.Setup == "mode400" {
		mode = 0o400
	}
	s.Check(err == nil && fi.Mode() == mode || err == nil && fi.Mode() == 0o600, "mode of the saved file is %v", fi.Mode())
	seen := map[string]bool{}
	point := func(after string) {
		fs.crash(w.real, func(how string, b []byte) {
			x.Step()
			got := w.is(b)
			seen[got] = true
			if got != "old" && got != "new" {
				s.Fail("if the machine stops %s and leaves %s the file is %s; operations:\n  %s", after, how, got, showOps(ops))
			}
		})
		// only the program is killed: everything done so far is there
		b := []byte(nil)
		if i := fs.cur()[w.real]; i != nil {
			b = append([]byte{}, i.now()...)
		}
		if got := w.is(b); got != "old" && got != "new" {
			s.Fail("if the program is killed %s the file is %s; operations:\n  %s", after, got, showOps(ops))
		}
	}
	point("at the start")
	for _, o := range ops {
		if o.Name == "write" && len(o.Data) > 1 && o.Ret > 0 { // killed within it
			for _, n := range []int{1, len(o.Data) / 2, len(o.Data) - 1} {
				if i := fs.cur()[w.links.res(o.Path)]; i != nil {
					i.pending = append(i.pending, fsData{n: o.Off, data: o.Data[:n]})
					point(fmt.Sprintf("within %s", o))
					i.pending = i.pending[:len(i.pending)-1]
				}
			}
		}
		fs.apply(o, w.links)
		if o.Name == "chmod" || o.Name == "open" || o.Name == "rename" || o.Name == "write" {
			// whoever may read it now may read it for ever: only checked on the model's names
			x.State(fmt.Sprint(o.Name, len(fs.names), fs.durable, len(fs.cur())))
		}
		point("after " + o.String())
	}
	s.Check(fs.foreign == "", "the file is replaced by one from another directory, which can not be done at once (or at all) if that is on another file system: %s", fs.foreign)
	if fs.odd != "" {
		core.Harness("operation not modelled: %s", fs.odd)
	}
	// the model must have arrived where the real file system is
	if i := fs.cur()[w.real]; i == nil || string(i.now()) != string(w.file()) {
		core.Harness("the recorded operations do not lead to the file found:\n  %s", showOps(ops))
	}
	if fi, err := os.Stat(w.real); err == nil {
		st := fi.Sys().(*syscall.Stat_t)
		s.Check(c.Setup != "owner" || st.Uid == 65534 && st.Gid == 65533, "the file now belongs to %d:%d", st.Uid, st.Gid)
	}
	// a completed save is durable
	fs.crash(w.real, func(how string, b []byte) {
		if got := w.is(b); got != "new" {
			s.Fail("after a completed save a power loss can leave %s: the file is %s; operations:\n  %s", how, got, showOps(ops))
		}
	})
	// only the owner can read the contents at any time
	for _, o := range ops {
		if c.Setup != "mode640" && o.Ret >= 0 && (o.Name == "open" && o.Flags&syscall.O_CREAT != 0 && o.Len&^0o022&0o077 != 0 || o.Name == "chmod" && o.Flags&0o077 != 0) {
			s.Fail("%s gives access to others (mode %o or %o)", o, o.Len, o.Flags)
		}
	}
	for k := range seen {
		x.Outcome("a crash leaves " + k)
	}
}

// SaveFault is one disturbed real run.
func runSaveFault(x *core.X, c DiskCase) {
	w := saveSetup(x, c)
	s, started := w.run(x, c)
	b := w.file()
	if !started {
		w.newLog = nil
	}
	got := w.is(b)
	killed := strings.Contains(c.Plan, "k")
	s.Check(got == "old" || got == "new", "the file is %s; operations:\n  %s", got, showOps(readOps(w.trace)))
	if !killed {
		s.NoCrash()
		if s.Code == 0 {
			s.Check(got == "new" && started, "a failed save (file is %s) is reported as success; operations:\n  %s", got, showOps(readOps(w.trace)))
			if strings.Contains(c.Plan, ":e") {
				for _, o := range readOps(w.trace) {
					if o.Ret < 0 && o.Name == "fsync" && strings.Contains(c.Plan, fmt.Sprintf("%d:e", o.N)) {
						s.Fail("the contents could not be made permanent but success is reported")
					}
				}
			}
			if strings.Count(c.Plan, ":e") == 0 {
				s.Check(len(w.extra()) == 0, "stray files: %q", w.extra())
			}
		} else {
			s.Check(strings.TrimSpace(s.All()) != "", "nothing is reported")
		}
	}
	if !strings.Contains(c.Setup, "640") && b != nil {
		fi, err := os.Stat(w.real)
		s.Check(err == nil && fi.Mode().Perm()&0o077 == 0, "others can read the file: %v", fi.Mode())
		for _, e := range w.extra() {
			if fi, err := os.Stat(filepath.Join(w.db, e)); err == nil {
				s.Check(fi.Mode().Perm()&0o077 == 0, "others can read %s: %v", e, fi.Mode())
			}
		}
	}
	x.Outcome(fmt.Sprintf("%s, status %v", got, s.Code == 0))
	// the next session works
	a := w.a
	a.Pre = nil
	cr, log := w.oldCred, w.oldLog
	if got == "new" {
		cr, log = w.newCred, w.newLog
	}
	if b == nil {
		return
	}
	n := a.Start().MustOpen(cr.user, cr.pass)
	n.Check(ref.EqualLogs(n.Dump().Log, log), "the next session shows another history")
	answer(n, ShLine{L: "set a user after"})
	d := n.Dump()
	n.MustExit()
	_, st, err := readFile(w.file(), cr.user, cr.pass)
	n.Check(err == nil && ref.EqualLogs(st.Log, d.Log), "the next session is not saved: %v", err)
}

// someOps are all operations of a save that has no more than 80; the first and last 25 and some of
// those between them of one that has (a save of today has some 20).
func someOps(ops []fsOp) (l []fsOp) {
	if len(ops) <= 80 {
		return ops
	}
	for i, o := range ops {
		if i < 25 || i >= len(ops)-25 || i%(len(ops)/20) == 0 {
			l = append(l, o)
		}
	}
	return l
}

// saveOps counts the operations of an undisturbed session.
func saveOps(ctx *core.Ctx, c DiskCase) (ops []fsOp) {
	ctx.Probe(func(x *core.X) {
		w := saveSetup(x, c)
		w.run(x, DiskCase{c.Start, c.Setup, "-"})
		ops = readOps(w.trace)
	})
	return ops
}

var saveErrnos = map[string][]int{ // EIO ENOSPC EACCES EROFS EDQUOT
	"open": {5, 13, 28, 30, 24}, "write": {5, 28, 122, 27}, "fsync": {5, 28, 122}, "close": {5, 28}, "rename": {5, 28, 13, 30, 18, 16}, "unlink": {5, 13}, "chmod": {5, 1}, "chown": {5, 1},
	"truncate": {5, 28}, "read": {5}, "stat": {5, 13, 40}, "readlink": {5}, "fallocate": {28}, "sync": {5}, "link": {5, 1}, "copy": {5, 28}, "symlink": {5}, "mkdir": {5}, "other": {5},
}

func init() {
	famM := core.NewFamily("C20", "crash points", runSaveModel)
	famF := core.NewFamily("C20", "faults", runSaveFault)
	core.Register(&core.Check{
		ID: "C20", Level: "fault_enumeration",
		Rule:        "crash points: one execution records every file operation of a real session and checks every state a killed program or stopped machine can leave after and within each of them (names and contents become durable separately, unsynced writes lost, torn or complete); faults: one execution is a real session with a kill, error or short transfer at one (or two) of its file operations, followed by another session; state = progress of names and contents",
		Assumptions: []string{"a write is torn at its first, middle or last byte, or leaves zeroes", "names become durable in order, at the latest with an fsync of the directory"},
		Run: func(ctx *core.Ctx) {
			starts := []string{"new", "small", "multi", "big", "passwd", "rekey"}
			setups := []string{"", "link", "rellink", "chain", "mode640", "mode400", "owner"}
			famM.Explore(ctx, "every crash point of the save of 6 start files, plain and through links", func(y func(DiskCase) bool) {
				for _, st := range starts {
					for _, se := range append(setups, "dangling") {
						if st == "new" && (se == "mode640" || se == "mode400" || se == "owner" || se == "link" || se == "rellink" || se == "chain") || st != "new" && se == "dangling" {
							continue
						}
						if !y(DiskCase{st, se, "-"}) {
							return
						}
					}
				}
			})
			combos := []DiskCase{{"new", "", ""}, {"small", "", ""}, {"small", "link", ""}, {"multi", "", ""}, {"passwd", "chain", ""}, {"rekey", "", ""}, {"big", "", ""}, {"new", "dangling", ""}}
			single := func(o fsOp) (l []string) {
				l = append(l, fmt.Sprintf("%d:kill", o.N), fmt.Sprintf("%d:killed", o.N))
				for _, e := range saveErrnos[o.Name] {
					l = append(l, fmt.Sprintf("%d:e%d", o.N, e))
				}
				if (o.Name == "write" || o.Name == "read") && o.Len > 1 {
					for _, n := range []int64{1, o.Len / 2} {
						l = append(l, fmt.Sprintf("%d:s%d", o.N, n))
					}
				}
				return l
			}
			famF.Explore(ctx, "a kill before and after, every error and short transfer at every file operation", func(y func(DiskCase) bool) {
				for _, c := range combos {
					for _, o := range someOps(saveOps(ctx, c)) {
						for _, p := range single(o) {
							if !y(DiskCase{c.Start, c.Setup, p}) {
								return
							}
						}
					}
				}
			})
			famF.Explore(ctx, "an error at one operation and a kill or error at a later one", func(y func(DiskCase) bool) {
				cs := combos[1:2]
				if ctx.Thorough() {
					cs = combos
				}
				for _, c := range cs {
					ops := saveOps(ctx, c)
					// after an error other operations follow than without it: number two more
					for _, o := range someOps(ops) {
						if o.Name == "read" || o.Name == "stat" {
							continue
						}
						errs := saveErrnos[o.Name]
						if !ctx.Thorough() && len(errs) > 1 {
							errs = errs[:1]
						}
						for _, e := range errs {
							for k := o.N + 1; k <= len(ops)+4; k++ {
								for _, p := range []string{"kill", "e5", "e28"} {
									if !y(DiskCase{c.Start, c.Setup, fmt.Sprintf("%d:e%d,%d:%s", o.N, e, k, p)}) {
										return
									}
								}
							}
						}
						if o.Name == "write" {
							for k := o.N + 1; k <= len(ops)+3; k++ {
								for _, p := range []string{"kill", "e28", "s1"} {
									if !y(DiskCase{c.Start, c.Setup, fmt.Sprintf("%d:s%d,%d:%s", o.N, o.Len/2, k, p)}) {
										return
									}
								}
							}
						}
					}
				}
			})
		},
	})
}
