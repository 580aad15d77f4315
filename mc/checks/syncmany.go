package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/txlogs"
)

// ManyCase is a synchronisation with as many remotes as the pattern has letters: n has a change of its
// own, s is as old as the common history, m is missing, d is the same file as the last one that is there, b is
// not a file of this program.
type ManyCase struct {
	Pat     string `json:"pat"`
	Wide    int    `json:"wide"`    // size of the common history
	Changes int    `json:"changes"` // of every n
	Local   int    `json:"local"`
}

func runMany(x *core.X, c ManyCase) {
	a := newApp(x)
	a.Args = append(a.Args, "--no-sync")
	dir := filepath.Join(a.Dir, "remotes")
	if os.Mkdir(dir, 0o700) != nil {
		core.Harness("mkdir")
	}
	paths := make([]string, len(c.Pat))
	es := []Ent{{syA, []string{"name", "a", "k", "v0"}}}
	for i := range c.Pat {
		paths[i] = filepath.Join(dir, fmt.Sprint("r", i, ".bp"))
		es = append(es, Ent{fmt.Sprintf("%08x-0000-4000-8000-0000000000ff", i*7919%1000), []string{"name", fmt.Sprint("sync/r", i), "sync", "true", "url", syURL(paths[i])}})
	}
	base := append(mkTxs(syBase, es...), shWide(c.Wide)...)
	var all []txlogs.Tx
	change := func(who, n int) (l []txlogs.Tx) {
		for k := 0; k < n; k++ {
			u := fmt.Sprintf("%08x-0000-4000-8000-0000%08x", 0x5000+who, k)
			t := syBase + 1_000_000 + int64(k*1000+who)*10
			l = append(l, txlogs.Tx{Time: t, Kind: txlogs.TxAdd, UUID: u}, txlogs.Tx{Time: t + 1, Kind: txlogs.TxSetKey, UUID: u, Key: "name", Value: fmt.Sprintf("new%d.%d", who, k)})
		}
		all = append(all, l...)
		return l
	}
	enc := func(l []txlogs.Tx) []byte {
		return ref.File{Pass: "pw", Payload: payloadOf(l, len(l))}.Encode(ref.StubKDF)
	}
	a.put("pw", cat(base, change(999, c.Local)))
	var last []byte
	for i, k := range c.Pat {
		switch k {
		case 'n':
			last = enc(cat(base, change(i, c.Changes)))
		case 's':
			last = enc(base)
		case 'm':
			continue
		case 'b':
			last = []byte("this is no file of the program")
		}
		if os.WriteFile(paths[i], last, 0o600) != nil {
			core.Harness("write")
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Time < all[j].Time })
	want := cat(base, all)
	s := a.Start().MustOpen("", "pw")
	for turn := 0; turn < 2; turn++ {
		s.Out()
		s.Send("sync")
		s.Check(s.Cur.Main(), "synchronising asks %v", s.Cur)
		s.NoCrash()
		x.Step()
		d := s.Dump()
		s.Check(ref.EqualLogs(d.Log, want), "after synchronising with %d remotes there are %d changes instead of %d:\n%s", len(c.Pat), len(d.Log), len(want), s.All())
		s.Check(ref.Same(d.Snapshot, stateOf(x, d.Log[:min(int(d.Version), len(d.Log))])), "the snapshot is not the replayed log")
		bad := false
		for i, k := range c.Pat {
			if k != 'd' && k != 'm' {
				bad = k == 'b'
			}
			b, err := os.ReadFile(paths[i])
			if bad && k != 'm' {

				s.Check(err == nil && strings.HasPrefix(string(b), "this"), "remote %d, which is no file of the program, was overwritten", i)
				continue
			}
			_, st, rerr := readFile(b, "", "pw")
			s.Check(err == nil && rerr == nil && ref.EqualLogs(st.Log, want), "remote %d of %d (%c) does not have the merged log: %v %v", i, len(c.Pat), k, err, rerr)
		}
	}
	s.MustExit()
	_, st, err := readFile(a.bytes(), "", "pw")
	s.Check(err == nil && ref.EqualLogs(st.Log, want), "the saved file does not have the merged log")
	x.State(c.Pat)
	x.Outcome(fmt.Sprint(len(want)))
}

var famMany = core.NewFamily("C23", "many remotes", runMany)

func exploreMany(ctx *core.Ctx) {
	famMany.Explore(ctx, "all kinds of up to 4 remotes, patterns of up to 33, large histories", func(y func(ManyCase) bool) {
		for n := 1; n <= ctx.Pick(3, 4); n++ {
			for _, p := range strsUpTo("nsmdb", n) {
				if strings.HasPrefix(strings.TrimLeft(p, "m"), "d") {
					continue
				}
				if len(p) == n && !y(ManyCase{p, 0, 1, 1}) {
					return
				}
			}
		}
		for _, n := range []int{5, 8, 9, 10, 16, 17, 33} {
			r := func(s string) string { return strings.Repeat(s, n)[:n] }
			for _, p := range []string{r("n"), r("nd"), r("nsmdb"), "n" + strings.Repeat("d", n-1), r("s"), r("m"), r("s")[1:] + "n", "n" + r("s")[1:], r("m")[1:] + "n", r("bn"), r("ndd")} {
				if !y(ManyCase{p, 0, 1, 1}) || !y(ManyCase{p, 0, 3, 0}) {
					return
				}
			}
		}
		for _, w := range []int{11, 129, 300, 1025} {
			for _, p := range []string{"n", "nn", "nsm", "ndn"} {
				for _, k := range []int{1, 70, 300, 1100} {
					for _, l := range []int{0, 1, 300} {
						if w > 300 && k+l > 100 && !ctx.Thorough() {
							continue
						}
						if !y(ManyCase{p, w, k, l}) {
							return
						}
					}
				}
			}
		}
	})
}
