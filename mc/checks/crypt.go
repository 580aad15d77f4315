package checks

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"

	"bpassmc/core"
	"bpassmc/ref"

	"github.com/aarondl/bpass/crypt"
	"github.com/aarondl/bpass/fuzzy"
	"github.com/aarondl/bpass/pkcs7"
)

var cryptNames = []string{"user1", "user2", "a", "日本", "user1 ", strings.Repeat("n", 200), "U", "user"}
var cryptPasses = []string{"hunter42", "hunter43", "x", "пароль", "hunter42 ", strings.Repeat("p", 300), "\x00\xff", "pass"}

func payload(n int) []byte { return ref.Fill("payload", n) }

func userParams(x *core.X, n int) *crypt.Params {
	p := &crypt.Params{}
	if n == 0 {
		k, s, err := crypt.DeriveKey(1, []byte(cryptPasses[0]))
		x.Check(err == nil, "derive: %v", err)
		p.Keys, p.Salts = [][]byte{k}, [][]byte{s}
		return p
	}
	m, ivm, err := crypt.NewMasterKey(1)
	x.Check(err == nil, "master: %v", err)
	p.Master, p.IVM, p.NUsers = m, ivm, n
	for i := 0; i < n; i++ {
		k, s, err := crypt.DeriveKey(1, []byte(cryptPasses[i]))
		x.Check(err == nil, "derive: %v", err)
		mk, iv, err := crypt.EncryptMasterKey(1, k, m)
		x.Check(err == nil, "mkey: %v", err)
		h := sha256.Sum256([]byte(cryptNames[i]))
		p.Users = append(p.Users, h[:])
		p.Keys = append(p.Keys, k)
		p.Salts = append(p.Salts, s)
		p.MKeys = append(p.MKeys, mk)
		p.IVs = append(p.IVs, iv)
	}
	return p
}

func clone(b [][]byte) (o [][]byte) {
	for _, x := range b {
		o = append(o, append([]byte(nil), x...))
	}
	return
}

func eq2(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// encryptKeep encrypts and checks that the inputs are left alone.
func encryptKeep(x *core.X, p *crypt.Params, pt []byte) []byte {
	keep := *p
	k, s, u, iv, mk := clone(p.Keys), clone(p.Salts), clone(p.Users), clone(p.IVs), clone(p.MKeys)
	buf := make([]byte, len(pt)+64)
	copy(buf, pt)
	for i := len(pt); i < len(buf); i++ {
		buf[i] = 0xa5
	}
	ct, err := crypt.Encrypt(1, p, buf[:len(pt)])
	x.Check(err == nil, "encrypt: %v", err)
	x.Check(bytes.Equal(buf[:len(pt)], pt), "encrypt modified the plaintext")
	for _, c := range buf[len(pt):] {
		x.Check(c == 0xa5, "encrypt wrote behind the plaintext")
	}
	x.Check(keep.NUsers == p.NUsers && keep.User == p.User && eq2(k, p.Keys) && eq2(s, p.Salts) && eq2(u, p.Users) && eq2(iv, p.IVs) && eq2(mk, p.MKeys), "encrypt modified the parameters")
	x.Step()
	return ct
}

func decryptKeep(x *core.X, user, pass, key, salt, ct []byte) (crypt.Params, []byte, error) {
	c := append([]byte(nil), ct...)
	args := [][]byte{user, pass, key, salt}
	before := clone(args)
	v, p, pt, err := crypt.Decrypt(user, pass, key, salt, c)
	x.Step()
	x.Check(bytes.Equal(c, ct), "decrypt modified the file")
	x.Check(eq2(before, args), "decrypt modified its arguments")
	if err == nil {
		x.Check(v == 1, "version %d", v)
	} else {
		x.Check(len(pt) == 0, "data returned together with an error")
	}
	return p, append([]byte(nil), pt...), err
}

// openAll: every user opens the file in every way.
func openAll(x *core.X, n int, ct, pt []byte, full *crypt.Params) []crypt.Params {
	multi, err := crypt.IsMultiUser(ct)
	x.Check(err == nil && multi == (n > 0), "IsMultiUser gives %v, %v with %d users", multi, err, n)
	stale, staleSalt, _ := crypt.DeriveKey(1, []byte("other"))
	var out []crypt.Params
	cnt := n
	if n == 0 {
		cnt = 1
	}
	for i := 0; i < cnt; i++ {
		var name []byte
		if n > 0 {
			name = []byte(cryptNames[i])
		}
		pass := []byte(cryptPasses[i])
		type way struct {
			what            string
			pass, key, salt []byte
		}
		ways := []way{
			{"passphrase", pass, nil, nil},
			{"cached key", nil, full.Keys[i], full.Salts[i]},
			{"cached key and wrong passphrase", []byte("nonsense"), full.Keys[i], full.Salts[i]},
			{"passphrase and stale key", pass, stale, staleSalt},
			{"passphrase and key without salt", pass, stale, nil},
			{"passphrase and salt without key", pass, nil, full.Salts[i]},
		}
		for j := 0; j < n; j++ {
			if j != i {
				ways = append(ways, way{"passphrase and another user's key", pass, full.Keys[j], full.Salts[j]})
			}
		}
		if n == 0 {
			ways = append(ways, way{"passphrase, with a name", pass, nil, nil})
		}
		for w, y := range ways {
			u := name
			if n == 0 && w == len(ways)-1 {
				u = []byte("somebody")
			}
			p, got, err := decryptKeep(x, u, y.pass, y.key, y.salt, ct)
			x.Check(err == nil, "user %d of %d can not decrypt with %s: %v", i, n, y.what, err)
			x.Check(bytes.Equal(got, pt), "user %d of %d gets other data with %s: %d bytes, want %d", i, n, y.what, len(got), len(pt))
			x.Check(p.NUsers == n && p.User == i, "user %d of %d: parameters say user %d of %d", i, n, p.User, p.NUsers)
			x.Check(len(p.Keys) == cnt && bytes.Equal(p.Keys[i], full.Keys[i]), "user %d of %d: key not returned", i, n)
			x.Check(eq2(p.Salts, full.Salts), "user %d of %d: salts not returned", i, n)
			if n > 0 {
				x.Check(eq2(p.Users, full.Users) && eq2(p.IVs, full.IVs) && eq2(p.MKeys, full.MKeys), "user %d of %d: user table not returned", i, n)
				x.Check(bytes.Equal(p.Master, full.Master) && bytes.Equal(p.IVM, full.IVM), "user %d of %d: master key not returned", i, n)
			}
			if w == 0 {
				out = append(out, p)
			}
		}
		if n > 0 {
			_, _, err := decryptKeep(x, nil, pass, nil, nil, ct)
			x.Check(errors.Is(err, crypt.ErrNeedUser), "no user given for a multi-user file: %v", err)
		}
		_, _, err := decryptKeep(x, name, nil, nil, nil, ct)
		x.Check(errors.Is(err, crypt.ErrWrongPassphrase), "nothing given: %v", err)
		_, _, err = decryptKeep(x, name, nil, stale, staleSalt, ct)
		x.Check(errors.Is(err, crypt.ErrWrongPassphrase), "only a stale key given: %v", err)
	}
	return out
}

// RTCase: users, payload length and which user writes in which generation.
type RTCase struct {
	N       int    `json:"n"`
	Len     int    `json:"len"`
	Writers string `json:"writers,omitempty"`
}

func cryptRoundTrip(x *core.X, c RTCase) {
	p := userParams(x, c.N)
	pt := payload(c.Len)
	ct := encryptKeep(x, p, pt)
	ps := openAll(x, c.N, ct, pt, p)
	x.State(fmt.Sprint(c.N, len(ct)))
	x.Outcome(fmt.Sprint(len(ct)))
	for g := 0; g < len(c.Writers); g++ {
		w := int(c.Writers[g] - '0')
		pt = ref.Fill(fmt.Sprint("generation", g), c.Len+g*7)
		q := ps[w]
		ct = encryptKeep(x, &q, pt)
		ps = openAll(x, c.N, ct, pt, p)
	}
}

// cryptCrowd: many users, some of which open the file, and one of which writes it again.
func cryptCrowd(x *core.X, c RTCase) {
	p := &crypt.Params{NUsers: c.N}
	var err error
	p.Master, p.IVM, err = crypt.NewMasterKey(1)
	x.Check(err == nil, "master: %v", err)
	name := func(i int) []byte { return []byte(fmt.Sprint("user", i)) }
	pass := func(i int) []byte { return []byte(fmt.Sprint("pass", i)) }
	for i := 0; i < c.N; i++ {
		k, s, err := crypt.DeriveKey(1, pass(i))
		x.Check(err == nil, "derive: %v", err)
		mk, iv, err := crypt.EncryptMasterKey(1, k, p.Master)
		x.Check(err == nil, "mkey: %v", err)
		h := sha256.Sum256(name(i))
		p.Users, p.Keys, p.Salts, p.MKeys, p.IVs = append(p.Users, h[:]), append(p.Keys, k), append(p.Salts, s), append(p.MKeys, mk), append(p.IVs, iv)
	}
	who := map[int]bool{}
	for _, i := range []int{0, 1, 9, 10, 99, 100, 101, 127, 128, 255, 256, 257, c.N / 2, c.N - 2, c.N - 1} {
		if i >= 0 && i < c.N {
			who[i] = true
		}
	}
	for g := 0; g < 2; g++ {
		pt := ref.Fill(fmt.Sprint("crowd", g), c.Len)
		ct := encryptKeep(x, p, pt)
		var next *crypt.Params
		for i := range who {
			q, got, err := decryptKeep(x, name(i), pass(i), nil, nil, ct)
			x.Check(err == nil && bytes.Equal(got, pt), "user %d of %d: %v, %d bytes", i, c.N, err, len(got))
			x.Check(q.NUsers == c.N && q.User == i && eq2(q.Users, p.Users) && eq2(q.Salts, p.Salts) && eq2(q.IVs, p.IVs) && eq2(q.MKeys, p.MKeys) && bytes.Equal(q.Master, p.Master) && bytes.Equal(q.IVM, p.IVM), "user %d of %d: the parameters differ", i, c.N)
			if i == c.N-1 {
				next = &q
			}
			j := (i + 1) % c.N
			_, _, err = decryptKeep(x, name(i), pass(j), nil, nil, ct)
			x.Check(err != nil, "user %d of %d opens the file with the passphrase of user %d", i, c.N, j)
			_, _, err = decryptKeep(x, append(name(i), 'x'), pass(i), nil, nil, ct)
			x.Check(err != nil, "an unknown user opens the file of %d with a passphrase", c.N)
		}
		d, err := ref.Decode(ct, string(name(c.N/2)), string(pass(c.N/2)), ref.StubKDF)
		x.Check(err == nil && bytes.Equal(d.Payload, pt), "the reference implementation can not read a file of %d users: %v", c.N, err)
		p = next
		x.State(fmt.Sprint(c.N, g))
	}
}

// DamageCase: a file and one modification of it.
type DamageCase struct {
	File string `json:"file"`
	Mod  string `json:"mod"`
	A    int    `json:"a"`
	B    int    `json:"b"`
}

var damageFiles = map[string]ref.File{
	"single":     {Pass: "pw", Payload: ref.Fill("p", 37)},
	"single0":    {Pass: "pw", Payload: []byte{}},
	"single-alt": {Pass: "pw", Payload: ref.Fill("q", 61)},
	"multi1":     {Users: []ref.FileUser{{Name: "u0", Pass: "pw"}}, Payload: ref.Fill("p", 37)},
	"multi3":     {Users: []ref.FileUser{{Name: "u0", Pass: "pw"}, {Name: "u1", Pass: "pw1"}, {Name: "u2", Pass: "pw2"}}, Payload: ref.Fill("p", 37)},
	"multi3-alt": {Users: []ref.FileUser{{Name: "u0", Pass: "pw", Salt: ref.Fill("as", 32)}, {Name: "u2", Pass: "pw2"}, {Name: "u1", Pass: "pw1"}}, IVM: ref.Fill("ai", 40), Payload: ref.Fill("q", 61)},
}

var encCache sync.Map

func damageFile(n string) []byte {
	if b, ok := encCache.Load(n); ok {
		return append([]byte(nil), b.([]byte)...)
	}
	b := damageFiles[n].Encode(ref.StubKDF)
	encCache.Store(n, b)
	return append([]byte(nil), b...)
}

func applyDamage(c DamageCase) []byte {
	b := damageFile(c.File)
	switch c.Mod {
	case "xor":
		b[c.A] ^= byte(c.B)
	case "truncate":
		b = b[:c.A]
	case "append":
		b = append(b, ref.Fill("app", c.A)...)
		if c.B > 0 {
			b = append(b[:len(b)-c.A], bytes.Repeat([]byte{byte(c.B - 1)}, c.A)...)
		}
	case "insert":
		b = append(b[:c.A], append([]byte{byte(c.B)}, b[c.A:]...)...)
	case "delete":
		b = append(b[:c.A], b[c.A+c.B:]...)
	case "swap8":
		x := append([]byte(nil), b[c.A:c.A+8]...)
		copy(b[c.A:], b[c.B:c.B+8])
		copy(b[c.B:], x)
	case "dup8":
		b = append(b[:c.A], append(append([]byte(nil), b[c.A-8:c.A]...), b[c.A:]...)...)
	case "splice": // beginning of this file, end of its variant
		o := damageFile(strings.TrimSuffix(c.File, "0") + "-alt")
		if c.B == 1 {
			b, o = o, b
		}
		i, j := c.A, c.A
		if i > len(b) {
			i = len(b)
		}
		if j > len(o) {
			j = len(o)
		}
		b = append(b[:i:i], o[j:]...)
	}
	return b
}

func cryptDamage(x *core.X, c DamageCase) {
	orig := damageFile(c.File)
	b := applyDamage(c)
	if bytes.Equal(b, orig) {
		return
	}
	if c.Mod == "splice" && bytes.Equal(b, damageFile(strings.TrimSuffix(c.File, "0")+"-alt")) {
		return
	}
	refuse(x, c.File, b)
}

func refuse(x *core.X, file string, b []byte) {
	f := damageFiles[file]
	users := []ref.FileUser{{Name: "", Pass: f.Pass}}
	users = append(users, f.Users...)
	for i, u := range users {
		pass := u.Pass
		if pass == "" {
			pass = "pw"
		}
		var key, salt []byte
		for k := 0; k < 2; k++ {
			if k == 1 { // with the key cached from the undamaged file
				sl := u.Salt
				if sl == nil {
					if f.Users == nil {
						sl = ref.Fill("salt"+pass, 32)
					} else {
						sl = ref.Fill("salt"+u.Name+"/"+u.Pass, 32)
					}
				}
				key, salt = ref.StubKDF([]byte(pass), sl), sl
			}
			_, pt, err := decryptKeep(x, []byte(u.Name), []byte(pass), key, salt, b)
			x.Check(err != nil, "a damaged file opens for user %d (%d bytes of data)", i, len(pt))
			x.Outcome(err.Error())
		}
	}
	crypt.IsMultiUser(b)
	x.Step()
	x.State(string(b))
}

// CredCase: credentials tried on an intact file.
type CredCase struct {
	File string `json:"file"`
	User string `json:"user"`
	Pass string `json:"pass"`
}

func cryptCreds(x *core.X, c CredCase) {
	f := damageFiles[c.File]
	b := damageFile(c.File)
	good := f.Users == nil && c.Pass == f.Pass
	for _, u := range f.Users {
		good = good || (u.Name == c.User && u.Pass == c.Pass)
	}
	_, pt, err := decryptKeep(x, []byte(c.User), []byte(c.Pass), nil, nil, b)
	x.State(fmt.Sprintf("%v", c))
	if good {
		x.Check(err == nil && bytes.Equal(pt, f.Payload), "right credentials refused: %v", err)
		x.Outcome("opened")
		return
	}
	x.Check(err != nil, "opened by %q with %q", c.User, c.Pass)
	x.Outcome(err.Error())
	if f.Users != nil && c.User == "" {
		x.Check(errors.Is(err, crypt.ErrNeedUser), "missing user: %v", err)
	}
	// nor with a key from that passphrase
	key := ref.StubKDF([]byte(c.Pass), ref.Fill("z", 32))
	_, _, err = decryptKeep(x, []byte(c.User), []byte(c.Pass), key, ref.Fill("z", 32), b)
	x.Check(err != nil, "opened by %q with a foreign key", c.User)
	if h, _, e := ref.Header(b); e == nil {
		for _, s := range h.Salts {
			_, _, err = decryptKeep(x, []byte(c.User), nil, key, s, b)
			x.Check(err != nil, "opened by %q with a foreign key and a right salt", c.User)
			_, _, err = decryptKeep(x, []byte(c.User), []byte(c.Pass), key, s, b)
			x.Check(err != nil, "opened by %q with a foreign key and a right salt", c.User)
		}
	}
}

// StageCase: a file whose cascade stage decrypts to given raw data.
type StageCase struct {
	Multi bool `json:"multi"`
	Stage int  `json:"stage"`
	Len   int  `json:"len"` // blocks
	Pad   int  `json:"pad"` // value of the last byte
	Run   int  `json:"run"` // how many bytes at the end have that value
	Hash  bool `json:"hash,omitempty"`
}

func cryptStage(x *core.X, c StageCase) {
	bs := []int{16, 16, 8}[c.Stage]
	data := ref.Fill(fmt.Sprint("stage", c.Stage), c.Len*bs)
	for i := 1; i <= c.Run && i <= len(data); i++ {
		data[len(data)-i] = byte(c.Pad)
	}
	f := ref.File{Pass: "pw", StageData: data, Stage: c.Stage}
	name := ""
	if c.Multi {
		f = ref.File{Users: []ref.FileUser{{Name: "u0", Pass: "pw"}}, StageData: data, Stage: c.Stage}
		name = "u0"
	}
	b := f.Encode(ref.StubKDF)
	_, _, err := decryptKeep(x, []byte(name), []byte("pw"), nil, nil, b)
	x.Check(err != nil, "garbage accepted")
	x.State(string(b))
	x.Outcome(err.Error())
	crypt.IsMultiUser(b)
}

// RawCase: arbitrary bytes.
type RawCase struct {
	Head string `json:"head"`
	N    int    `json:"n"`
	Fill int    `json:"fill"` // -1 pseudo random
}

func cryptRaw(x *core.X, c RawCase) {
	b := []byte(c.Head)
	if c.Fill < 0 {
		b = append(b, ref.Fill("raw", c.N)...)
	} else {
		b = append(b, bytes.Repeat([]byte{byte(c.Fill)}, c.N)...)
	}
	for _, u := range []string{"", "u0"} {
		_, pt, err := decryptKeep(x, []byte(u), []byte("pw"), nil, nil, b)
		x.Check(err != nil, "%d arbitrary bytes decrypt to %d bytes", len(b), len(pt))
		x.Outcome(err.Error())
		// the salt of the file is public: a key of the right size may be cached for it
		for _, o := range []int{16, 48} {
			if len(b) >= o+32 {
				_, _, err = decryptKeep(x, []byte(u), nil, make([]byte, 80), b[o:o+32], b)
				x.Check(err != nil, "%d arbitrary bytes decrypt", len(b))
			}
		}
	}
	x.State(string(b))
	m, err := crypt.IsMultiUser(b)
	if len(b) < 16 || string(b[:8]) != "blobpass" {
		x.Check(err != nil && !m, "IsMultiUser does not refuse %q", b[:min(len(b), 20)])
	} else if d, e := digits(b[12:16]); e && (allDigits(b[8:12])) {
		x.Check(err == nil && m == (d > 0), "IsMultiUser says %v, %v for %q", m, err, b[:16])
	}
}

func allDigits(b []byte) bool { _, ok := digits(b); return ok }

func digits(b []byte) (int, bool) {
	n := 0
	for _, c := range b {
		if c < '0' || c > '9' {
			return 0, false
		}
		n = n*10 + int(c-'0')
	}
	return n, true
}

func init() {
	rt := core.NewFamily("C08", "round-trip", cryptRoundTrip)
	crowd := core.NewFamily("C08", "crowds", cryptCrowd)
	full := core.NewFamily("C08", "incomplete-parameters", func(x *core.X, c RTCase) {
		p := userParams(x, c.N)
		if c.Len&1 != 0 {
			p.Master = nil
		}
		if c.Len&2 != 0 {
			p.IVM = nil
		}
		if c.Len&4 != 0 {
			p.Keys[0] = nil
		}
		ct, err := crypt.Encrypt(1, p, []byte("data"))
		x.Step()
		if c.Len&3 != 0 && c.N > 0 {
			x.Check(errors.Is(err, crypt.ErrNeedFullRekey) && len(ct) == 0, "missing master key or iv: %v", err)
		} else if c.Len&4 != 0 && c.N == 0 {
			x.Check(err != nil && len(ct) == 0, "missing key accepted")
		} else {
			x.Check(err == nil, "encrypt: %v", err)
			openAll2(x, c.N, ct, []byte("data"))
		}
	})
	core.Register(&core.Check{
		ID: "C08", Level: "model_checking",
		Rule:        "every number of users, payload length and sequence of writers within the bounds; after each encryption every user opens the file in every way (passphrase, cached key, stale or foreign key); scrypt is replaced by a cheap function of the same parameters; outcome = file size class",
		Assumptions: []string{"scrypt (a dependency) is replaced by a cheap KDF"},
		Run: func(ctx *core.Ctx) {
			rt.Explore(ctx, "payload lengths 0-300, single user and 1-4 users", func(y func(RTCase) bool) {
				for l := 0; l <= ctx.Pick(700, 3000); l++ {
					for n := 0; n <= 4; n++ {
						if !y(RTCase{N: n, Len: l}) {
							return
						}
					}
				}
			})
			rt.Explore(ctx, "large payloads", func(y func(RTCase) bool) {
				for _, l := range []int{4095, 4096, 4097, 65535, 65536, 1<<20 - 7, 1<<20 - 64, 1 << 20, 1<<20 + 1, 3 << 20, 17 << 20} {
					for n := 0; n <= 2; n++ {
						if l > 4<<20 && (n == 2 || !ctx.Thorough()) {
							continue
						}
						if !y(RTCase{N: n, Len: l}) {
							return
						}
					}
				}
			})
			for n := 0; n <= 3; n++ {
				rt.Explore(ctx, fmt.Sprintf("all sequences of writers, %d users", n), func(y func(RTCase) bool) {
					k := n
					if n == 0 {
						k = 1
					}
					for _, l := range []int{0, 1, 15, 16, 17, 100} {
						for _, w := range allWords("0123"[:k], ctx.Pick(3, 4)) {
							if !y(RTCase{N: n, Len: l, Writers: w}) {
								return
							}
						}
					}
				})
			}
			rt.Explore(ctx, "many users", func(y func(RTCase) bool) {
				for n := 5; n <= len(cryptNames); n++ {
					if !y(RTCase{N: n, Len: 33, Writers: "04"}) {
						return
					}
				}
			})
			crowd.Explore(ctx, "numbers of users around 10, 100, 128, 256, 512 and 1000 (thorough: up to 9999)", func(y func(RTCase) bool) {
				for _, n := range []int{9, 10, 11, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 513, 999, 1000, 1001, 4097, 9999} {
					if n > 1001 && !ctx.Thorough() {
						continue
					}
					if !y(RTCase{N: n, Len: 33}) {
						return
					}
				}
			})
			full.Explore(ctx, "missing master key, iv or key", func(y func(RTCase) bool) {
				for n := 0; n <= 2; n++ {
					for m := 0; m < 8; m++ {
						y(RTCase{N: n, Len: m})
					}
				}
			})
		},
	})

	dmg := core.NewFamily("C09", "damage", cryptDamage)
	cred := core.NewFamily("C09", "credentials", cryptCreds)
	stg := core.NewFamily("C09", "stage-garbage", cryptStage)
	raw := core.NewFamily("C09", "foreign", cryptRaw)
	for _, f := range []interface{ SetHang(int) }{dmg, cred, stg, raw} {
		f.SetHang(20)
	}
	core.Register(&core.Check{
		ID: "C09", Level: "fault_enumeration",
		Rule:        "every single-byte change (all 255), truncation, extension, insertion, deletion, block swap and splice of files of every kind, opened by every user; every padding value at every cipher stage; enumerated wrong credentials; arbitrary and header-like bytes; outcome = error",
		Assumptions: []string{"scrypt (a dependency) is replaced by a cheap KDF"},
		Run: func(ctx *core.Ctx) {
			files := []string{"single", "single0", "multi1", "multi3"}
			for _, f := range files {
				n := len(damageFile(f))
				dmg.Explore(ctx, f+": every byte, every value", func(y func(DamageCase) bool) {
					for i := 0; i < n; i++ {
						for v := 1; v < 256; v++ {
							if f == "multi3" && !ctx.Thorough() && v&(v-1) != 0 && v != 255 && i > 16 {
								continue // quick: single bits and inversion
							}
							if !y(DamageCase{f, "xor", i, v}) {
								return
							}
						}
					}
				})
				dmg.Explore(ctx, f+": truncations, extensions, insertions, deletions", func(y func(DamageCase) bool) {
					for i := 0; i < n; i++ {
						if !y(DamageCase{f, "truncate", i, 0}) {
							return
						}
						for _, v := range []int{0, 1, 8, 255, '0'} {
							y(DamageCase{f, "insert", i, v})
						}
						for k := 1; i+k <= n && k <= 64; k++ {
							if k == 1 || k == 8 || k == 16 || k == 32 || ctx.Thorough() {
								y(DamageCase{f, "delete", i, k})
							}
						}
					}
					for k := 1; k <= 200; k++ {
						for _, v := range []int{0, 1, 2, 9, 17, 256} {
							y(DamageCase{f, "append", k, v})
						}
					}
				})
				dmg.Explore(ctx, f+": swaps and duplications of 8-byte blocks, splices", func(y func(DamageCase) bool) {
					for i := 0; i+8 <= n; i += 8 {
						if i >= 8 {
							y(DamageCase{f, "dup8", i, 0})
						}
						for j := i + 8; j+8 <= n; j += 8 {
							if !y(DamageCase{f, "swap8", i, j}) {
								return
							}
						}
					}
					if f == "single" || f == "multi3" {
						for i := 1; i < n; i++ {
							y(DamageCase{f, "splice", i, 0})
							y(DamageCase{f, "splice", i, 1})
						}
					}
				})
			}
			cred.Explore(ctx, "wrong and right credentials on every kind of file", func(y func(CredCase) bool) {
				users := []string{"", "u0", "u1", "u2", "u3", "U0", "u0 ", " u0", "u", "u0\x00"}
				for _, f := range files {
					for _, u := range users {
						for _, p := range []string{"", "pw", "pw1", "pw2", "PW", "pw ", "\x00pw", "p", "pw12"} {
							y(CredCase{f, u, p})
						}
						for i := 0; i < ctx.Pick(1500, 20000); i++ {
							if !y(CredCase{f, u, fmt.Sprint("wrong", i)}) {
								return
							}
						}
					}
				}
			})
			stg.Explore(ctx, "every last byte and run of it at every stage, 0-24 blocks", func(y func(StageCase) bool) {
				for _, m := range []bool{false, true} {
					for s := 0; s < 3; s++ {
						for l := 0; l <= ctx.Pick(12, 24); l++ {
							for pv := 0; pv < 256; pv++ {
								for _, run := range []int{1, pv, pv - 1, pv + 1} {
									if run < 1 {
										continue
									}
									if !y(StageCase{m, s, l, pv, run, false}) {
										return
									}
								}
							}
						}
					}
				}
			})
			raw.Explore(ctx, "header-like and arbitrary bytes", func(y func(RawCase) bool) {
				var heads []string
				for n := 0; n <= 16; n++ {
					heads = append(heads, "blobpass00010000"[:n], "kniopass00000001"[:n], "BLOBPASS00010000"[:n])
				}
				four := []string{"0000", "0001", "0002", "9999", "0100", "-001", "-999", "+001", " 001", "1e03", "\x00\x00\x00\x01", "\xff\xff\xff\xff", "0x01", "0_01", "----"}
				for _, v := range four {
					for _, u := range four {
						heads = append(heads, "blobpass"+v+u, "kniopass"+v+u)
					}
				}
				for _, h := range heads {
					for n := 0; n <= ctx.Pick(420, 800); n++ {
						for _, f := range []int{-1, 0, 255, '0'} {
							if f != -1 && n%8 != 0 {
								continue
							}
							if !y(RawCase{h, n, f}) {
								return
							}
						}
					}
				}
				for a := 0; a < 256; a++ {
					for b := 0; b < 256; b++ {
						if !y(RawCase{string([]byte{byte(a), byte(b)}), 0, 0}) {
							return
						}
					}
				}
			})
			programDamage(ctx)
		},
	})

	format := core.NewFamily("C10", "format", cryptFormat)
	old := core.NewFamily("C10", "written-by-reference", cryptOld)
	fresh := core.NewFamily("C10", "fresh-randomness", cryptFresh)
	fresh.Serial = true
	realf := core.NewFamily("C10", "real-scrypt", cryptReal)
	realf.Serial = true
	core.Register(&core.Check{
		ID: "C10", Level: "model_checking",
		Rule: "every payload length and number of users: written files are read by an independent implementation and the other way round; all randomness is supplied by the harness and each salt, iv and key must be the fresh bytes drawn in that call; every position at which randomness can fail; three files and keys with the real scrypt; outcome = sizes",
		Run: func(ctx *core.Ctx) {
			format.Explore(ctx, "lengths 0-200, 0-4 users, read by the reference implementation", func(y func(RTCase) bool) {
				for l := 0; l <= ctx.Pick(200, 1000); l++ {
					for n := 0; n <= 4; n++ {
						if !y(RTCase{N: n, Len: l}) {
							return
						}
					}
				}
			})
			old.Explore(ctx, "lengths 0-200, 0-4 users, written by the reference implementation", func(y func(RTCase) bool) {
				for l := 0; l <= ctx.Pick(200, 1000); l++ {
					for n := 0; n <= 4; n++ {
						if !y(RTCase{N: n, Len: l}) {
							return
						}
					}
				}
			})
			fresh.Explore(ctx, "every call, three times each; every point of failure", func(y func(FreshCase) bool) {
				for _, call := range []string{"derive", "master", "mkey", "encrypt"} {
					y(FreshCase{Call: call, Fail: -1})
					for i := 0; i <= 124; i++ {
						if i%4 == 0 || i < 3 || ctx.Thorough() {
							y(FreshCase{Call: call, Fail: i})
						}
					}
				}
			})
			exploreFreshProg(ctx)
			realf.Explore(ctx, "derivation, files written earlier, round trip with the real scrypt", func(y func(string) bool) {
				for _, s := range []string{"derive", "golden-single", "golden-multi"} {
					y(s)
				}
			})
		},
	})

	padf := core.NewFamily("C11", "pad", func(x *core.X, c [2]int) {
		l, k := c[0], c[1]
		x.State(fmt.Sprint(c))
		b := ref.Fill("pad", l)
		if c[1] < 0 { // data that itself ends like padding
			k = -k
			b = bytes.Repeat([]byte{byte(k)}, l)
		}
		buf := append(make([]byte, 0, l+300), b...)
		p := pkcs7.Pad(buf, k)
		x.Step()
		n := len(p) - l
		x.Check(len(p)%k == 0 && n >= 1 && n <= k, "padding %d bytes to blocks of %d gives %d", l, k, len(p))
		x.Check(bytes.Equal(p[:l], b) && bytes.Equal(buf, b), "padding changed the data (length %d, block size %d)", l, k)
		for _, c := range p[l:] {
			x.Check(int(c) == n, "padding bytes are %d, want %d", c, n)
		}
		u, err := pkcs7.Unpad(p)
		x.Check(err == nil && bytes.Equal(u, b), "unpadding does not give back %d bytes (block size %d): %v", l, k, err)
		x.Outcome(fmt.Sprint(n))
	})
	unpad := core.NewFamily("C11", "unpad", func(x *core.X, c [3]int) {
		l, v, run := c[0], c[1], c[2]
		x.State(fmt.Sprint(c))
		b := ref.Fill("unpad", l)
		for i := range b {
			if b[i] == byte(v) {
				b[i]++
			}
		}
		for i := 1; i <= run; i++ {
			b[l-i] = byte(v)
		}
		keep := append([]byte(nil), b...)
		got, err := pkcs7.Unpad(b)
		x.Step()
		ok := l > 0 && run > 0 && v >= 1 && v <= run
		if l > 0 && run == 0 {
			return
		}
		x.Check(bytes.Equal(b, keep), "unpad changed its input")
		if ok {
			x.Check(err == nil && bytes.Equal(got, keep[:l-v]), "valid padding of %d refused (%d bytes): %v", v, l, err)
		} else {
			x.Check(err != nil, "invalid padding accepted: %d bytes, the last %d are %d", l, run, v)
			x.Check(len(got) == 0, "data returned for invalid padding")
		}
		x.Outcome(fmt.Sprint(ok, v))
	})
	hole := core.NewFamily("C11", "one-wrong-byte", func(x *core.X, c [4]int) {
		l, v, pos, val := c[0], c[1], c[2], c[3]
		b := append(ref.Fill("hole", l-v), bytes.Repeat([]byte{byte(v)}, v)...)
		b[l-1-pos] = byte(val)
		_, err := pkcs7.Unpad(b)
		x.Step()
		x.Check(err != nil, "padding of %d with byte %d from the end being %d accepted", v, pos, val)
	})
	core.Register(&core.Check{
		ID: "C11", Level: "exploration",
		Rule: "every data length x block size, padded and unpadded; every buffer length x last byte x length of the run of that byte, and every position of one wrong byte; outcome = padding",
		Run: func(ctx *core.Ctx) {
			padf.Explore(ctx, "lengths 0-600, block sizes 1-255", func(y func([2]int) bool) {
				for l := 0; l <= ctx.Pick(600, 2000); l++ {
					for k := 1; k < 256; k++ {
						if !y([2]int{l, k}) || !y([2]int{l, -k}) {
							return
						}
					}
				}
			})
			unpad.Explore(ctx, "lengths 0-280, all last bytes, all runs", func(y func([3]int) bool) {
				for l := 0; l <= 280; l++ {
					for v := 0; v < 256; v++ {
						for run := 0; run <= l && run <= 257; run++ {
							if !y([3]int{l, v, run}) {
								return
							}
						}
					}
				}
			})
			hole.Explore(ctx, "padding 2-255, every position, wrong values", func(y func([4]int) bool) {
				for v := 2; v < 256; v++ {
					for pos := 1; pos < v; pos++ {
						for _, d := range []int{-1, 1, 128} {
							if !y([4]int{v + 16, v, pos, (v + d) & 255}) {
								return
							}
							y([4]int{v, v, pos, (v + d) & 255})
						}
					}
				}
			})
		},
	})

	alpha := []string{"a", "A", "b", "B", "/", " ", "é", "É", "ß", "ẞ", "Ⱥ", "ⱥ", "İ", "i", "ǅ", "ǆ", "K", "\u212a", "k", "\xff", "\xc3", "\xe2\x82", "\ufffd", "日", "\U0001f511", "\x00", "Σ", "ς", "σ"}
	match := core.NewFamily("C12", "match", func(x *core.X, c [2]string) {
		s, q := unesc(c[0]), unesc(c[1])
		want, wantFold := refMatch(s, q, false), refMatch(s, q, true)
		got := fuzzy.Match(s, q)
		x.Steps(2)
		x.Check(got == want, "Match(%q, %q) is %v, want %v", s, q, got, want)
		gotFold := fuzzy.MatchFold(s, q)
		x.Check(gotFold == wantFold, "MatchFold(%q, %q) is %v, want %v", s, q, gotFold, wantFold)
		x.Outcome(fmt.Sprint(got, gotFold, len(s) > 0))
		x.State(s + "|" + q)
	})
	core.Register(&core.Check{
		ID: "C12", Level: "exploration",
		Rule: "every pair of name and search over an alphabet of letters in both cases, multi-byte, case-irregular and malformed characters, up to the stated lengths, against subsequence matching by definition; outcome = answers",
		Run: func(ctx *core.Ctx) {
			esc := make([]string, len(alpha))
			for i, a := range alpha {
				esc[i] = fmt.Sprintf("%x", a)
			}
			wordsOf := func(al []string, max int) []string {
				out := []string{""}
				last := []string{""}
				for i := 0; i < max; i++ {
					var next []string
					for _, w := range last {
						for _, a := range al {
							next = append(next, w+a)
						}
					}
					out = append(out, next...)
					last = next
				}
				return out
			}
			pairs := func(al []string, ns, nq int) func(func([2]string) bool) {
				return func(y func([2]string) bool) {
					qs := wordsOf(al, nq)
					for _, s := range wordsOf(al, ns) {
						for _, q := range qs {
							if !y([2]string{s, q}) {
								return
							}
						}
					}
				}
			}
			match.Explore(ctx, "29 characters, up to 2 x 2", pairs(esc, 2, 2))
			match.Explore(ctx, "29 characters, up to 3 x 1", pairs(esc, 3, 1))
			match.Explore(ctx, "29 characters, up to 1 x 3", pairs(esc, 1, 3))
			small := []string{"61", "41", "62", "2f", "ff", "c3a9"}
			match.Explore(ctx, "6 characters, up to 4 x 3", pairs(small, ctx.Pick(4, 5), 3))
			match.Explore(ctx, "2 characters, up to 8 x 6", pairs([]string{"61", "41"}, ctx.Pick(7, 9), ctx.Pick(6, 8)))
			match.Explore(ctx, "every character below U+30000 against its own cases", func(y func([2]string) bool) {
				for r := rune(0); r < 0x30000; r++ {
					if r >= 0xd800 && r < 0xe000 {
						continue
					}
					for _, q := range []rune{r, lower(r), upper(r)} {
						if !y([2]string{fmt.Sprintf("%x", "x"+string(r)), fmt.Sprintf("%x", string(q))}) {
							return
						}
					}
				}
			})
		},
	})
}

func openAll2(x *core.X, n int, ct, pt []byte) {
	for i := 0; i < max(n, 1); i++ {
		_, got, err := decryptKeep(x, []byte(cryptNames[i]), []byte(cryptPasses[i]), nil, nil, ct)
		x.Check(err == nil && bytes.Equal(got, pt), "user %d can not decrypt: %v", i, err)
	}
}

func allWords(alpha string, n int) []string {
	out := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range out {
			for _, c := range alpha {
				next = append(next, w+string(c))
			}
		}
		out = next
	}
	return out
}

func cryptFormat(x *core.X, c RTCase) {
	p := userParams(x, c.N)
	pt := payload(c.Len)
	ct := encryptKeep(x, p, pt)
	for i := 0; i < max(c.N, 1); i++ {
		d, err := ref.Decode(ct, cryptNames[i], cryptPasses[i], ref.StubKDF)
		x.Check(err == nil, "the reference implementation can not read a file with %d users and %d bytes for user %d: %v", c.N, c.Len, i, err)
		x.Check(bytes.Equal(d.Payload, pt), "the reference implementation reads other data")
		x.Check(d.NUsers == c.N, "%d users, want %d", d.NUsers, c.N)
		x.Check(bytes.Equal(d.Key, p.Keys[i]), "the key is not the documented derivation")
	}
	secret := func(what string, b []byte) {
		if len(b) >= 8 {
			x.Check(!bytes.Contains(ct, b), "%s appears in the file", what)
			x.Check(!bytes.Contains(ct, b[:8]), "a part of %s appears in the file", what)
			x.Check(!bytes.Contains(ct, b[len(b)-8:]), "a part of %s appears in the file", what)
		}
	}
	for o := 0; o+8 <= len(pt); o += 8 {
		secret("the plaintext", pt[o:o+8])
	}
	for i := range p.Keys {
		secret("a key", p.Keys[i])
		secret("a passphrase", []byte(cryptPasses[i]))
	}
	secret("the master key", p.Master)
	x.Outcome(fmt.Sprint(c.N, len(ct)))
	x.State(fmt.Sprint(c.N, len(ct)))
}

func cryptOld(x *core.X, c RTCase) {
	f := ref.File{Pass: cryptPasses[0], Payload: payload(c.Len)}
	for i := 0; i < c.N; i++ {
		f.Users = append(f.Users, ref.FileUser{Name: cryptNames[i], Pass: cryptPasses[i]})
	}
	openAll2(x, c.N, f.Encode(ref.StubKDF), f.Payload)
	x.Outcome(fmt.Sprint(c.N))
}

// FreshCase: a call which draws randomness; Fail: after how many bytes the source fails (-1 never).
type FreshCase struct {
	Call string `json:"call"`
	Fail int    `json:"fail"`
}

// countReader is a never repeating source; it records what it gave.
type countReader struct {
	mu    sync.Mutex
	n     int
	given []byte
	fail  int
}

func (r *countReader) Read(b []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.fail >= 0 && len(r.given)+len(b) > r.fail {
		k := r.fail - len(r.given)
		if k <= 0 {
			return 0, errors.New("no randomness")
		}
		b = b[:k]
	}
	r.n++
	copy(b, ref.Fill(fmt.Sprint("rand", r.n), len(b)))
	r.given = append(r.given, b...)
	return len(b), nil
}

var freshSize = map[string][]int{"derive": {32}, "master": {80, 40}, "mkey": {40}, "encrypt": {40}}

func freshCall(call string) ([][]byte, error) {
	key, salt := ref.Fill("k", 80), ref.Fill("s", 32)
	switch call {
	case "derive":
		_, s, err := crypt.DeriveKey(1, []byte("pw"))
		return [][]byte{s}, err
	case "master":
		m, iv, err := crypt.NewMasterKey(1)
		return [][]byte{m, iv}, err
	case "mkey":
		mk, iv, err := crypt.EncryptMasterKey(1, key, ref.Fill("m", 80))
		if err == nil && !bytes.Equal(ref.UnwrapMaster(key, iv, mk), ref.Fill("m", 80)) {
			return nil, errors.New("wrapped master key does not unwrap")
		}
		return [][]byte{iv}, err
	default:
		ct, err := crypt.Encrypt(1, &crypt.Params{Keys: [][]byte{key}, Salts: [][]byte{salt}}, []byte("data"))
		if err != nil {
			return nil, err
		}
		return [][]byte{ct[48:88]}, nil
	}
}

func cryptFresh(x *core.X, c FreshCase) {
	total := 0
	for _, n := range freshSize[c.Call] {
		total += n
	}
	if c.Fail >= 0 {
		// the runtime may end the process when randomness fails: run in a child
		cmd := exec.Command(os.Args[0], "fresh-child", c.Call, fmt.Sprint(c.Fail))
		var out bytes.Buffer
		cmd.Stdout = &out
		cmd.Stderr = io.Discard
		err := cmd.Run()
		x.Step()
		if c.Fail >= total {
			x.Check(err == nil && strings.HasPrefix(out.String(), "ok"), "%s fails although %d random bytes are available: %v %s", c.Call, c.Fail, err, out.String())
			return
		}
		x.Check(err != nil || strings.HasPrefix(out.String(), "error"), "%s succeeds although the source fails after %d bytes (needs %d)", c.Call, c.Fail, total)
		x.Outcome(out.String())
		return
	}
	old := rand.Reader
	defer func() { rand.Reader = old }()
	r := &countReader{fail: -1}
	rand.Reader = r
	for i := 0; i < 3; i++ {
		from := len(r.given)
		vals, err := freshCall(c.Call)
		x.Step()
		x.Check(err == nil, "%s: %v", c.Call, err)
		drawn := r.given[from:]
		for j, v := range vals {
			x.Check(len(v) == freshSize[c.Call][j], "%s: value %d has %d bytes", c.Call, j, len(v))
			at := bytes.Index(drawn, v)
			x.Check(at >= 0, "%s: value %d is not made of fresh random bytes", c.Call, j)
			// no byte serves twice
			for k := at; k < at+len(v); k++ {
				drawn[k] = 0
			}
		}
	}
}

// FreshChild is run in a subprocess.
func FreshChild(call, fail string) {
	n := 0
	fmt.Sscan(fail, &n)
	rand.Reader = &countReader{fail: n}
	_, err := freshCall(call)
	if err != nil {
		fmt.Println("error")
		return
	}
	fmt.Println("ok")
}

func cryptReal(x *core.X, what string) {
	bin := os.Getenv("MC_REALCRYPT")
	cmd := exec.Command(bin, what, os.Getenv("MC_VERIF")+"/mc/testdata")
	out, err := cmd.CombinedOutput()
	x.Step()
	if cmd.ProcessState == nil {
		core.Harness("%s: %v", bin, err)
	}
	x.Check(err == nil, "with the real scrypt: %s: %s", what, out)
	x.Outcome(string(out))
}

func unesc(h string) string {
	b := make([]byte, len(h)/2)
	for i := range b {
		fmt.Sscanf(h[2*i:2*i+2], "%02x", &b[i])
	}
	return string(b)
}
