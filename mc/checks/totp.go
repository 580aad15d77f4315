package checks

import (
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base32"
	"encoding/binary"
	"fmt"
	"hash"
	"net/url"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"bpassmc/core"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/txlogs"
)

// withClock runs f under a virtual clock that starts at 2000-01-01 and moves only by sleeping.
func withClock(x *core.X, f func()) {
	if ClockT == nil {
		core.Harness("no virtual clock")
	}
	var p any
	synctest.Test(ClockT, func(t *testing.T) {
		defer func() { p = recover() }()
		f()
	})
	if p != nil {
		panic(p)
	}
}

// ClockT is the test that main runs C17 in (the virtual clock needs one).
var ClockT *testing.T

// refTOTP is RFC 6238 written from the RFC.
func refTOTP(secret []byte, alg string, digits int, period int64, unix int64) string {
	var h func() hash.Hash
	switch strings.ToUpper(alg) {
	case "", "SHA1":
		h = sha1.New
	case "SHA256":
		h = sha256.New
	case "SHA512":
		h = sha512.New
	}
	m := hmac.New(h, secret)
	var c [8]byte
	binary.BigEndian.PutUint64(c[:], uint64(unix/period))
	m.Write(c[:])
	sum := m.Sum(nil)
	o := int(sum[len(sum)-1] & 15)
	v := binary.BigEndian.Uint32(sum[o:o+4]) & 0x7fffffff
	s := fmt.Sprintf("%010d", v)
	return s[len(s)-digits:]
}

// TOTPCase: a secret (bytes) offered as URI or bare key, and the moments to look at.
type TOTPCase struct {
	Secret  []byte  `json:"secret"`
	Form    string  `json:"form"` // bare, lower, padded, uri
	Digits  int     `json:"digits,omitempty"`
	Period  int64   `json:"period,omitempty"`
	Alg     string  `json:"alg,omitempty"`
	Issuer  string  `json:"issuer,omitempty"`
	Moments []int64 `json:"moments"` // nanoseconds since 1970, ascending
}

func (c TOTPCase) text() string {
	s := base32.StdEncoding.WithPadding(base32.NoPadding).EncodeToString(c.Secret)
	switch c.Form {
	case "bare":
		return s
	case "lower":
		return strings.ToLower(s)
	case "padded":
		return base32.StdEncoding.EncodeToString(c.Secret)
	}
	v := url.Values{}
	v.Set("secret", s)
	if c.Digits != 0 {
		v.Set("digits", fmt.Sprint(c.Digits))
	}
	if c.Period != 0 {
		v.Set("period", fmt.Sprint(c.Period))
	}
	if c.Alg != "" {
		v.Set("algorithm", c.Alg)
	}
	if c.Issuer != "" {
		v.Set("issuer", c.Issuer)
	}
	return "otpauth://totp/" + url.PathEscape(c.Issuer+":me@example.com") + "?" + v.Encode()
}

func runTOTP(x *core.X, c TOTPCase) {
	withClock(x, func() {
		b := blobformat.Blobs{DB: new(txlogs.DB)}
		id, err := b.New("e")
		x.Check(err == nil, "new: %v", err)
		blob, err := b.MustFind(id)
		x.Check(err == nil, "find: %v", err)
		code, err := blob.TwoFactor()
		x.Check(code == "" && err == nil, "an entry without secret gives %q, %v", code, err)
		err = b.SetTwofactor(id, c.text())
		x.Check(err == nil, "%q refused: %v", c.text(), err)
		blob, err = b.MustFind(id)
		x.Check(err == nil, "find: %v", err)
		digits, period := c.Digits, c.Period
		if digits == 0 {
			digits = 6
		}
		if period == 0 {
			period = 30
		}
		for _, m := range c.Moments {
			now := time.Now().UnixNano()
			if m < now {
				continue
			}
			time.Sleep(time.Duration(m - now))
			now = time.Now().UnixNano()
			x.Check(now == m, "clock at %d want %d", now, m)
			code, err := blob.TwoFactor()
			want := refTOTP(c.Secret, c.Alg, digits, period, m/1e9)
			x.Check(err == nil && code == want, "at %d.%09d: code %q, %v; want %q for %s", m/1e9, m%1e9, code, err, want, c.text())
			x.Step()
			if want[0] == '0' {
				x.Outcome("leading zero")
			}
			x.State(code)
		}
	})
}

// AcceptCase: a text offered as two-factor secret, or found in the file.  Want: "ok", "refuse" or
// "" (either, but consistently).
type AcceptCase struct {
	Text   string `json:"text"`
	Want   string `json:"want"`
	Stored bool   `json:"stored,omitempty"`
}

func runAccept(x *core.X, c AcceptCase) {
	b := blobformat.Blobs{DB: new(txlogs.DB)}
	id, err := b.New("the-entry")
	x.Check(err == nil, "new: %v", err)
	if c.Stored { // damaged content of the file
		b.DB.Set(id, "totp", c.Text)
		blob, err := b.MustFind(id)
		x.Check(err == nil, "find: %v", err)
		code, err := blob.TwoFactor()
		if c.Text == "" {
			x.Check(err == nil && code == "", "empty field: %q, %v", code, err)
			return
		}
		if c.Want == "refuse" {
			x.Check(err != nil && code == "", "%q gives the code %q, %v", c.Text, code, err)
		}
		if c.Want == "ok" {
			x.Check(err == nil && code != "", "%q gives %q, %v", c.Text, code, err)
		}
		if err != nil {
			x.Check(strings.Contains(err.Error(), "the-entry"), "error does not name the entry: %v", err)
			x.Outcome("error")
		}
		x.Step()
		return
	}
	n := len(b.DB.Log)
	err = b.SetTwofactor(id, c.Text)
	blob, ferr := b.MustFind(id)
	x.Check(ferr == nil, "find: %v", ferr)
	code, cerr := blob.TwoFactor()
	x.Step()
	if err != nil {
		x.Check(c.Want != "ok", "%q refused: %v", c.Text, err)
		x.Check(len(b.DB.Log) == n, "%q was refused but changed the log", c.Text)
		x.Check(code == "" && cerr == nil, "%q was refused but %q, %v", c.Text, code, cerr)
		x.Outcome("refused")
		return
	}
	x.Check(c.Want != "refuse", "%q was accepted", c.Text)
	x.Check(cerr == nil && len(code) >= 6, "%q was accepted but gives %q, %v", c.Text, code, cerr)
	x.Outcome("accepted")
}

func init() {
	codes := core.NewFamily("C17", "codes", runTOTP)
	codes.Serial = true
	accept := core.NewFamily("C17", "accept", runAccept)
	core.Register(&core.Check{
		ID: "C17", Level: "model_checking",
		Rule:        "one execution stores a secret and walks a virtual clock through a list of moments, comparing every code with an independent RFC 6238 computation; or offers (or finds in the file) a secret and requires that it is accepted exactly if codes can be produced",
		Assumptions: []string{"time is virtual (testing/synctest), from 2000 to 2262", "the hash functions of the standard library are trusted"},
		Run: func(ctx *core.Ctx) {
			secrets := [][]byte{[]byte("12345678901234567890"), []byte("Hello!\xde\xad\xbe\xef"), {0}, []byte("12345678901234567890123456789012"), {255, 254, 253, 252, 251, 250, 0}}
			// every moment around each window boundary, the RFC's own moments, and long strides
			moments := func(period int64) (m []int64) {
				seen := map[int64]bool{}
				add := func(ns int64) {
					if !seen[ns] && ns > 946684800e9 {
						seen[ns] = true
						m = append(m, ns)
					}
				}
				for _, base := range []int64{946684800, 1111111109, 1111111111, 1234567890, 2000000000, 4102444799, 2147483647, 4294967295, 9000000000} {
					w := base / period * period
					for k := int64(-1); k <= int64(ctx.Pick(2, 20)); k++ {
						for _, d := range []int64{-1e9, -1, 0, 1, 5e8, 1e9 - 1, 1e9} {
							add((w+k*period)*1e9 + d)
						}
					}
					add(base * 1e9)
				}
				for i := int64(0); i < int64(ctx.Pick(300, 3000)); i++ { // leading zeros among them
					add((1700000000 + i*period) * 1e9)
				}
				sort.Slice(m, func(i, j int) bool { return m[i] < m[j] })
				return m
			}
			codes.Explore(ctx, "secrets x form x digits {default,6,7,8} x period {default,1,15,30,60,86400} x algorithm {default,SHA1,SHA256,SHA512, lower case} x moments around window boundaries 2000-2255", func(y func(TOTPCase) bool) {
				for _, s := range secrets {
					for _, f := range []string{"bare", "lower", "padded"} {
						if !y(TOTPCase{Secret: s, Form: f, Moments: moments(30)}) {
							return
						}
					}
					for _, d := range []int{0, 6, 7, 8} {
						for _, p := range []int64{0, 1, 15, 30, 60, 86400} {
							for _, a := range []string{"", "SHA1", "SHA256", "SHA512", "sha256"} {
								for _, is := range []string{"", "A co/1"} {
									pp := p
									if pp == 0 {
										pp = 30
									}
									if !y(TOTPCase{Secret: s, Form: "uri", Digits: d, Period: p, Alg: a, Issuer: is, Moments: moments(pp)}) {
										return
									}
								}
							}
						}
					}
				}
			})
			b32 := "JBSWY3DPEHPK3PXP"
			var cs []AcceptCase
			add := func(want string, texts ...string) {
				for _, t := range texts {
					cs = append(cs, AcceptCase{Text: t, Want: want})
					if strings.HasPrefix(t, "otpauth://") {
						cs = append(cs, AcceptCase{Text: t, Want: want, Stored: true})
					}
				}
			}
			u := "otpauth://totp/x?secret="
			add("ok", b32, strings.ToLower(b32), u+b32, u+b32+"&digits=8", u+b32+"&period=60", u+b32+"&algorithm=SHA1", u+b32+"&issuer=x&foo=bar", "otpauth://totp/a%3Ab?secret="+b32, u+"MZXW6", u+"MZXW6===", "MZXW6===", u+b32+"&digits=6&period=30&algorithm=SHA512")
			add("refuse", "", "otpauth://hotp/x?secret="+b32+"&counter=1", "otpauth:///x?secret="+b32, "otpauth://totp/x", u, u+"&digits=6", u+"1", "1", "0189", "JBSW-Y3DP", "http://totp/x?secret="+b32, "otpauth://totp/x?digits=6", u+b32+"1", "ABC", u+"A",
				u+b32+"&digits=0", u+b32+"&digits=-6", u+b32+"&digits=six", u+b32+"&period=0", u+b32+"&period=-30", u+b32+"&period=x", u+b32+"&algorithm=CRC32", "otpauth://totp\x7f/x?secret="+b32, "otpauth://%zz?secret="+b32, u+b32+"&digits=30", u+b32+"&period=99999999999999999999999")
			add("refuse", b32+"&digits=8", b32+"&period=60", b32+"&algorithm=SHA256", b32+"&x=y", b32+"#x", b32+"#", b32+"%20", b32+";x", b32+"+", b32+"?", b32+"/", b32+"%3D", "JB%53WY3DPEHPK3PXP", "%4A"+b32[1:], "&secret="+b32, "secret="+b32, "x&secret="+b32, b32+"\x00", b32+"&")
			add("", " "+b32, b32+" ", u+" "+b32, "JBSW Y3DP", u+b32+"&digits=9", u+b32+"&digits=10", u+b32+"&digits=1", u+b32+"&digits=5", u+b32+"&algorithm=MD5", "OTPAUTH://totp/x?secret="+b32, "otpauth://TOTP/x?secret="+b32, u+b32+"&period=1.5", u+b32+";digits=8", u+b32+"&digits= 8", "JBSW\nY3DP", "JB", "JBSWY3D", "ſ", "é", "\xff\xfe", "otpauth://totp", "otpauth://totp?secret="+b32, "otpauth://totp/x?secret="+b32+"&secret=1", "otpauth://totp/x?SECRET="+b32, u+b32+"#frag", "%", "a&b=c", u+b32+"&period=4294967296", u+b32+"&period=4294967295")
			for _, t := range []string{"", "x", "\x7f", "://", b32, "http://totp/", "%zz"} {
				w := "refuse"
				if t == "" {
					w = ""
				}
				cs = append(cs, AcceptCase{Text: t, Want: w, Stored: true})
			}
			n := ctx.Pick(3, 4)
			accept.Explore(ctx, fmt.Sprintf("%d chosen texts, offered and found in the file; all texts up to length %d over {A,a,7,1,=,space,&} offered as bare key and as URI secret", len(cs), n), func(y func(AcceptCase) bool) {
				for _, c := range cs {
					if !y(c) {
						return
					}
				}
				for _, s := range strs([]string{"A", "a", "7", "1", "=", " ", "&"}, n) {
					for _, c := range []AcceptCase{{Text: s}, {Text: u + s}, {Text: "AAAAAAAA" + s}} {
						if !y(c) {
							return
						}
					}
				}
			})
			shellTotp(ctx)
		},
	})
}
