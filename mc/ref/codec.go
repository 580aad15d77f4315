package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/enceve/crypto/camellia"
	"golang.org/x/crypto/cast5"
)

// Sizes of the documented file format (version 1).
const (
	MagicLen = 16
	SaltSize = 32
	KeySize  = 32 + 32 + 16
	IVSize   = 16 + 16 + 8
	UserSize = 32 + SaltSize + IVSize + KeySize
)

// KDF derives a key from a passphrase and a salt.
type KDF func(pass, salt []byte) []byte

// StubKDF is what the stand-in scrypt gives for the documented cost.
func StubKDF(pass, salt []byte) []byte {
	var out []byte
	for i := 0; len(out) < KeySize; i++ {
		mac := hmac.New(sha256.New, pass)
		fmt.Fprintf(mac, "stub-scrypt %d %d %d %d %d|", 524288, 8, 1, KeySize, len(salt))
		mac.Write(salt)
		var n [8]byte
		binary.BigEndian.PutUint64(n[:], uint64(i))
		mac.Write(n[:])
		out = append(out, mac.Sum(nil)...)
	}
	return out[:KeySize]
}

func blocks(key []byte) []cipher.Block {
	a, err := aes.NewCipher(key[:32])
	if err != nil {
		panic(err)
	}
	b, err := camellia.NewCipher(key[32:64])
	if err != nil {
		panic(err)
	}
	c, err := cast5.NewCipher(key[64:80])
	if err != nil {
		panic(err)
	}
	return []cipher.Block{a, b, c}
}

func cbcEnc(c cipher.Block, iv, data []byte) []byte {
	bs := c.BlockSize()
	out := make([]byte, len(data))
	prev := iv
	for o := 0; o < len(data); o += bs {
		x := make([]byte, bs)
		for i := range x {
			x[i] = data[o+i] ^ prev[i]
		}
		c.Encrypt(out[o:o+bs], x)
		prev = out[o : o+bs]
	}
	return out
}

func cbcDec(c cipher.Block, iv, data []byte) []byte {
	bs := c.BlockSize()
	out := make([]byte, len(data))
	prev := iv
	for o := 0; o < len(data); o += bs {
		c.Decrypt(out[o:o+bs], data[o:o+bs])
		for i := 0; i < bs; i++ {
			out[o+i] ^= prev[i]
		}
		prev = data[o : o+bs]
	}
	return out
}

func pad(b []byte, k int) []byte {
	n := k - len(b)%k
	return append(append([]byte{}, b...), bytes.Repeat([]byte{byte(n)}, n)...)
}

func unpad(b []byte) ([]byte, error) {
	if len(b) == 0 {
		return nil, errors.New("empty")
	}
	n := int(b[len(b)-1])
	if n == 0 || n > len(b) {
		return nil, errors.New("bad padding")
	}
	for _, c := range b[len(b)-n:] {
		if int(c) != n {
			return nil, errors.New("bad padding")
		}
	}
	return b[:len(b)-n], nil
}

// Cascade encrypts from stage on (0 AES, 1 Camellia, 2 CAST5); data must already be padded for that
// stage, later stages are padded here.
func Cascade(key, iv, data []byte, stage int) []byte {
	offs := []int{0, 16, 32, 40}
	bl := blocks(key)
	for i := stage; i < 3; i++ {
		if i > stage {
			data = pad(data, bl[i].BlockSize())
		}
		data = cbcEnc(bl[i], iv[offs[i]:offs[i+1]], data)
	}
	return data
}

// Uncascade reverses Cascade with padding.
func Uncascade(key, iv, data []byte) ([]byte, error) {
	offs := []int{0, 16, 32, 40}
	bl := blocks(key)
	for i := 2; i >= 0; i-- {
		if len(data)%bl[i].BlockSize() != 0 {
			return nil, errors.New("not a multiple of the block size")
		}
		var err error
		if data, err = unpad(cbcDec(bl[i], iv[offs[i]:offs[i+1]], data)); err != nil {
			return nil, err
		}
	}
	return data, nil
}

// WrapMaster encrypts a master key (no padding).
func WrapMaster(key, iv, master []byte) []byte {
	offs := []int{0, 16, 32, 40}
	d := master
	for i, b := range blocks(key) {
		d = cbcEnc(b, iv[offs[i]:offs[i+1]], d)
	}
	return d
}

// UnwrapMaster decrypts a master key.
func UnwrapMaster(key, iv, mkey []byte) []byte {
	offs := []int{0, 16, 32, 40}
	bl := blocks(key)
	d := mkey
	for i := 2; i >= 0; i-- {
		d = cbcDec(bl[i], iv[offs[i]:offs[i+1]], d)
	}
	return d
}

// FileUser is a user of a multi-user file.
type FileUser struct {
	Name, Pass string
	Salt, IV   []byte
}

// File describes a file to be written.
type File struct {
	Users     []FileUser // nil: single user
	Pass      string
	Salt, IV  []byte // single user
	Master    []byte
	IVM       []byte
	Payload   []byte
	Version   string // "0001"
	StageData []byte // if set: what stage Stage encrypts, instead of hash and payload
	Stage     int
}

// Fill returns n bytes determined by the label.
func Fill(label string, n int) []byte {
	out := []byte{}
	for i := 0; len(out) < n; i++ {
		s := sha512.Sum512([]byte(fmt.Sprintf("%s/%d", label, i)))
		out = append(out, s[:]...)
	}
	return out[:n]
}

// Encode writes the file.
func (f File) Encode(kdf KDF) []byte {
	v := f.Version
	if v == "" {
		v = "0001"
	}
	var h, key, iv []byte
	if f.Users == nil {
		h = append(h, fmt.Sprintf("blobpass%s0000", v)...)
		salt := f.Salt
		if salt == nil {
			salt = Fill("salt"+f.Pass, SaltSize)
		}
		iv = f.IV
		if iv == nil {
			iv = Fill("iv"+f.Pass, IVSize)
		}
		h = append(append(h, salt...), iv...)
		key = kdf([]byte(f.Pass), salt)
	} else {
		h = append(h, fmt.Sprintf("blobpass%s%04d", v, len(f.Users))...)
		key = f.Master
		if key == nil {
			key = Fill("master", KeySize)
		}
		for _, u := range f.Users {
			n := sha256.Sum256([]byte(u.Name))
			salt, uiv := u.Salt, u.IV
			if salt == nil {
				salt = Fill("salt"+u.Name+"/"+u.Pass, SaltSize)
			}
			if uiv == nil {
				uiv = Fill("iv"+u.Name, IVSize)
			}
			h = append(append(append(append(h, n[:]...), salt...), uiv...), WrapMaster(kdf([]byte(u.Pass), salt), uiv, key)...)
		}
		iv = f.IVM
		if iv == nil {
			iv = Fill("ivm", IVSize)
		}
		h = append(h, iv...)
	}
	if f.StageData != nil {
		return append(h, Cascade(key, iv, f.StageData, f.Stage)...)
	}
	s := sha512.New()
	s.Write(h)
	s.Write(f.Payload)
	work := pad(append(s.Sum(nil), f.Payload...), 16)
	return append(h, Cascade(key, iv, work, 0)...)
}

// Decoded is a file read by the reference implementation.
type Decoded struct {
	Multi   bool
	NUsers  int
	User    int // index of the user used
	Names   [][]byte
	Salts   [][]byte
	IVs     [][]byte
	MKeys   [][]byte
	Key     []byte // of the user
	Master  []byte
	IVM     []byte
	Payload []byte
}

// Header parses the unencrypted part.
func Header(b []byte) (*Decoded, int, error) {
	if len(b) < MagicLen || string(b[:12]) != "blobpass0001" {
		return nil, 0, errors.New("not a version 1 file")
	}
	n := 0
	for _, c := range b[12:16] {
		if c < '0' || c > '9' {
			return nil, 0, errors.New("bad user count")
		}
		n = n*10 + int(c-'0')
	}
	d := &Decoded{Multi: n > 0, NUsers: n}
	o := MagicLen
	take := func(k int) []byte { r := b[o : o+k]; o += k; return r }
	if n == 0 {
		if len(b) < o+SaltSize+IVSize {
			return nil, 0, errors.New("short")
		}
		d.Salts = [][]byte{take(SaltSize)}
		d.IVs = [][]byte{take(IVSize)}
		return d, o, nil
	}
	if len(b) < o+n*UserSize+IVSize {
		return nil, 0, errors.New("short")
	}
	for i := 0; i < n; i++ {
		d.Names = append(d.Names, take(32))
		d.Salts = append(d.Salts, take(SaltSize))
		d.IVs = append(d.IVs, take(IVSize))
		d.MKeys = append(d.MKeys, take(KeySize))
	}
	d.IVM = take(IVSize)
	return d, o, nil
}

// Decode reads a file with credentials.
func Decode(b []byte, user, pass string, kdf KDF) (*Decoded, error) {
	d, o, err := Header(b)
	if err != nil {
		return nil, err
	}
	var key, iv []byte
	if !d.Multi {
		d.Key = kdf([]byte(pass), d.Salts[0])
		key, iv = d.Key, d.IVs[0]
	} else {
		h := sha256.Sum256([]byte(user))
		d.User = -1
		for i, n := range d.Names {
			if bytes.Equal(n, h[:]) {
				d.User = i
				break
			}
		}
		if d.User < 0 {
			return nil, errors.New("unknown user")
		}
		d.Key = kdf([]byte(pass), d.Salts[d.User])
		d.Master = UnwrapMaster(d.Key, d.IVs[d.User], d.MKeys[d.User])
		key, iv = d.Master, d.IVM
	}
	w, err := Uncascade(key, iv, b[o:])
	if err != nil {
		return nil, err
	}
	if len(w) < sha512.Size {
		return nil, errors.New("short payload")
	}
	s := sha512.New()
	s.Write(b[:o])
	s.Write(w[sha512.Size:])
	if !bytes.Equal(s.Sum(nil), w[:sha512.Size]) {
		return nil, errors.New("checksum mismatch")
	}
	d.Payload = w[sha512.Size:]
	return d, nil
}
