From fdd0bed02302ea2e2e7d05e7530338aa124423de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 01/61] fix: txlogs Begin panics when a transaction is already
 active, as documented

---
 txlogs/txlogs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 8e4b0db..655144e 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -143,6 +143,10 @@ func (s *DB) appendLog(tx Tx) {
 // We add 1 to the length to keep the 0 valid as a "no transaction started"
 // sentinel value.
 func (s *DB) Begin() {
+	if s.txPoint != 0 {
+		panic("begin called while a transaction is active")
+	}
+
 	s.txPoint = len(s.Log) + 1
 }
 
-- 
2.43.0


From 67d8d6ee938011eb95b72421002c173eb4fa3d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 02/61] fix: txlogs Rollback drops a snapshot that includes the
 first rolled back change

---
 txlogs/txlogs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 655144e..29266fa 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -164,7 +164,7 @@ func (s *DB) Rollback() {
 		panic("rollback called before begin")
 	}
 
-	if s.Version > uint(s.txPoint) {
+	if s.Version > uint(s.txPoint-1) {
 		s.ResetSnapshot()
 	}
 
-- 
2.43.0


From dc899709219611b2fdb9490cacc0d66b65d7a2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 03/61] fix: txlogs history queries return an error for
 negative versions

---
 txlogs/txlogs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 29266fa..9aa26f4 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -235,7 +235,7 @@ func (s *DB) UpdateSnapshot() error {
 // SnapshotAt creates a new snapshot of a particular entry versionsAgo
 // in the past.
 func (s *DB) SnapshotAt(versionsAgo int) (map[string]Entry, error) {
-	if versionsAgo > len(s.Log) {
+	if versionsAgo < 0 || versionsAgo > len(s.Log) {
 		return nil, errors.New("there are not that many versions")
 	}
 
@@ -254,7 +254,7 @@ func (s *DB) SnapshotAt(versionsAgo int) (map[string]Entry, error) {
 // in the past. If history past the existence of the entry is requested
 // a KeyNotFound error may be present.
 func (s *DB) EntrySnapshotAt(uuid string, versionsAgo int) (Entry, error) {
-	if versionsAgo >= len(s.Log) {
+	if versionsAgo < 0 || versionsAgo >= len(s.Log) {
 		return nil, errors.New("there are not that many versions")
 	}
 
-- 
2.43.0


From 224848be0250646c7140adc5daa79afecfd17ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 04/61] fix: txlogs NewLog does not crash on a null document

---
 txlogs/txlogs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 9aa26f4..f8a85ca 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -63,7 +63,7 @@ func New(data []byte) (*DB, error) {
 // NewLog parses the same data as New() but only returns the log
 func NewLog(data []byte) ([]Tx, error) {
 	s := new(storeNoSnapshot)
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(data, s); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From fb4fb6b37d3ae54d156be87bdd110b03129a83fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 05/61] fix: sync and Merge treat only identical logs as
 unchanged

Comparing the length and the first and last time lost the changes of forks
that agree in those, and paniced for empty logs.
---
 sync.go          |  4 +---
 txlogs/txlogs.go | 26 ++++++++++++++++++--------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/sync.go b/sync.go
index 706fd9b..0dc797f 100644
--- a/sync.go
+++ b/sync.go
@@ -116,9 +116,7 @@ Syncs:
 			continue
 		}
 
-		if len(log) == len(u.store.DB.Log) &&
-			log[0].Time == u.store.DB.Log[0].Time &&
-			log[len(log)-1].Time == u.store.DB.Log[len(u.store.DB.Log)-1].Time {
+		if txlogs.SameLog(log, u.store.DB.Log) {
 			infoColor.Printf("skip: %s (no changes)\n", name)
 			syncs[i] = ""
 			continue
diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index f8a85ca..e087095 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -313,11 +313,26 @@ func (s *DB) LastUpdated(uuid string) (last int64) {
 	return last
 }
 
+// SameLog checks if two logs consist of the same list of transactions.
+func SameLog(a, b []Tx) bool {
+	if len(a) != len(b) {
+		return false
+	}
+
+	for i := range a {
+		if a[i] != b[i] {
+			return false
+		}
+	}
+
+	return true
+}
+
 // Merge logs together. The standard case for merging is that the logs proceed
 // in order with the same uuids.
 //
-// There is a no-fork fast-path in which a is returned if lengths are the same
-// and they start and end with the same transaction ids.
+// There is a no-fork fast-path in which a is returned if the logs are the
+// same, see SameLog.
 //
 // When a fork occurs the logs need to be reconciled. The reconciliation is
 // done by accepting each change in order deterministically, it sorts first
@@ -340,13 +355,8 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 	lena := len(a)
 	lenb := len(b)
 
-	if lena == lenb &&
-		a[0].Time == b[0].Time && a[lena-1].Time == b[lenb-1].Time {
+	if SameLog(a, b) {
 		// These are the same list of events
-		// There can be no possible fork that has happened if they
-		// 1. Are not of differing length
-		// 2. Start at the unique ID
-		// 3. End at the unique ID
 		return a, nil
 	}
 
-- 
2.43.0


From 67b4b6c71846a5cb2a0ed4e548dbba5ecd496039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 06/61] fix: txlogs Merge keeps different transactions with the
 same time

The later one was dropped. They are ordered by uuid now, as documented.
---
 txlogs/txlogs.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index e087095..b9f87b1 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -444,7 +444,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		}
 
 		// If ids are the same, append and move on, haven't reached fork
-		if a[i].Time == b[j].Time {
+		if a[i] == b[j] {
 			if a[i].Kind == TxDelete {
 				deleted[a[i].UUID] = i
 			}
@@ -472,7 +472,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		}
 
 		// Compare the txs
-		if a[i].Time < b[j].Time {
+		if txLess(a[i], b[j]) {
 			c = append(c, a[i])
 			i++
 		} else {
@@ -500,6 +500,23 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 	return c, nil
 }
 
+// txLess orders transactions by time, then by uuid, and then by the remaining
+// fields such that there's only one order for differing transactions.
+func txLess(a, b Tx) bool {
+	switch {
+	case a.Time != b.Time:
+		return a.Time < b.Time
+	case a.UUID != b.UUID:
+		return a.UUID < b.UUID
+	case a.Kind != b.Kind:
+		return a.Kind < b.Kind
+	case a.Key != b.Key:
+		return a.Key < b.Key
+	default:
+		return a.Value < b.Value
+	}
+}
+
 // applyTx applies the src transactions to the destination snapshot
 func applyTx(dst map[string]Entry, tx Tx) error {
 	switch tx.Kind {
-- 
2.43.0


From 102abb1f641b5c81b0a9b5a277677cc8ca05b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 07/61] fix: txlogs Merge records where a shared deletion is in
 the merged log

---
 txlogs/txlogs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index b9f87b1..6cd843f 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -446,7 +446,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		// If ids are the same, append and move on, haven't reached fork
 		if a[i] == b[j] {
 			if a[i].Kind == TxDelete {
-				deleted[a[i].UUID] = i
+				deleted[a[i].UUID] = len(c)
 			}
 
 			c = append(c, a[i])
-- 
2.43.0


From 0627a80527068e6cbed3555c260af19255dc786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 08/61] fix: txlogs Merge matches conflicts by transaction
 instead of by time

---
 txlogs/txlogs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 6cd843f..6852e6f 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -389,7 +389,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 			// Before we mark ourselves as deleted, make sure we aren't
 			// part of a resolution.
 			for _, res := range resolved {
-				if res.Initial.Time != c[last].Time {
+				if res.Initial != c[last] {
 					continue
 				}
 
@@ -410,7 +410,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		deleteTx := c[ind]
 		// Check if its resolved
 		for _, res := range resolved {
-			if res.Initial.Time == deleteTx.Time {
+			if res.Initial == deleteTx {
 				// Assert for the impossible, and delete ourselves off the end
 				// This is impossible because if it was resolved in the other
 				// way it should have been handled above.
@@ -424,7 +424,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 
 		// Make sure we haven't noted this one already first
 		for _, con := range conflicts {
-			if con.Initial.Time == deleteTx.Time {
+			if con.Initial == deleteTx {
 				return
 			}
 		}
-- 
2.43.0


From 6dcf9d816fc1c56cc7730c35a4e81a0c2be8fb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 09/61] fix: pkcs7 Unpad refuses a padding of zero bytes

---
 pkcs7/pad.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkcs7/pad.go b/pkcs7/pad.go
index cba5a65..0efe5fe 100644
--- a/pkcs7/pad.go
+++ b/pkcs7/pad.go
@@ -63,6 +63,9 @@ func Unpad(b []byte) ([]byte, error) {
 
 	padBytes := b[len(b)-1]
 
+	if padBytes == 0 {
+		return nil, errPaddingInvalid
+	}
 	if int(padBytes) > len(b) {
 		return nil, errPaddingAmountImpossible
 	}
-- 
2.43.0


From 104a04b77c0e66f115ee79a96490ce9fc1432226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 10/61] fix: fuzzy matches characters whose cases differ in
 encoded length

The number of bytes says nothing about the number of characters.
---
 fuzzy/fuzzy.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/fuzzy/fuzzy.go b/fuzzy/fuzzy.go
index e58ab6f..efff7b5 100644
--- a/fuzzy/fuzzy.go
+++ b/fuzzy/fuzzy.go
@@ -13,16 +13,6 @@ import (
 // Lowercase letters match both upper and lowercase letters, where uppercase
 // matches only uppercase letters.
 func Match(s string, search string) bool {
-	slen := len(s)
-	searchLen := len(search)
-
-	if searchLen > slen {
-		return false
-	}
-	if searchLen == slen && s == search {
-		return true
-	}
-
 	// Use for range to get the unicode semantics
 Search:
 	for _, searchChar := range search {
-- 
2.43.0


From 94873a93a571b3ac68b6e6c6c19f3e865157ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 11/61] fix: fuzzy does not crash on malformed text

---
 fuzzy/fuzzy.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fuzzy/fuzzy.go b/fuzzy/fuzzy.go
index efff7b5..def2b93 100644
--- a/fuzzy/fuzzy.go
+++ b/fuzzy/fuzzy.go
@@ -18,7 +18,10 @@ Search:
 	for _, searchChar := range search {
 		for i, char := range s {
 			if searchChar == char || searchChar == unicode.ToLower(char) {
-				s = s[utf8.RuneLen(char)+i:]
+				// The size can not be taken from char since it's
+				// utf8.RuneError for malformed bytes.
+				_, size := utf8.DecodeRuneInString(s[i:])
+				s = s[i+size:]
 				continue Search
 			}
 		}
-- 
2.43.0


From fa7e0d6f5d10ef7055690883408bec38ec37e894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 12/61] fix: crypt refuses short files and negative user counts
 instead of crashing

---
 crypt/crypto.go    |  8 ++++++--
 crypt/crypto_v1.go | 10 +++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/crypt/crypto.go b/crypt/crypto.go
index b9d11b3..871455e 100644
--- a/crypt/crypto.go
+++ b/crypt/crypto.go
@@ -183,7 +183,7 @@ func NewMasterKey(version int) (master, iv []byte, err error) {
 // will be returned. If the user was specified but was not found in the file
 // then ErrUnknownUser is returned.
 func Decrypt(user, passphrase, key, salt, encrypted []byte) (version int, p Params, pt []byte, err error) {
-	if bytes.Equal(v0Header, encrypted[:len(v0Header)]) {
+	if bytes.HasPrefix(encrypted, v0Header) {
 		pt, key, salt, err := decryptV0(passphrase, encrypted)
 		if err != nil {
 			return 0, p, nil, err
@@ -225,7 +225,7 @@ func IsMultiUser(encrypted []byte) (ok bool, err error) {
 
 	nUsersStr := string(encrypted[magicLen-4 : magicLen])
 	i, err := strconv.ParseInt(nUsersStr, 10, 32)
-	if err != nil {
+	if err != nil || i < 0 {
 		return false, ErrInvalidFileFormat
 	}
 
@@ -270,6 +270,10 @@ func getVersion(version int) (c config, err error) {
 
 // verifyMagic ensures the magic string is correct and decodes version
 func verifyMagic(in []byte) (version int, err error) {
+	if len(in) < magicLen {
+		return 0, ErrInvalidFileFormat
+	}
+
 	magicString := in[:magicLen/2]
 	in = in[magicLen/2:]
 	versionString := in[:magicLen/4]
diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index 1ccda10..dfe7184 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -210,11 +210,19 @@ func decryptV1(c config, user, passphrase, key, salt, encrypted []byte) (p Param
 
 	var nUsers int
 	i, err := strconv.ParseInt(string(nUserBytes), 10, 32)
-	if err != nil {
+	if err != nil || i < 0 {
 		return p, nil, ErrInvalidFileFormat
 	}
 
 	nUsers = int(i)
+	headerSize := magicLen + c.saltSize + c.blockSize
+	if nUsers != 0 {
+		headerSize = magicLen + (sha256.Size+c.saltSize+c.blockSize+c.keySize)*nUsers + c.blockSize
+	}
+	if len(encrypted) < headerSize {
+		return p, nil, ErrInvalidFileFormat
+	}
+
 	if nUsers != 0 && len(user) == 0 {
 		return p, nil, ErrNeedUser
 	}
-- 
2.43.0


From 61cae1ed94dc68c59a27471eaeca9ad87455f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 13/61] fix: crypt does not crash on damaged files or wrong
 passphrases

The unpadded data of a stage can have any length if the key is wrong.
---
 crypt/crypto_v1.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index dfe7184..026d59b 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -275,6 +275,9 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		ivOffset -= cipherBlockSize
 
 		// decrypt & discard padding
+		if len(ciphertext)%cipherBlockSize != 0 {
+			return p, nil, ErrWrongPassphrase
+		}
 		cbc.CryptBlocks(ciphertext, ciphertext)
 		ciphertext, err = pkcs7.Unpad(ciphertext)
 		if err != nil {
@@ -284,6 +287,10 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		}
 	}
 
+	if len(ciphertext) < sha512.Size {
+		return p, nil, ErrWrongPassphrase
+	}
+
 	origShaSum := ciphertext[:sha512.Size]
 	plaintext = ciphertext[sha512.Size:]
 
@@ -427,6 +434,9 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		ivOffset -= cipherBlockSize
 
 		// decrypt & discard padding
+		if len(ciphertext)%cipherBlockSize != 0 {
+			return p, nil, ErrWrongPassphrase
+		}
 		cbc.CryptBlocks(ciphertext, ciphertext)
 		ciphertext, err = pkcs7.Unpad(ciphertext)
 		if err != nil {
@@ -436,6 +446,10 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		}
 	}
 
+	if len(ciphertext) < sha512.Size {
+		return p, nil, ErrWrongPassphrase
+	}
+
 	userSize := sha256.Size + c.saltSize + c.blockSize + c.keySize
 	oldHash := ciphertext[:sha512.Size]
 	plaintext = ciphertext[sha512.Size:]
-- 
2.43.0


From dcbf70d040859a457921632f589f682b2969aa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 14/61] fix: crypt does not crash on unknown users

The made up user is the last one and has no place in the file.
---
 crypt/crypto_v1.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index 026d59b..35808eb 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -360,7 +360,7 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		p.Salts = append(p.Salts, make([]byte, c.saltSize))
 		p.IVs = append(p.IVs, make([]byte, c.blockSize))
 		p.MKeys = append(p.MKeys, make([]byte, c.keySize))
-		p.User = len(p.Keys) - 1
+		p.User = len(p.Salts) - 1
 		p.NUsers++
 
 		//return p, nil, ErrUnknownUser
@@ -455,7 +455,7 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 	plaintext = ciphertext[sha512.Size:]
 
 	newHash := sha512.New()
-	_, _ = newHash.Write(encrypted[:magicLen+(userSize*p.NUsers)+c.blockSize])
+	_, _ = newHash.Write(encrypted[:magicLen+(userSize*nUsers)+c.blockSize])
 	_, _ = newHash.Write(plaintext)
 	shaSum := newHash.Sum(nil)
 
-- 
2.43.0


From f2b7f6b69bf09ac4dd375b4c9f4fc4f134afbd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 15/61] fix: crypt Encrypt without master key asks for a full
 rekey as documented

---
 crypt/crypto_v1.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index 35808eb..e422900 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -102,6 +102,10 @@ func encryptV1Multi(c config, p *Params, plaintext []byte) (encrypted []byte, er
 		return nil, err
 	}
 
+	if p.Master == nil || p.IVM == nil {
+		return nil, ErrNeedFullRekey
+	}
+
 	userSize := sha256.Size + c.saltSize + c.blockSize + c.keySize
 	plaintextHeader := make([]byte,
 		magicLen+(userSize*p.NUsers)+c.blockSize,
-- 
2.43.0


From 8fab8ab5b145f453c47bad5bf718caa2320fbbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 16/61] fix: RenameDuplicates renames the entries with
 duplicate names

---
 blobformat/blobs.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index c821741..a04f693 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -44,35 +45,45 @@ type Blobs struct {
 type SearchResults map[string]string
 
 // RenameDuplicates renames names (KeyName) that collide.
-// Creates snapshots as it does so. Returns a list of renames that it did.
+// Creates snapshots as it does so. Returns the renames that it did, from the
+// new name to the old name since many entries may have shared the old name.
 func (b Blobs) RenameDuplicates() (map[string]string, error) {
 	if err := b.UpdateSnapshot(); err != nil {
 		return nil, err
 	}
 
+	uuids := make([]string, 0, len(b.Snapshot))
+	taken := make(map[string]struct{})
+	for uuid, entry := range b.Snapshot {
+		uuids = append(uuids, uuid)
+		taken[Blob(entry).Name()] = struct{}{}
+	}
+	sort.Strings(uuids)
+
 	names := make(map[string]struct{})
 	renames := make(map[string]string)
 
-	for uuid, entry := range b.Snapshot {
-		blob := Blob(entry)
-		name := blob.Name()
+	for _, uuid := range uuids {
+		oldName := Blob(b.Snapshot[uuid]).Name()
 
-		_, ok := names[name]
+		_, ok := names[oldName]
 		if !ok {
-			names[name] = struct{}{}
+			names[oldName] = struct{}{}
 			continue
 		}
 
-		oldName := name
+		newName := oldName
 		for ok {
-			name = name + "1"
-			_, ok = names[name]
+			newName = newName + "1"
+			_, ok = taken[newName]
 		}
+		taken[newName] = struct{}{}
 
-		renames[oldName] = name
+		renames[newName] = oldName
 
+		// Names can't be changed with Set
 		b.touchUpdated(uuid)
-		b.Set(uuid, KeyName, name)
+		b.DB.Set(uuid, KeyName, newName)
 	}
 
 	return renames, nil
-- 
2.43.0


From 86b26dd39d52266c2faa2a75081cd781bb55b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 17/61] fix: SearchLabels counts each wanted label once

---
 blobformat/blobs.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index a04f693..42331d4 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -167,12 +167,8 @@ func (b Blobs) SearchLabels(labels ...string) (entries SearchResults, err error)
 		found := 0
 		for _, want := range labels {
 			for _, have := range haveLabels {
-				if have != want {
-					continue
-				}
-
-				found++
-				if found == len(labels) {
+				if have == want {
+					found++
 					break
 				}
 			}
-- 
2.43.0


From 2de980a5632e2390668b3cfc481a8e85a81a29b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 18/61] fix: RemoveLabel removes only the chosen label

---
 blobformat/blobs.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 42331d4..a8a54f9 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -447,18 +447,19 @@ func (b Blobs) RemoveLabel(uuid string, index int) (err error) {
 		return err
 	}
 
-	labels := strings.Split(entry[KeyLabels], ",")
-	if index >= len(labels) {
+	labels := entry.Labels()
+	if index < 0 || index >= len(labels) {
 		return errors.New("index out of range")
 	}
 
 	if len(labels) == 1 {
+		b.touchUpdated(uuid)
 		b.DB.DeleteKey(uuid, KeyLabels)
 		return nil
 	}
 
 	copy(labels[index:], labels[index+1:])
-	labels = labels[len(labels)-1:]
+	labels = labels[:len(labels)-1]
 
 	b.touchUpdated(uuid)
 	b.DB.Set(uuid, KeyLabels, strings.Join(labels, ","))
-- 
2.43.0


From d9f78cbece1d05ecc5899fea7fd80bda41ee8936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 19/61] fix: DeleteKey refuses protected keys as documented

---
 blobformat/blobs.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index a8a54f9..ed2d140 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -376,11 +376,14 @@ func (b Blobs) Set(uuid, key, value string) error {
 	return nil
 }
 
-// DeleteKey from an entry, follows the rules of Set() for protected keys.
+// DeleteKey from an entry, follows the rules of Set() for protected keys. The
+// only exception is the two factor key since there is no other way to remove
+// it.
 func (b Blobs) DeleteKey(uuid, key string) error {
-	switch key {
-	case KeyName, KeyUpdated:
-		return keyNotAllowed(key)
+	for _, p := range protectedKeys {
+		if key != KeyTwoFactor && strings.EqualFold(key, p) {
+			return keyNotAllowed(key)
+		}
 	}
 
 	b.touchUpdated(uuid)
-- 
2.43.0


From 5ad4882ed6e175a29d471a9ce18d30bf6c436859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 20/61] fix: SplitUsername only splits names of user entries

---
 blobformat/blobs.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index ed2d140..cc086ec 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -505,12 +505,11 @@ func IsUserEntry(name string) bool {
 // SplitUsername returns a username from an entry name, returns empty string
 // if this was not a proper user entryname
 func SplitUsername(entryname string) string {
-	index := strings.Index(entryname, userPrefix)
-	if index < 0 {
+	if !IsUserEntry(entryname) {
 		return ""
 	}
 
-	return entryname[index+len(userPrefix):]
+	return entryname[len(userPrefix):]
 }
 
 // touchUpdated refreshes the updated timestamp for the given item
-- 
2.43.0


From ea9c4a2cad29596808f0f1d85ee34074a15d9e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 21/61] fix: TwoFactor honours digits, period and algorithm of
 the uri

---
 blobformat/blob.go | 60 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 5 deletions(-)

diff --git a/blobformat/blob.go b/blobformat/blob.go
index 59c6039..fe27cef 100644
--- a/blobformat/blob.go
+++ b/blobformat/blob.go
@@ -1,7 +1,9 @@
 package blobformat
 
 import (
+	"errors"
 	"fmt"
+	"net/url"
 	"strconv"
 	"strings"
 	"time"
@@ -58,22 +60,70 @@ func (b Blob) TwoFactor() (string, error) {
 		return "", nil
 	}
 
-	key, err := otp.NewKeyFromURL(twoFactorURI)
+	code, err := twoFactorCode(twoFactorURI, time.Now().UTC())
 	if err != nil {
-		return "", fmt.Errorf("failed to parse two factor uri for %s: %w", b.Name(), err)
+		return "", fmt.Errorf("failed to create two factor code for %s: %w", b.Name(), err)
+	}
+
+	return code, nil
+}
+
+// twoFactorCode creates the code for a moment, the digits, period and algorithm
+// are optional in the uri.
+func twoFactorCode(uri string, when time.Time) (string, error) {
+	key, err := otp.NewKeyFromURL(uri)
+	if err != nil {
+		return "", err
 	}
 
 	// There's no constant for totp here
 	if key.Type() != "totp" {
-		return "", fmt.Errorf("two factor key for %s was not a totp key", b.Name())
+		return "", errors.New("not a totp key")
 	}
 
-	code, err := totp.GenerateCode(key.Secret(), time.Now().UTC())
+	if len(strings.TrimSpace(key.Secret())) == 0 {
+		return "", errors.New("secret is missing")
+	}
+
+	u, err := url.Parse(key.String())
 	if err != nil {
 		return "", err
 	}
+	params := u.Query()
 
-	return code, nil
+	opts := totp.ValidateOpts{
+		Period:    30,
+		Digits:    otp.DigitsSix,
+		Algorithm: otp.AlgorithmSHA1,
+	}
+
+	if period := params.Get("period"); len(period) != 0 {
+		n, err := strconv.ParseUint(period, 10, 32)
+		if err != nil || n == 0 {
+			return "", fmt.Errorf("period %q is not valid", period)
+		}
+		opts.Period = uint(n)
+	}
+
+	if digits := params.Get("digits"); len(digits) != 0 {
+		n, err := strconv.Atoi(digits)
+		if err != nil || n < 6 || n > 8 {
+			return "", fmt.Errorf("digits %q is not valid", digits)
+		}
+		opts.Digits = otp.Digits(n)
+	}
+
+	switch algorithm := params.Get("algorithm"); strings.ToUpper(algorithm) {
+	case "", "SHA1":
+	case "SHA256":
+		opts.Algorithm = otp.AlgorithmSHA256
+	case "SHA512":
+		opts.Algorithm = otp.AlgorithmSHA512
+	default:
+		return "", fmt.Errorf("algorithm %q is not supported", algorithm)
+	}
+
+	return totp.GenerateCodeCustom(key.Secret(), when, opts)
 }
 
 // Labels for the blob
-- 
2.43.0


From acaed16b65fa7be9d94ecc8269f00f52b37c9d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 22/61] fix: SetTwofactor refuses secrets that cannot produce
 codes

---
 blobformat/blobs.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index cc086ec..931c021 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -11,8 +11,6 @@ import (
 
 	"github.com/aarondl/bpass/fuzzy"
 	"github.com/aarondl/bpass/txlogs"
-
-	"github.com/pquerna/otp"
 )
 
 // Sentinel errors
@@ -413,9 +411,8 @@ func (b Blobs) SetTwofactor(uuid, uriOrKey string) error {
 		)
 	}
 
-	_, err := otp.NewKeyFromURL(uri)
-	if err != nil {
-		return fmt.Errorf("could not set two factor key, uri wouldn't parse: %w", err)
+	if _, err := twoFactorCode(uri, time.Now().UTC()); err != nil {
+		return fmt.Errorf("could not set two factor key: %w", err)
 	}
 
 	b.touchUpdated(uuid)
-- 
2.43.0


From eb7259a5b3e085e27fff27ae4d2c1cd3533156a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 23/61] fix: generate passwords of 256 characters and beyond,
 refuse impossible sizes

The shuffle truncated the length to a byte: multiples of 256 divided by zero and
longer passwords were only shuffled in part. Sums of requirements could overflow.
---
 passwd_gen.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/passwd_gen.go b/passwd_gen.go
index 2936382..75b5c6d 100644
--- a/passwd_gen.go
+++ b/passwd_gen.go
@@ -17,9 +17,20 @@ var (
 	errPasswordImpossible = errors.New("password cannot be generated")
 )
 
+// maxPasswordLength bounds generated passwords, it's also the number of
+// positions two bytes of entropy can choose from when shuffling
+const maxPasswordLength = 1 << 16
+
 func genPassword(length, upper, lower, numbers, basic, extra int) (string, error) {
+	if length < 0 || length > maxPasswordLength {
+		return "", errPasswordImpossible
+	}
+
 	needLen := 0
 	for _, i := range []int{upper, lower, numbers, basic, extra} {
+		if i > length {
+			return "", errPasswordImpossible
+		}
 		if i > 0 {
 			needLen += i
 		}
@@ -36,7 +47,7 @@ func genPassword(length, upper, lower, numbers, basic, extra int) (string, error
 	// eOffset is the entropy offset
 	eOffset := 0
 	password := make([]byte, length)
-	entropy := make([]byte, needLen+(randomPicks*2)+length)
+	entropy := make([]byte, needLen+(randomPicks*2)+(length*2))
 	n, err := rand.Read(entropy)
 	if err != nil {
 		return "", err
@@ -92,9 +103,9 @@ func genPassword(length, upper, lower, numbers, basic, extra int) (string, error
 
 	for i := 0; i < length; i++ {
 		// swap i with
-		swap := entropy[eOffset] % byte(length)
+		swap := (int(entropy[eOffset])<<8 | int(entropy[eOffset+1])) % length
 		password[i], password[swap] = password[swap], password[i]
-		eOffset++
+		eOffset += 2
 	}
 
 	return string(password), nil
-- 
2.43.0


From 80d424faa0f8fe0559a18d475076acc04fe04bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 24/61] fix: never hand out a password that does not meet the
 chosen settings

Answering y (or c) after settings that can not be met returned an earlier or an empty
password, and an answer of blanks only crashed.
---
 uihelpers.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/uihelpers.go b/uihelpers.go
index 10afb1b..b0aadbe 100644
--- a/uihelpers.go
+++ b/uihelpers.go
@@ -240,10 +240,11 @@ func (u *uiContext) getPassword() (string, error) {
 
 	var err error
 	var choice, password string
-	regen := true
+	regen, usable := true, false
 	for {
 		if regen {
 			password, err = genPassword(length, upper, lower, number, basic, extra)
+			usable = err == nil
 			if err == errPasswordImpossible {
 				errColor.Println("Could not generate password with these requirements")
 			} else if err != nil {
@@ -251,7 +252,7 @@ func (u *uiContext) getPassword() (string, error) {
 			}
 		}
 
-		if err == nil {
+		if usable {
 			fmt.Fprintln(u.out, promptColor.Sprint("password:"), passColor.Sprint(password))
 		}
 
@@ -264,8 +265,11 @@ func (u *uiContext) getPassword() (string, error) {
 		splits := strings.Fields(choice)
 
 		switch {
-		case choice == "":
+		case len(splits) == 0:
 			// Just regen
+		case !usable && (choice == "y" || splits[0] == "c"):
+			errColor.Println("There is no password to use")
+			regen = false
 		case choice == "y":
 			return password, nil
 		case choice == "m":
-- 
2.43.0


From a467d6b660d79697efe8f8517028d50fcdc3e713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 25/61] fix: ending a question or a failing command no longer
 ends the session unsaved

Every error of a command ended the program without saving, including the end of input at
a question of passwd, rekey, set, login and so on.
---
 repl.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/repl.go b/repl.go
index 7c314da..9d2626b 100644
--- a/repl.go
+++ b/repl.go
@@ -168,10 +168,21 @@ func (r *repl) run() error {
 		}
 
 		err = replCommand.Run(r, cmd, args)
-		if err == errExit {
+		switch err {
+		case nil:
+			// Allow through
+		case errExit:
 			return nil
-		} else if err != nil {
+		case ErrInterrupt:
 			return err
+		case ErrEnd:
+			// Ending a question only ends the command that asked it
+			errColor.Println("Aborted")
+			continue
+		default:
+			// The session must survive, there may be unsaved changes
+			errColor.Println("error occurred:", err)
+			continue
 		}
 
 		r.ctx.in.AddHistory(line)
-- 
2.43.0


From 822beeef1277a66b4731ba6c29d8da126126caec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:23 +0000
Subject: [PATCH 26/61] fix: refuse labels with commas

Labels are stored separated by commas, such a label turned into several.
---
 commands.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commands.go b/commands.go
index b5b025b..d40b877 100644
--- a/commands.go
+++ b/commands.go
@@ -1247,6 +1247,9 @@ func validateLabel(labels []string, label string) bool {
 		} else if unicode.IsUpper(c) {
 			errColor.Println("Labels cannot contain uppercase")
 			return false
+		} else if c == ',' {
+			errColor.Println("Labels cannot contain commas")
+			return false
 		}
 	}
 
-- 
2.43.0


From 24f3a043659417b16a0839cc912cbd5cd23f08b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:23 +0000
Subject: [PATCH 27/61] fix: set reports keys that may not be set

It claimed to have set protected keys although they are refused.
---
 commands.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/commands.go b/commands.go
index d40b877..0e64407 100644
--- a/commands.go
+++ b/commands.go
@@ -784,6 +784,7 @@ func (u *uiContext) set(search, key, value string) error {
 		return nil
 	}
 
+	var setErr error
 	switch key {
 	case blobformat.KeyPass:
 		if len(value) == 0 {
@@ -794,7 +795,7 @@ func (u *uiContext) set(search, key, value string) error {
 			}
 		}
 
-		u.store.Set(uuid, key, value)
+		setErr = u.store.Set(uuid, key, value)
 	case blobformat.KeyTwoFactor:
 		if err := u.store.SetTwofactor(uuid, value); err != nil {
 			errColor.Println(err)
@@ -810,7 +811,7 @@ func (u *uiContext) set(search, key, value string) error {
 			return nil
 		}
 
-		u.store.Set(uuid, key, value)
+		setErr = u.store.Set(uuid, key, value)
 	default:
 		// no known key was provided,  setting custom key
 
@@ -822,7 +823,12 @@ func (u *uiContext) set(search, key, value string) error {
 			}
 		}
 
-		u.store.Set(uuid, key, value)
+		setErr = u.store.Set(uuid, key, value)
+	}
+
+	if setErr != nil {
+		errColor.Println(setErr)
+		return nil
 	}
 
 	infoColor.Printf("set %s = %s\n", key, value)
-- 
2.43.0


From c2374ea41745a383f4aa874a257f518f1389505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:23 +0000
Subject: [PATCH 28/61] fix: set does not drop its first argument when other
 whitespace precedes it

Split by spaces alone the command name swallowed the entry after a tab, and the
arguments that followed designated another entry.
---
 repl.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/repl.go b/repl.go
index 9d2626b..a776212 100644
--- a/repl.go
+++ b/repl.go
@@ -152,9 +152,10 @@ func (r *repl) run() error {
 		// Special case this thing, no commands care about additional space
 		// except set
 		if cmd == "set" {
-			args = strings.Split(line, " ")
+			args = strings.Split(strings.TrimSpace(line[len(cmd):]), " ")
+		} else {
+			args = args[1:]
 		}
-		args = args[1:]
 
 		replCommand, ok := replCmds[cmd]
 		if !ok {
-- 
2.43.0


From d763718034304f0c90131309370863af3068f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 29/61] fix: refuse passwd and rekey of unknown users

Both crashed in multi-user files, in single-user files they changed the password
of the file instead.
---
 commands.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/commands.go b/commands.go
index 0e64407..cec5a6e 100644
--- a/commands.go
+++ b/commands.go
@@ -48,7 +48,32 @@ const (
 	syncFile = "file"
 )
 
+// haveUser checks that user is a user of the file, an error message will have
+// been printed if not. The empty user is the current user.
+func (u *uiContext) haveUser(user string) (bool, error) {
+	if len(user) == 0 {
+		return true, nil
+	}
+
+	var uuid string
+	if len(u.master) != 0 {
+		var err error
+		if uuid, _, err = u.store.FindUser(user); err != nil {
+			return false, err
+		}
+	}
+
+	if len(uuid) == 0 {
+		errColor.Printf("user %q not found\n", user)
+	}
+	return len(uuid) != 0, nil
+}
+
 func (u *uiContext) passwd(user string) error {
+	if ok, err := u.haveUser(user); err != nil || !ok {
+		return err
+	}
+
 	pass, err := u.getPassword()
 	if err != nil {
 		return err
@@ -143,6 +168,10 @@ func (u *uiContext) adduser(user string) error {
 }
 
 func (u *uiContext) rekey(user string) error {
+	if ok, err := u.haveUser(user); err != nil || !ok {
+		return err
+	}
+
 	isCurrentUser := len(user) == 0
 
 	var pass string
-- 
2.43.0


From 8affa5f325a6c7999573b7cdf8ca6f66b8b3065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 30/61] fix: passwd changes the password of the user it was
 given

In multi-user files it always changed the entry of the current user: the given user
kept the old password while the current user got theirs.
---
 commands.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/commands.go b/commands.go
index cec5a6e..9873577 100644
--- a/commands.go
+++ b/commands.go
@@ -89,8 +89,12 @@ func (u *uiContext) passwd(user string) error {
 		return err
 	}
 
+	if len(user) == 0 {
+		user = u.user
+	}
+
 	// Update our "fast-path" credentials if we're re-doing the current user
-	if len(u.user) == 0 || u.user == user {
+	if u.user == user {
 		u.pass = pass
 		u.key = key
 		u.salt = salt
@@ -98,7 +102,7 @@ func (u *uiContext) passwd(user string) error {
 
 	// We have to update the user entry if it's a multi-user file
 	if len(u.master) != 0 {
-		uuid, _, err := u.store.MustFindUser(u.user)
+		uuid, _, err := u.store.MustFindUser(user)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From c1e63b02bc622a2b56a701662ba81a3e2ba97c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 31/61] fix: rekey of the current user by name updates the
 session's credentials

The session kept the old passphrase and key, a later rekey brought the old passphrase
back and synchronising used it.
---
 commands.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index 9873577..9b214a5 100644
--- a/commands.go
+++ b/commands.go
@@ -200,7 +200,7 @@ func (u *uiContext) rekey(user string) error {
 		return err
 	}
 
-	if isCurrentUser {
+	if isCurrentUser || user == u.user {
 		// Update fast-path credentials
 		u.pass = pass
 		u.key = key
-- 
2.43.0


From a53f5e6cad7680ed8670bd2fae65fba1ef3ec272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 32/61] fix: rekeyall gives the users the new master key

They were given the old one while the file was encrypted with the new one, so nobody
could open it anymore.
---
 commands.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index 9b214a5..6569f02 100644
--- a/commands.go
+++ b/commands.go
@@ -292,7 +292,7 @@ func (u *uiContext) rekeyAll() error {
 			u.salt = salt
 		}
 
-		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
+		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, master)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 096b31123256dfc97ef62cfe2de9b9dab65e1752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 33/61] fix: remember the passphrase of a new file

rekey refused to work in the session that created the file.
---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index 1bf94b4..4a9ed07 100644
--- a/main.go
+++ b/main.go
@@ -180,6 +180,7 @@ func (u *uiContext) loadBlob() error {
 			return err
 		}
 
+		u.pass = pwd
 		u.key = key
 		u.salt = salt
 	} else {
-- 
2.43.0


From ffaf4b05553fdd85579244d5f741e3f6192d217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 34/61] fix: adduser adds the user completely or not at all

Ending the password question left a user without key material behind, which made the
file impossible to save, and an empty password was accepted.
---
 commands.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/commands.go b/commands.go
index 6569f02..0211775 100644
--- a/commands.go
+++ b/commands.go
@@ -122,6 +122,14 @@ func (u *uiContext) passwd(user string) error {
 }
 
 func (u *uiContext) adduser(user string) error {
+	// The user must not exist without key material, neither when the
+	// password is not given nor when something fails
+	return u.store.Do(func() error {
+		return u.adduserTx(user)
+	})
+}
+
+func (u *uiContext) adduserTx(user string) error {
 	uuid, err := u.store.NewUser(user)
 	if err == blobformat.ErrNameNotUnique {
 		errColor.Println("user already exists")
@@ -132,13 +140,13 @@ func (u *uiContext) adduser(user string) error {
 
 	var key, salt []byte
 	var pass string
-	if len(u.master) == 0 {
-		u.master, u.ivm, err = crypt.NewMasterKey(cryptVersion)
+	master, ivm, first := u.master, u.ivm, len(u.master) == 0
+	if first {
+		master, ivm, err = crypt.NewMasterKey(cryptVersion)
 		if err != nil {
-			return nil
+			return err
 		}
 
-		u.user = user
 		key = u.key
 		salt = u.salt
 	} else {
@@ -147,17 +155,27 @@ func (u *uiContext) adduser(user string) error {
 			return err
 		}
 
+		if len(pass) == 0 {
+			errColor.Println("refusing to use empty password")
+			return ErrEnd
+		}
+
 		key, salt, err = crypt.DeriveKey(cryptVersion, []byte(pass))
 		if err != nil {
 			return err
 		}
 	}
 
-	mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
+	mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, master)
 	if err != nil {
 		return err
 	}
 
+	if first {
+		u.user = user
+		u.master, u.ivm = master, ivm
+	}
+
 	u.store.DB.Set(uuid, blobformat.KeySalt, hex.EncodeToString(salt))
 	u.store.DB.Set(uuid, blobformat.KeyIV, hex.EncodeToString(iv))
 	u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
-- 
2.43.0


From 5ed0c64f13e8cb29d7087d91652a25487034534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:02 +0000
Subject: [PATCH 35/61] fix: entries named like users do not make the file
 impossible to save

"add user/x", "add user/" or a rename made an entry without keys count as a user of
the file, and saving failed: all changes were lost.
---
 commands.go  |  4 ++--
 uicontext.go | 44 +++++++++++++++++++++++++++++++++++++-------
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/commands.go b/commands.go
index 0211775..ad3ea38 100644
--- a/commands.go
+++ b/commands.go
@@ -277,7 +277,7 @@ func (u *uiContext) rekeyAll() error {
 		return err
 	}
 
-	users, err := u.store.Users()
+	users, err := u.fileUsers()
 	if err != nil {
 		return err
 	}
@@ -610,7 +610,7 @@ func (u *uiContext) deleteEntry(name string) error {
 		deleteSelf = true
 		// We're trying to delete ourselves!
 		// Disallow this unless we're the last user
-		users, err := u.store.Users()
+		users, err := u.fileUsers()
 		if err != nil {
 			return err
 		}
diff --git a/uicontext.go b/uicontext.go
index fee873b..36b2c6a 100644
--- a/uicontext.go
+++ b/uicontext.go
@@ -53,18 +53,18 @@ func (u *uiContext) makeParams() (*crypt.Params, error) {
 
 	index := 0
 	for uuid, name := range users {
-		name = blobformat.SplitUsername(name)
-		if len(name) == 0 {
-			return nil, errors.New("params name was not a username")
-		}
-
-		username := sha256.Sum256([]byte(name))
-
 		blob, err := u.store.MustFind(uuid)
 		if err != nil {
 			return nil, errors.New("could not find user we just found")
 		}
 
+		if !isFileUser(blob) {
+			continue
+		}
+
+		name = blobformat.SplitUsername(name)
+		username := sha256.Sum256([]byte(name))
+
 		salt, err := hex.DecodeString(blob[blobformat.KeySalt])
 		if err != nil {
 			return nil, errors.New("user entry had bad salt")
@@ -97,3 +97,33 @@ func (u *uiContext) makeParams() (*crypt.Params, error) {
 
 	return &p, nil
 }
+
+// isFileUser checks that an entry is a user that can open the file. Entries
+// can be named like users (add, mv) without being given any keys, they are not
+// users.
+func isFileUser(blob blobformat.Blob) bool {
+	return len(blobformat.SplitUsername(blob.Name())) != 0 &&
+		len(blob[blobformat.KeySalt]) != 0 &&
+		len(blob[blobformat.KeyIV]) != 0 &&
+		len(blob[blobformat.KeyMKey]) != 0
+}
+
+// fileUsers are the users that can open the file
+func (u *uiContext) fileUsers() (blobformat.SearchResults, error) {
+	users, err := u.store.Users()
+	if err != nil {
+		return nil, err
+	}
+
+	for uuid := range users {
+		blob, err := u.store.MustFind(uuid)
+		if err != nil {
+			return nil, err
+		}
+		if !isFileUser(blob) {
+			delete(users, uuid)
+		}
+	}
+
+	return users, nil
+}
-- 
2.43.0


From 9813774d00fb5e035457f56c46d73d43704ba041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:02 +0000
Subject: [PATCH 36/61] fix: forget the user when the file becomes single-user
 again

passwd did not change the password of the file anymore.
---
 commands.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/commands.go b/commands.go
index ad3ea38..ba86e89 100644
--- a/commands.go
+++ b/commands.go
@@ -640,6 +640,7 @@ func (u *uiContext) deleteEntry(name string) error {
 		// key and IVM to ensure that we are not encrypted as a multi-user file
 		u.master = nil
 		u.ivm = nil
+		u.user = ""
 	}
 
 	u.store.Delete(uuid)
-- 
2.43.0


From 099c69de4bb8d32b2dcbf6daad3ed40ab92bd51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:02 +0000
Subject: [PATCH 37/61] fix: follow a rename of the current user, refuse one
 that is no user

The session went on under the old name: passwd crashed, deleting oneself was possible,
and a rename away from user/ locked the user out of the file.
---
 commands.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/commands.go b/commands.go
index ba86e89..5a4687b 100644
--- a/commands.go
+++ b/commands.go
@@ -584,6 +584,13 @@ func (u *uiContext) rename(src, dst string) error {
 		return nil
 	}
 
+	renameSelf := len(u.master) != 0 && blobformat.SplitUsername(src) == u.user
+	newUser := blobformat.SplitUsername(dst)
+	if renameSelf && len(newUser) == 0 {
+		errColor.Println("cannot rename yourself to a name that is not a user")
+		return nil
+	}
+
 	if err := u.store.Rename(oldUUID, dst); err == blobformat.ErrNameNotUnique {
 		errColor.Println(dst, "already exists")
 		return nil
@@ -591,6 +598,10 @@ func (u *uiContext) rename(src, dst string) error {
 		return err
 	}
 
+	if renameSelf {
+		u.user = newUser
+	}
+
 	infoColor.Printf("moved %q => %q\n", src, dst)
 	return nil
 }
-- 
2.43.0


From b19d496bbd6f64c1ce83e95d2f9973ee1ad39671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 38/61] fix: the shell's current entry follows renames and
 deletions

---
 repl.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/repl.go b/repl.go
index a776212..23015a5 100644
--- a/repl.go
+++ b/repl.go
@@ -122,6 +122,26 @@ type repl struct {
 
 	prompt   string
 	ctxEntry string
+	// ctxUUID identifies the entry, its name may change
+	ctxUUID string
+}
+
+// updateContext follows renames of the current entry, and returns to the root
+// if it was deleted.
+func (r *repl) updateContext() {
+	if len(r.ctxUUID) == 0 {
+		return
+	}
+
+	blob, err := r.ctx.store.Find(r.ctxUUID)
+	if err != nil || blob == nil {
+		r.ctxUUID, r.ctxEntry = "", ""
+		r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
+		return
+	}
+
+	r.ctxEntry = blob.Name()
+	r.prompt = mainPromptColor.Sprintf(dirPrompt, r.ctx.shortFilename, r.ctxEntry)
 }
 
 func (r *repl) run() error {
@@ -129,6 +149,8 @@ func (r *repl) run() error {
 	r.ctxEntry = ""
 
 	for {
+		r.updateContext()
+
 		line, err := r.ctx.in.Line(r.prompt)
 		switch err {
 		case ErrInterrupt:
@@ -263,14 +285,7 @@ var replCmds = map[string]replCmd{
 				return nil
 			}
 			name := args[0]
-			err := r.ctx.deleteEntry(name)
-
-			if err == nil && r.ctxEntry == name {
-				r.ctxEntry = ""
-				r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
-			}
-
-			return err
+			return r.ctx.deleteEntry(name)
 		},
 	},
 
@@ -308,6 +323,7 @@ var replCmds = map[string]replCmd{
 			switch len(args) {
 			case 0:
 				r.ctxEntry = ""
+				r.ctxUUID = ""
 				r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
 			case 1:
 				var uuid string
@@ -326,6 +342,7 @@ var replCmds = map[string]replCmd{
 				}
 
 				r.ctxEntry = blob.Name()
+				r.ctxUUID = uuid
 				r.prompt = mainPromptColor.Sprintf(dirPrompt, r.ctx.shortFilename, r.ctxEntry)
 			default:
 				fmt.Println("cd needs an argument")
-- 
2.43.0


From af4b07e4097a01bf702927819661355b90c5f186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 39/61] fix: exit with a failure status when the session failed

---
 main.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 4a9ed07..31d868c 100644
--- a/main.go
+++ b/main.go
@@ -123,13 +123,16 @@ func main() {
 
 Exit:
 	if !flagNoClearClip {
-		if err = clipboard.WriteAll(""); err != nil {
+		if clipErr := clipboard.WriteAll(""); clipErr != nil {
 			fmt.Println("failed to clear the clipboard")
 		}
 	}
 
-	if err = ctx.in.Close(); err != nil {
-		fmt.Println("failed to close terminal properly:", err)
+	if closeErr := ctx.in.Close(); closeErr != nil {
+		fmt.Println("failed to close terminal properly:", closeErr)
+		if err == nil {
+			err = closeErr
+		}
 	}
 
 	if err != nil {
-- 
2.43.0


From c983770c97dfae70ed04bec6bce9e8412f39aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 40/61] fix: every valid time opens the file read-only at that
 time

---
 main.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 31d868c..1e0f90b 100644
--- a/main.go
+++ b/main.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"time"
 
 	"github.com/aarondl/bpass/blobformat"
 	"github.com/aarondl/bpass/crypt"
@@ -42,7 +43,7 @@ func main() {
 		color.Writer = writer
 		ctx.out = writer
 	}
-	if !historyTime.IsZero() {
+	if len(flagTime) != 0 {
 		ctx.readOnly = true
 	}
 
@@ -235,9 +236,9 @@ func (u *uiContext) loadBlob() error {
 	} else if u.readOnly {
 		infoColor.Println("opened file in read-only mode at:", historyTime.Format("January 02, 2006 - 15:04:05"))
 		u.store.DB.ResetSnapshot()
-		historyUnix := historyTime.UnixNano()
 		for i, tx := range u.store.DB.Log {
-			if tx.Time > historyUnix {
+			// Not in nanoseconds, only the years 1678 to 2262 have them
+			if time.Unix(0, tx.Time).After(historyTime) {
 				u.store.DB.Log = u.store.DB.Log[0:i]
 				break
 			}
-- 
2.43.0


From f142693ea8456bec2a38b3fd8ac06a5857bd7f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:24 +0000
Subject: [PATCH 41/61] fix: saving replaces the file in one step

---
 main.go                  |   2 +-
 osutil/osutil_darwin.go  |  10 ++++
 osutil/osutil_linux.go   |   9 ++++
 osutil/osutil_windows.go |   5 ++
 writefile.go             | 105 +++++++++++++++++++++++++++++++++++++++
 5 files changed, 130 insertions(+), 1 deletion(-)
 create mode 100644 writefile.go

diff --git a/main.go b/main.go
index 1e0f90b..98f6f73 100644
--- a/main.go
+++ b/main.go
@@ -274,7 +274,7 @@ func (u *uiContext) saveBlob() error {
 		return err
 	}
 
-	return ioutil.WriteFile(flagFile, data, 0600)
+	return writeFile(flagFile, data, 0600)
 }
 
 func shortPath(filename string) string {
diff --git a/osutil/osutil_darwin.go b/osutil/osutil_darwin.go
index 315bd2b..f234b2b 100644
--- a/osutil/osutil_darwin.go
+++ b/osutil/osutil_darwin.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"os/exec"
+	"syscall"
 )
 
 // OpenURL uses the open program on darwin
@@ -44,3 +45,12 @@ func RunEditor(filename string) error {
 	cmd.Stderr = os.Stderr
 	return cmd.Run()
 }
+
+// CopyOwner gives a file to the owner of another
+func CopyOwner(filename string, of os.FileInfo) error {
+	stat, ok := of.Sys().(*syscall.Stat_t)
+	if !ok || int(stat.Uid) == os.Geteuid() {
+		return nil
+	}
+	return os.Chown(filename, int(stat.Uid), int(stat.Gid))
+}
diff --git a/osutil/osutil_linux.go b/osutil/osutil_linux.go
index 7ee88d1..670dc08 100644
--- a/osutil/osutil_linux.go
+++ b/osutil/osutil_linux.go
@@ -53,3 +53,12 @@ func RunEditor(filename string) error {
 	cmd.Stderr = os.Stderr
 	return cmd.Run()
 }
+
+// CopyOwner gives a file to the owner of another
+func CopyOwner(filename string, of os.FileInfo) error {
+	stat, ok := of.Sys().(*syscall.Stat_t)
+	if !ok || int(stat.Uid) == os.Geteuid() {
+		return nil
+	}
+	return os.Chown(filename, int(stat.Uid), int(stat.Gid))
+}
diff --git a/osutil/osutil_windows.go b/osutil/osutil_windows.go
index 31fd494..99a9c9a 100644
--- a/osutil/osutil_windows.go
+++ b/osutil/osutil_windows.go
@@ -49,3 +49,8 @@ func RunEditor(filename string) error {
 	cmd.Stderr = os.Stderr
 	return cmd.Run()
 }
+
+// CopyOwner does nothing on windows
+func CopyOwner(filename string, of os.FileInfo) error {
+	return nil
+}
diff --git a/writefile.go b/writefile.go
new file mode 100644
index 0000000..b75cb59
--- /dev/null
+++ b/writefile.go
@@ -0,0 +1,105 @@
+package main
+
+import (
+	"io/ioutil"
+	"os"
+	"path/filepath"
+	"runtime"
+
+	"github.com/aarondl/bpass/osutil"
+)
+
+// writeFile replaces a file's contents in one step: whatever happens on the
+// way the file has either its old or its new contents afterwards, and when
+// writeFile succeeded it has the new ones even if the machine stops.
+//
+// Symlinks are followed, the mode and owner of an existing file are kept.
+func writeFile(filename string, data []byte, perm os.FileMode) (err error) {
+	if filename, err = followLinks(filename); err != nil {
+		return err
+	}
+
+	old, err := os.Stat(filename)
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	if old != nil && !old.Mode().IsRegular() {
+		// Devices and the like can only be written to
+		return ioutil.WriteFile(filename, data, perm)
+	}
+
+	dir := filepath.Dir(filename)
+	tmp, err := ioutil.TempFile(dir, filepath.Base(filename)+".tmp")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			tmp.Close()
+			os.Remove(tmp.Name())
+		}
+	}()
+
+	if old != nil {
+		perm = old.Mode().Perm()
+		if err = osutil.CopyOwner(tmp.Name(), old); err != nil && !os.IsPermission(err) {
+			return err
+		}
+	}
+	if err = tmp.Chmod(perm); err != nil {
+		return err
+	}
+	if _, err = tmp.Write(data); err != nil {
+		return err
+	}
+	if err = tmp.Sync(); err != nil {
+		return err
+	}
+	if err = tmp.Close(); err != nil {
+		return err
+	}
+	if err = os.Rename(tmp.Name(), filename); err != nil {
+		return err
+	}
+
+	// The new name is only permanent when the directory is
+	if runtime.GOOS == "windows" {
+		return nil
+	}
+	d, err := os.Open(dir)
+	if err != nil {
+		return err
+	}
+	if err = d.Sync(); err != nil {
+		d.Close()
+		return err
+	}
+	return d.Close()
+}
+
+// followLinks finds the file a chain of symlinks leads to, it need not exist
+func followLinks(filename string) (string, error) {
+	for i := 0; i < 64; i++ {
+		info, err := os.Lstat(filename)
+		if os.IsNotExist(err) {
+			return filename, nil
+		} else if err != nil {
+			return "", err
+		}
+		if info.Mode()&os.ModeSymlink == 0 {
+			return filename, nil
+		}
+
+		link, err := os.Readlink(filename)
+		if err != nil {
+			return "", err
+		}
+		if !filepath.IsAbs(link) {
+			// Not cleaned, .. may follow another link
+			link = filepath.Dir(filename) + string(filepath.Separator) + link
+		}
+		filename = link
+	}
+
+	return "", &os.PathError{Op: "open", Path: filename, Err: os.ErrInvalid}
+}
-- 
2.43.0


From 1dff7b48665e9faf4498c85fc3520512d2a7c580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 42/61] fix: resolving sync conflicts ends, and shows the
 conflicting change

---
 merging.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/merging.go b/merging.go
index c46e738..baf87b9 100644
--- a/merging.go
+++ b/merging.go
@@ -213,9 +213,9 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 	}
 
 	var c []txlogs.Tx
-	var conflicts []txlogs.Conflict
+	var conflicts, resolved []txlogs.Conflict
 	for {
-		c, conflicts = txlogs.Merge(local, remote, conflicts)
+		c, conflicts = txlogs.Merge(local, remote, resolved)
 
 		if len(conflicts) == 0 {
 			break
@@ -244,7 +244,7 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					time.Unix(0, c.Conflict.Time).Format(time.RFC3339),
 				)
 
-				switch c.Initial.Kind {
+				switch c.Conflict.Kind {
 				case txlogs.TxSetKey:
 					infoColor.Printf("a set happened:\n%s = %s\n",
 						c.Conflict.Key,
@@ -254,6 +254,8 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					infoColor.Printf("a delete happened for key:\n%s\n",
 						c.Conflict.Key,
 					)
+				default:
+					infoColor.Printf("another change happened (%s)\n", c.Conflict.Kind)
 				}
 
 				for {
@@ -270,9 +272,14 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					default:
 						continue
 					}
+					break
 				}
 			}
 		}
+
+		// Resolving these may reveal others, Merge must be told about all of
+		// them.
+		resolved = append(resolved, conflicts...)
 	}
 
 	return c, nil
-- 
2.43.0


From e0027611b815b822a6864f57d4eba21cd6723bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:47 +0000
Subject: [PATCH 43/61] fix: a remote that cannot be merged is left alone, the
 others are synchronized

---
 merging.go   | 87 +++++++++++++++++++++++++++++++-------------------
 sync.go      | 90 ++++++++++++++++++++++++++++++++++++++--------------
 uicontext.go |  8 +++--
 3 files changed, 128 insertions(+), 57 deletions(-)

diff --git a/merging.go b/merging.go
index baf87b9..0a13297 100644
--- a/merging.go
+++ b/merging.go
@@ -59,7 +59,10 @@ type mergeResult struct {
 //    it also invalidates user entries that are not in the winning side
 //    because they will have been encrypted with a master key that no longer
 //    is in use
-func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
+//
+// A remote that cannot be merged, or that the user declines to merge, is left
+// out of the result, merged tells which remotes are part of it.
+func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, merges []bool) {
 	// Copy everything into a temp to abort at any time without damaging
 	// our current stuff
 	m = mergeResult{
@@ -70,21 +73,43 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 	}
 	copy(m.Log, u.store.Log)
 
-	for _, r := range remotes {
+	merges = make([]bool, len(remotes))
+	skip := func(r blobParts, err error) {
+		errColor.Printf("cannot merge %q, leaving it as it is: %v\n", r.Name, err)
+	}
+
+	for i, r := range remotes {
 		takeRemoteCreds := false
 		merged, err := mergeLogs(u, m.Log, r.Log)
 		if err != nil {
-			return m, err
+			skip(r, err)
+			continue
+		}
+
+		localStore := blobformat.Blobs{DB: &txlogs.DB{Log: m.Log}}
+		mergedStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
+		remoteStore := blobformat.Blobs{DB: &txlogs.DB{Log: r.Log}}
+
+		users, err := fileUsers(mergedStore)
+		if err != nil {
+			// The merged log does not make sense
+			skip(r, err)
+			continue
 		}
 
-		if len(u.master) == 0 && len(r.Params.Master) == 0 {
-			if !bytes.Equal(u.key, r.Params.Keys[r.Params.User]) {
+		if len(m.Master) == 0 && len(r.Params.Master) == 0 {
+			if !bytes.Equal(m.Key, r.Params.Keys[r.Params.User]) {
 				// Key has changed
 				// Either the salt has changed or the password has changed, either
 				// way we'll try to determine who has the latest updates in the log
 				// to see which credential set we should keep.
-				lastTimeLocal := m.Log[len(m.Log)-1].Time
-				lastTimeRemote := r.Log[len(r.Log)-1].Time
+				var lastTimeLocal, lastTimeRemote int64
+				if len(m.Log) != 0 {
+					lastTimeLocal = m.Log[len(m.Log)-1].Time
+				}
+				if len(r.Log) != 0 {
+					lastTimeRemote = r.Log[len(r.Log)-1].Time
+				}
 
 				if lastTimeLocal < lastTimeRemote {
 					takeRemoteCreds = true
@@ -92,53 +117,48 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 					infoColor.Printf("remote %q has different credentials!\n", r.Name)
 					takeRemoteCreds, err = u.getYesNo("use remote credentials from now on?")
 					if err != nil {
-						return m, err
+						skip(r, err)
+						continue
 					}
 				}
 			}
-		} else if len(u.master) != len(r.Params.Master) {
+		} else if len(m.Master) != len(r.Params.Master) {
 			// There's been a single->multi or multi->single change
-			// We have to instantiate the merged blob and check user counts
-			db := &txlogs.DB{Log: merged}
-			store := blobformat.Blobs{DB: db}
-			users, err := store.Users()
-			if err != nil {
-				return m, err
-			}
-
-			if len(users) == 0 && len(u.master) != 0 {
+			// We have to check user counts in the merged blob
+			if len(users) == 0 && len(m.Master) != 0 {
 				// There's no users remaining in the merged DB, and the local
 				// file is multi, meaning that the remote wins the merge
 				// and we become a single-user file
 				infoColor.Println("local file converted to single-user file")
 				takeRemoteCreds = true
-			} else if len(users) != 0 && len(u.master) == 0 {
+			} else if len(users) != 0 && len(m.Master) == 0 {
 				// There's users remaining in the merged DB, and the local file
 				// is not multi, meaning that the remote wins the merge
 				// and we become a multi-user file.
 				infoColor.Println("local file converted to multi-user file")
 				takeRemoteCreds = true
 			}
-		} else if !bytes.Equal(u.master, r.Params.Master) {
+		} else if !bytes.Equal(m.Master, r.Params.Master) {
 			// There's been a master change in a multi multi
 
-			localStore := blobformat.Blobs{DB: &txlogs.DB{Log: m.Log}}
-			mergedStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
-			remoteStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
 			userUUID, localUser, err := localStore.FindUser(m.User)
 			if err != nil {
-				return m, err
+				skip(r, err)
+				continue
 			}
 
 			mergedUser, err := mergedStore.Find(userUUID)
 			if err != nil {
-				return m, err
+				skip(r, err)
+				continue
 			}
 
 			if localUser == nil {
-				return m, errors.New("could not find current user entry in local user db")
+				skip(r, errors.New("could not find current user entry in local user db"))
+				continue
 			} else if mergedUser == nil {
-				return m, errors.New("could not find current user entry in merged user db")
+				skip(r, errors.New("could not find current user entry in merged user db"))
+				continue
 			}
 
 			// Figure out if the local mkey is in the merged database
@@ -146,13 +166,15 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 			// users if they were not present for the rekey, find them
 			// and warn that they will not work until they're re-passworded
 			localWins := localUser[blobformat.KeyMKey] == mergedUser[blobformat.KeyMKey]
-			localUsers, err := localStore.Users()
+			localUsers, err := fileUsers(localStore)
 			if err != nil {
-				return m, err
+				skip(r, err)
+				continue
 			}
-			remoteUsers, err := remoteStore.Users()
+			remoteUsers, err := fileUsers(remoteStore)
 			if err != nil {
-				return m, err
+				skip(r, err)
+				continue
 			}
 
 			if localWins {
@@ -197,9 +219,10 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 		}
 
 		m.Log = merged
+		merges[i] = true
 	}
 
-	return m, nil
+	return m, merges
 }
 
 var syncNoCommonAncestryWarning = `WARNING: There is no common ancestry between
diff --git a/sync.go b/sync.go
index 0dc797f..8fe7862 100644
--- a/sync.go
+++ b/sync.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"crypto/sha256"
 	"crypto/sha512"
 	"errors"
@@ -27,7 +28,10 @@ type credentials struct {
 }
 
 type blobParts struct {
-	Name   string
+	Name string
+	// Syncs are the entries of the remotes that have this blob
+	Syncs  []string
+	Hash   [64]byte
 	Creds  credentials
 	Params crypt.Params
 	Log    []txlogs.Tx
@@ -66,13 +70,15 @@ func (u *uiContext) sync(name string, auto, push bool) error {
 	// From this point on we don't worry about keys not being present for
 	// the most part since collectSyncs should only return valid things
 	hosts := make(map[string]string)
-	dupeCheck := make([][64]byte, 0, len(syncs))
+	urls := make(map[string]string)
+	current := make(map[string]blobParts)
 	blobs := make([]blobParts, 0, len(syncs))
 Syncs:
-	for i, uuid := range syncs {
+	for _, uuid := range syncs {
 		entry := u.store.Snapshot[uuid]
 		name, _ := entry[blobformat.KeyName]
 
+		urls[uuid] = entry[blobformat.KeyURL]
 		infoColor.Println("pull:", name)
 
 		ct, hostentry, err := pullBlob(u, uuid)
@@ -85,15 +91,16 @@ Syncs:
 		if err != nil {
 			if err != errNotFound {
 				errColor.Printf("error pulling %q: %v\n", name, err)
-				syncs[i] = ""
+				delete(urls, uuid)
 			}
 			continue
 		}
 
 		hash := sha512.Sum512(ct)
-		for _, d := range dupeCheck {
-			if hash == d {
+		for i := range blobs {
+			if hash == blobs[i].Hash {
 				infoColor.Printf("skip: %s (duplicate remote)\n", name)
+				blobs[i].Syncs = append(blobs[i].Syncs, uuid)
 				continue Syncs
 			}
 		}
@@ -101,39 +108,48 @@ Syncs:
 		params, creds, pt, err := decryptBlob(u, name, ct)
 		if err != nil {
 			errColor.Printf("failed to decrypt %q: %v\n", name, err)
-			syncs[i] = ""
+			delete(urls, uuid)
 			continue
 		} else if len(pt) == 0 {
 			errColor.Printf("failed to decrypt %q: %v\n", name, err)
-			syncs[i] = ""
+			delete(urls, uuid)
 			continue
 		}
 
 		log, err := txlogs.NewLog(pt)
 		if err != nil {
 			errColor.Printf("failed parsing log %q: %v\n", name, err)
-			syncs[i] = ""
-			continue
-		}
-
-		if txlogs.SameLog(log, u.store.DB.Log) {
-			infoColor.Printf("skip: %s (no changes)\n", name)
-			syncs[i] = ""
+			delete(urls, uuid)
 			continue
 		}
 
-		blobs = append(blobs, blobParts{
+		parts := blobParts{
 			Name:   name,
+			Syncs:  []string{uuid},
+			Hash:   hash,
 			Creds:  creds,
 			Params: params,
 			Log:    log,
-		})
+		}
+
+		if u.sameBlob(parts) {
+			infoColor.Printf("skip: %s (no changes)\n", name)
+			current[uuid] = parts
+			continue
+		}
+
+		blobs = append(blobs, parts)
 	}
 
-	out, err := mergeBlobs(u, blobs)
-	if err != nil {
-		errColor.Println("aborting sync, failed to merge logs:", err)
-		return nil
+	out, merged := mergeBlobs(u, blobs)
+
+	// Do not overwrite the remotes that are not part of the result
+	for i, blob := range blobs {
+		for _, uuid := range blob.Syncs {
+			if !merged[i] {
+				delete(urls, uuid)
+			}
+		}
 	}
 
 	u.user, u.pass = out.User, out.Pass
@@ -172,13 +188,22 @@ Syncs:
 	// Push back to other machines
 	hosts = make(map[string]string)
 	for _, uuid := range syncs {
-		if len(uuid) == 0 {
+		uri, ok := urls[uuid]
+		if !ok {
 			// This is a signal that pulling did not work so don't attempt
 			// to push here.
 			continue
 		}
 
+		if parts, ok := current[uuid]; ok && u.sameBlob(parts) {
+			continue
+		}
+
 		entry := u.store.Snapshot[uuid]
+		if entry[blobformat.KeyURL] != uri {
+			// What's there now has not been pulled
+			continue
+		}
 		name, _ := entry[blobformat.KeyName]
 
 		infoColor.Println("push:", name)
@@ -200,9 +225,28 @@ Syncs:
 	return nil
 }
 
+// sameBlob checks that a remote has the same log as we do and that it's
+// encrypted with the same credentials.
+func (u *uiContext) sameBlob(r blobParts) bool {
+	if !txlogs.SameLog(r.Log, u.store.DB.Log) {
+		return false
+	}
+
+	if len(u.master) == 0 && len(r.Params.Master) == 0 {
+		return bytes.Equal(u.key, r.Params.Keys[r.Params.User])
+	}
+
+	return bytes.Equal(u.master, r.Params.Master)
+}
+
 func saveHosts(store *txlogs.DB, newHosts map[string]string) error {
 	for uuid, hostentry := range newHosts {
-		entry := store.Snapshot[uuid]
+		entry, ok := store.Snapshot[uuid]
+		if !ok {
+			// Deleted by the merge
+			continue
+		}
+
 		hosts := entry[blobformat.KeyKnownHosts]
 		if len(hosts) == 0 {
 			store.Set(uuid, blobformat.KeyKnownHosts, hostentry)
diff --git a/uicontext.go b/uicontext.go
index 36b2c6a..87f7cb4 100644
--- a/uicontext.go
+++ b/uicontext.go
@@ -110,13 +110,17 @@ func isFileUser(blob blobformat.Blob) bool {
 
 // fileUsers are the users that can open the file
 func (u *uiContext) fileUsers() (blobformat.SearchResults, error) {
-	users, err := u.store.Users()
+	return fileUsers(u.store)
+}
+
+func fileUsers(store blobformat.Blobs) (blobformat.SearchResults, error) {
+	users, err := store.Users()
 	if err != nil {
 		return nil, err
 	}
 
 	for uuid := range users {
-		blob, err := u.store.MustFind(uuid)
+		blob, err := store.MustFind(uuid)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 1bf8b5c4f0a8c3299a548aa0e7eec5f415beeccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 44/61] fix: keep credentials that fit the merged users when
 synchronizing

---
 merging.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/merging.go b/merging.go
index 0a13297..428754a 100644
--- a/merging.go
+++ b/merging.go
@@ -209,6 +209,31 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, merges []bool
 					}
 				}
 			}
+		} else if len(m.Master) != 0 {
+			// The remote may have changed the passphrase of the current user,
+			// or removed them. What opened the remote opens the merged file.
+			userUUID, localUser, err := localStore.FindUser(m.User)
+			if err != nil {
+				skip(r, err)
+				continue
+			}
+
+			mergedUser, err := mergedStore.Find(userUUID)
+			if err != nil {
+				skip(r, err)
+				continue
+			}
+
+			takeRemoteCreds = localUser[blobformat.KeyMKey] != mergedUser[blobformat.KeyMKey]
+		}
+
+		winner, master := localStore, m.Master
+		if takeRemoteCreds {
+			winner, master = remoteStore, r.Params.Master
+		}
+		if len(master) != 0 && len(users) == 0 {
+			skip(r, errors.New("there would be no users left"))
+			continue
 		}
 
 		if takeRemoteCreds {
@@ -218,6 +243,14 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, merges []bool
 			m.Master, m.IVM = r.Params.Master, r.Params.IVM
 		}
 
+		// The current user could have been renamed by the other side
+		if len(m.Master) != 0 {
+			userUUID, _, err := winner.FindUser(m.User)
+			if err == nil && len(users[userUUID]) != 0 {
+				m.User = blobformat.SplitUsername(users[userUUID])
+			}
+		}
+
 		m.Log = merged
 		merges[i] = true
 	}
-- 
2.43.0


From 1e731600cabd21177040e327f95d0376c9fc6b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 45/61] fix: pull and push report broken remotes, file remotes
 are replaced in one step

---
 merging.go |  2 +-
 sync.go    | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/merging.go b/merging.go
index 428754a..990cc54 100644
--- a/merging.go
+++ b/merging.go
@@ -61,7 +61,7 @@ type mergeResult struct {
 //    is in use
 //
 // A remote that cannot be merged, or that the user declines to merge, is left
-// out of the result, merged tells which remotes are part of it.
+// out of the result, merges tells which remotes are part of it.
 func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, merges []bool) {
 	// Copy everything into a temp to abort at any time without damaging
 	// our current stuff
diff --git a/sync.go b/sync.go
index 8fe7862..8577edd 100644
--- a/sync.go
+++ b/sync.go
@@ -201,7 +201,8 @@ Syncs:
 
 		entry := u.store.Snapshot[uuid]
 		if entry[blobformat.KeyURL] != uri {
-			// What's there now has not been pulled
+			// There may be something else, it would have to be pulled first
+			infoColor.Printf("skip: %s (it was changed, sync again)\n", entry[blobformat.KeyName])
 			continue
 		}
 		name, _ := entry[blobformat.KeyName]
@@ -305,8 +306,11 @@ func collectSyncs(store blobformat.Blobs) ([]string, error) {
 // pullBlob tries to download a file from the given sync entry
 func pullBlob(u *uiContext, uuid string) (ct []byte, hostentry string, err error) {
 	entry := u.store.Snapshot[uuid]
-	// We know this parses because we parsed it once before
-	uri, _ := url.Parse(entry[blobformat.KeyURL])
+	// A sync entry that's been asked for by name has not been checked yet
+	uri, err := url.Parse(entry[blobformat.KeyURL])
+	if err != nil {
+		return nil, "", err
+	}
 
 	switch uri.Scheme {
 	case syncSCP:
@@ -320,6 +324,8 @@ func pullBlob(u *uiContext, uuid string) (ct []byte, hostentry string, err error
 		if os.IsNotExist(err) {
 			return nil, "", errNotFound
 		}
+	default:
+		err = fmt.Errorf("%q is not a supported sync kind", uri.Scheme)
 	}
 
 	if err != nil {
@@ -332,14 +338,17 @@ func pullBlob(u *uiContext, uuid string) (ct []byte, hostentry string, err error
 // pushBlob uploads a file to a given sync entry
 func pushBlob(u *uiContext, uuid string, payload []byte) (hostentry string, err error) {
 	entry := u.store.Snapshot[uuid]
-	uri, _ := url.Parse(entry[blobformat.KeyURL])
+	uri, err := url.Parse(entry[blobformat.KeyURL])
+	if err != nil {
+		return "", err
+	}
 
 	switch uri.Scheme {
 	case syncSCP:
 		hostentry, err = sshPush(u, entry, payload)
 	case syncFile:
 		path := filepath.FromSlash(uri.Path)
-		err = ioutil.WriteFile(path, payload, 0600)
+		err = writeFile(path, payload, 0600)
 	}
 
 	return hostentry, err
-- 
2.43.0


From 55ce026c532c4e48d94076e1e0c4bb2bfbe11ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 46/61] fix: an scp url without a path is an error, without a
 port it is port 22

---
 sync.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index 8577edd..e223fd3 100644
--- a/sync.go
+++ b/sync.go
@@ -428,7 +428,10 @@ func sshConfig(entry txlogs.Entry) (address, path string, config *ssh.ClientConf
 	user := uri.User.Username()
 	pass, _ := uri.User.Password()
 	secretKey := entry[blobformat.KeyPriv]
-	path = uri.Path[1:]
+	path = strings.TrimPrefix(uri.Path, "/")
+	if len(port) == 0 {
+		port = "22"
+	}
 
 	if len(user) == 0 {
 		return "", "", nil, errors.New("url missing user")
-- 
2.43.0


From cf739f0fa7c88a287a23f86155982bb74fe30931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 47/61] fix: changes that leave the log as long as it was are
 synchronized at exit

---
 main.go      | 4 ++--
 uicontext.go | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 98f6f73..f8bc1ed 100644
--- a/main.go
+++ b/main.go
@@ -107,7 +107,7 @@ func main() {
 			goto Exit
 		}
 
-		wrote := ctx.startTx != len(ctx.store.DB.Log)
+		wrote := !txlogs.SameLog(ctx.startLog, ctx.store.DB.Log)
 		if wrote && !ctx.readOnly && !flagNoAutoSync {
 			if err = ctx.sync("", true, true); err != nil {
 				fmt.Println("failed to synchronize:", err)
@@ -249,7 +249,7 @@ func (u *uiContext) loadBlob() error {
 	}
 
 	// Save this to know if we've actually edited the database in some way
-	u.startTx = len(u.store.DB.Log)
+	u.startLog = append([]txlogs.Tx(nil), u.store.DB.Log...)
 
 	return nil
 }
diff --git a/uicontext.go b/uicontext.go
index 87f7cb4..ce9e71a 100644
--- a/uicontext.go
+++ b/uicontext.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/aarondl/bpass/blobformat"
 	"github.com/aarondl/bpass/crypt"
+	"github.com/aarondl/bpass/txlogs"
 )
 
 type uiContext struct {
@@ -18,7 +19,7 @@ type uiContext struct {
 
 	created  bool
 	readOnly bool
-	startTx  int
+	startLog []txlogs.Tx
 
 	filename      string
 	shortFilename string
-- 
2.43.0


From a4ea737e4927c3f8d83d001a5e08ec398344dc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 48/61] fix: users that others do not know can synchronize, two
 users of one name cannot be merged

---
 merging.go | 20 ++++++++++++++++++++
 sync.go    | 15 +++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/merging.go b/merging.go
index 990cc54..a4cf8a0 100644
--- a/merging.go
+++ b/merging.go
@@ -3,6 +3,7 @@ package main
 import (
 	"bytes"
 	"errors"
+	"fmt"
 	"time"
 
 	"github.com/aarondl/bpass/blobformat"
@@ -97,6 +98,12 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, merges []bool
 			continue
 		}
 
+		if name := duplicateUser(users); len(name) != 0 {
+			// The file knows its users by their name only
+			skip(r, fmt.Errorf("both sides have added a user %q, rename one of them", name))
+			continue
+		}
+
 		if len(m.Master) == 0 && len(r.Params.Master) == 0 {
 			if !bytes.Equal(m.Key, r.Params.Keys[r.Params.User]) {
 				// Key has changed
@@ -258,6 +265,19 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, merges []bool
 	return m, merges
 }
 
+// duplicateUser returns a name that is used by more than one of the users
+func duplicateUser(users blobformat.SearchResults) string {
+	seen := make(map[string]bool)
+	for _, name := range users {
+		if seen[name] {
+			return name
+		}
+		seen[name] = true
+	}
+
+	return ""
+}
+
 var syncNoCommonAncestryWarning = `WARNING: There is no common ancestry between
 the local and the remote file. What this probably means is that the wrong
 file is in the sync location, and proceeding would mean that both files become
diff --git a/sync.go b/sync.go
index e223fd3..8eadb0d 100644
--- a/sync.go
+++ b/sync.go
@@ -357,6 +357,7 @@ func pushBlob(u *uiContext, uuid string, payload []byte) (hostentry string, err
 func decryptBlob(u *uiContext, name string, ct []byte) (params crypt.Params, creds credentials, pt []byte, err error) {
 	creds.User, creds.Pass = u.user, u.pass
 	creds.Key, creds.Salt = u.key, u.salt
+	gaveUser := false
 	for {
 		// Decrypt payload with our loaded key
 		_, params, pt, err = crypt.Decrypt([]byte(creds.User), []byte(creds.Pass), creds.Key, creds.Salt, ct)
@@ -372,7 +373,21 @@ func decryptBlob(u *uiContext, name string, ct []byte) (params crypt.Params, cre
 			if err != nil {
 				return params, creds, nil, nil
 			}
+			gaveUser = true
 		case crypt.ErrWrongPassphrase:
+			// It could also be the user that's not known to the remote
+			multi, _ := crypt.IsMultiUser(ct)
+			if multi && !gaveUser {
+				user, err := u.prompt(promptColor.Sprintf("%s user (%s): ", name, creds.User))
+				if err != nil {
+					return params, creds, nil, nil
+				}
+				if len(user) != 0 {
+					creds.User = user
+				}
+			}
+			gaveUser = false
+
 			creds.Pass, err = u.promptPassword(promptColor.Sprintf("%s passphrase: ", name))
 			if err != nil || len(creds.Pass) == 0 {
 				return params, creds, nil, nil
-- 
2.43.0


From 6d25daa0134715cbc50addc85b83b0aa7fa8c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 49/61] fix: scp transfers follow the protocol to the end

Every answer of the other side is awaited and its errors are reported, file
names are quoted for the remote shell and may have spaces, negative, huge and
unbounded lengths and lines neither crash nor use up the memory.
---
 scpsync/scpsync.go | 133 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 105 insertions(+), 28 deletions(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 166f023..a9ec67a 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -35,7 +35,9 @@
 //
 // And the way it works in sink mode (-t):
 //
+//  scp -t: 0
 //  client: Cmmmm <length> <filename>\n
+//  scp -t: 0
 //  client: DATA (length bytes)
 //  client: 0
 //  scp -t: 0
@@ -49,6 +51,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -95,9 +98,14 @@ func Recv(hostport string, config *ssh.ClientConfig, filename string) (content [
 		return nil, err
 	}
 
-	stream := readWriter{Reader: read, Writer: write}
+	// Buffered only once so nothing that follows the file gets lost
+	stream := readWriter{Reader: bufio.NewReader(read), Writer: write}
 
-	if err = session.Start("scp -qf " + filename); err != nil {
+	quoted, err := quote(filename)
+	if err != nil {
+		return nil, err
+	}
+	if err = session.Start("scp -qf " + quoted); err != nil {
 		return nil, err
 	}
 
@@ -111,6 +119,10 @@ func Recv(hostport string, config *ssh.ClientConfig, filename string) (content [
 		return nil, fmt.Errorf("failed to close write stream: %w", err)
 	}
 
+	if err = expectEnd(stream); err != nil {
+		return nil, err
+	}
+
 	if err = session.Wait(); err != nil {
 		return nil, fmt.Errorf("failed to wait for scp: %w", err)
 	}
@@ -155,8 +167,12 @@ func Send(hostport string, config *ssh.ClientConfig, filename string, mode int,
 		return err
 	}
 
-	stream := readWriter{Reader: read, Writer: write}
-	if err = session.Start("scp -qt " + filename); err != nil {
+	stream := readWriter{Reader: bufio.NewReader(read), Writer: write}
+	quoted, err := quote(filename)
+	if err != nil {
+		return err
+	}
+	if err = session.Start("scp -qt " + quoted); err != nil {
 		return err
 	}
 
@@ -169,6 +185,10 @@ func Send(hostport string, config *ssh.ClientConfig, filename string, mode int,
 		return err
 	}
 
+	if err = expectEnd(stream); err != nil {
+		return err
+	}
+
 	if err = session.Wait(); err != nil {
 		return fmt.Errorf("failed to wait for scp: %w", err)
 	}
@@ -200,11 +220,23 @@ func (e Err) Error() string {
 }
 
 func sendFile(stream io.ReadWriter, file io.Reader, filename string, ln int64, mode int) error {
+	// Read all the responses in the same way, there may be more than one in
+	// the stream already
+	reader := buffered(stream)
+
+	// The first response says that the other side is ready
+	if err := readResponse(reader); err != nil {
+		return err
+	}
+
 	// Send header
-	_, err := fmt.Fprintf(stream, "C0%o %d %s\n", mode, ln, filepath.Base(filename))
+	_, err := fmt.Fprintf(stream, "C%04o %d %s\n", mode, ln, filepath.Base(filename))
 	if err != nil {
 		return fmt.Errorf("failed to send create message: %w", err)
 	}
+	if err := readResponse(reader); err != nil {
+		return err
+	}
 
 	// Copy the data
 	n, err := io.Copy(stream, file)
@@ -219,7 +251,7 @@ func sendFile(stream io.ReadWriter, file io.Reader, filename string, ln int64, m
 		return err
 	}
 
-	return readResponse(stream)
+	return readResponse(reader)
 }
 
 func readFile(stream io.ReadWriter) (file scpFile, err error) {
@@ -228,8 +260,9 @@ func readFile(stream io.ReadWriter) (file scpFile, err error) {
 		return file, err
 	}
 
-	reader := bufio.NewReader(stream)
-	str, err := reader.ReadString('\n')
+	reader := buffered(stream)
+	line, err := reader.ReadSlice('\n')
+	str := string(line)
 	if err != nil {
 		return file, fmt.Errorf("failed to read intitial file header: %w", err)
 	} else if len(str) == 0 {
@@ -247,7 +280,8 @@ func readFile(stream io.ReadWriter) (file scpFile, err error) {
 
 	str = str[1:]
 
-	fields := strings.Fields(str)
+	// The name can have spaces
+	fields := strings.SplitN(strings.TrimSuffix(str, "\n"), " ", 3)
 	if len(fields) != 3 {
 		return file, fmt.Errorf("protocol demands 3 fields, got %d", len(fields))
 	}
@@ -260,6 +294,8 @@ func readFile(stream io.ReadWriter) (file scpFile, err error) {
 	length, err := strconv.ParseInt(fields[1], 10, 32)
 	if err != nil {
 		return file, fmt.Errorf("failed to parse the length: %q (%w)", fields[1], err)
+	} else if length < 0 {
+		return file, fmt.Errorf("length is negative: %d", length)
 	}
 
 	// Acknowledge we've received the initial header
@@ -267,11 +303,12 @@ func readFile(stream io.ReadWriter) (file scpFile, err error) {
 		return file, err
 	}
 
-	file.Contents = make([]byte, length+1)
-	if n, err := io.ReadFull(reader, file.Contents); err != nil {
+	// Grow with what arrives, the length may be anything
+	file.Contents, err = ioutil.ReadAll(io.LimitReader(reader, length+1))
+	if err != nil {
 		return file, err
-	} else if int64(n) != length+1 {
-		return file, fmt.Errorf("short read, want %d bytes but got %d", length+1, n)
+	} else if int64(len(file.Contents)) != length+1 {
+		return file, fmt.Errorf("short read, want %d bytes but got %d", length+1, len(file.Contents))
 	}
 
 	if file.Contents[len(file.Contents)-1] != 0 {
@@ -297,29 +334,69 @@ func sendOKResponse(stream io.Writer) error {
 	return err
 }
 
-func readResponse(stream io.Reader) error {
-	// Get the response
-	response := make([]byte, 256)
-	nRead, err := stream.Read(response)
+func readResponse(reader *bufio.Reader) error {
+	code, err := reader.ReadByte()
 	if err != nil {
-		return err
-	} else if nRead == 0 {
-		return errors.New("failed to read a response byte")
+		return fmt.Errorf("failed to read a response byte: %w", err)
 	}
 
-	switch response[0] {
+	switch code {
 	case 0:
 		return nil
 	case 1, 2:
-		var e Err
-		if nRead > 2 {
-			e.Msg = string(response[1:nRead])
-		}
-		e.Code = int(response[0])
-		return e
+		// The code is what matters, the message may be missing or broken
+		msg, _ := reader.ReadSlice('\n')
+		return Err{Code: int(code), Msg: strings.TrimSuffix(string(msg), "\n")}
 	default:
-		return fmt.Errorf("unknown response from scp: %x", response[:nRead])
+		return fmt.Errorf("unknown response from scp: %x", code)
+	}
+}
+
+// buffered reader of a stream, all that it has read ahead remains available to
+// later ones if the stream's reader is one already.
+func buffered(stream io.Reader) *bufio.Reader {
+	if rw, ok := stream.(readWriter); ok {
+		stream = rw.Reader
+	}
+
+	return bufio.NewReader(stream)
+}
+
+// expectEnd ensures that the other side has nothing more to say, it may be an
+// error.
+func expectEnd(stream io.Reader) error {
+	reader := buffered(stream)
+	if _, err := reader.Peek(1); err == io.EOF {
+		return nil
+	} else if err != nil {
+		return err
+	}
+
+	if err := readResponse(reader); err != nil {
+		return err
+	}
+
+	return errors.New("protocol error, there is more after the end")
+}
+
+// quote a filename for the shell on the other side, which sees neither an
+// option nor anything special in it. The home directory can be used.
+func quote(filename string) (string, error) {
+	if strings.ContainsAny(filename, "\n\x00") {
+		return "", fmt.Errorf("file name %q cannot be used", filename)
 	}
+
+	if strings.HasPrefix(filename, "~/") {
+		return "~/" + quoteChars(filename[2:]), nil
+	} else if strings.HasPrefix(filename, "-") {
+		filename = "./" + filename
+	}
+
+	return quoteChars(filename), nil
+}
+
+func quoteChars(str string) string {
+	return "'" + strings.ReplaceAll(str, "'", `'\''`) + "'"
 }
 
 // IsNotFoundErr checks to see if the error was a file not found error
-- 
2.43.0


From 5344f0395a8512f8f133396f062e58db8c743e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 50/61] fix: broken known hosts lines and servers that end
 early are handled

---
 scpsync/scpsync.go | 11 +++++++----
 sync.go            |  6 +++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index a9ec67a..ac7935e 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -52,6 +52,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"net"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -75,7 +76,7 @@ func Recv(hostport string, config *ssh.ClientConfig, filename string) (content [
 	// Make sure we close the client connection
 	defer func() {
 		closeErr := client.Close()
-		if closeErr != nil {
+		if closeErr != nil && !errors.Is(closeErr, net.ErrClosed) {
 			if err != nil {
 				err = fmt.Errorf("%w, and failed to close ssh connection: %w", err, closeErr)
 			} else {
@@ -115,7 +116,8 @@ func Recv(hostport string, config *ssh.ClientConfig, filename string) (content [
 		return nil, err
 	}
 
-	if err = write.Close(); err != nil {
+	// The other side may be done already, how it ended is seen below
+	if err = write.Close(); err != nil && err != io.EOF {
 		return nil, fmt.Errorf("failed to close write stream: %w", err)
 	}
 
@@ -144,7 +146,7 @@ func Send(hostport string, config *ssh.ClientConfig, filename string, mode int,
 	// Make sure we close the client connection
 	defer func() {
 		closeErr := client.Close()
-		if closeErr != nil {
+		if closeErr != nil && !errors.Is(closeErr, net.ErrClosed) {
 			if err != nil {
 				err = fmt.Errorf("%w, and failed to close ssh connection: %w", err, closeErr)
 			} else {
@@ -181,7 +183,8 @@ func Send(hostport string, config *ssh.ClientConfig, filename string, mode int,
 		return err
 	}
 
-	if err = write.Close(); err != nil {
+	// The other side may be done already, how it ended is seen below
+	if err = write.Close(); err != nil && err != io.EOF {
 		return err
 	}
 
diff --git a/sync.go b/sync.go
index 8eadb0d..e6b1334 100644
--- a/sync.go
+++ b/sync.go
@@ -426,7 +426,7 @@ func sshPush(u *uiContext, entry txlogs.Entry, ct []byte) (hostentry string, err
 
 	err = scpsync.Send(address, config, path, 0600, ct)
 	if err != nil {
-		return "", err
+		return asker.newHost, err
 	}
 
 	return asker.newHost, nil
@@ -501,6 +501,10 @@ func (h *hostAsker) callback(hostname string, remote net.Addr, key ssh.PublicKey
 			continue
 		}
 
+		if len(vals) < 4 {
+			return errors.New("known host's line is malformed, cannot verify its key")
+		}
+
 		// Same host, double check key is same
 		if vals[2] != keyType {
 			return errors.New("known host's key type has changed, could be a mitm attack")
-- 
2.43.0


From 47a0b81eaeacee63b0c6828cd70b4fa208c64361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 51/61] fix: lastpass import leaves out the header line, error
 output and does not write to read-only files

---
 import.go | 19 ++++++++++++++++---
 main.go   |  4 ++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/import.go b/import.go
index ef60100..9acd4a7 100644
--- a/import.go
+++ b/import.go
@@ -4,7 +4,9 @@ import (
 	"bytes"
 	"encoding/csv"
 	"errors"
+	"fmt"
 	"io"
+	"os"
 	"os/exec"
 	"strings"
 
@@ -12,6 +14,10 @@ import (
 )
 
 func importLastpass(u *uiContext) error {
+	if u.readOnly {
+		return errors.New("cannot import into a file opened read-only")
+	}
+
 	if !u.created {
 		infoColor.Println("this is not a new file")
 		infoColor.Println("are you sure you wish to import into it?")
@@ -31,9 +37,11 @@ func importLastpass(u *uiContext) error {
 
 	// get data from lpass command line client
 	lpassCmd := exec.Command("lpass", "export", "--color=never")
-	out, err := lpassCmd.CombinedOutput()
+	// Anything on stderr is for the user and not part of the csv
+	lpassCmd.Stderr = os.Stderr
+	out, err := lpassCmd.Output()
 	if err != nil {
-		return err
+		return fmt.Errorf("failed to run lpass export: %w", err)
 	}
 
 	reader := csv.NewReader(bytes.NewReader(out))
@@ -41,8 +49,10 @@ func importLastpass(u *uiContext) error {
 	for i := 0; ; i++ {
 		record, err := reader.Read()
 		if err != nil {
-			if err == io.EOF {
+			if err == io.EOF && i != 0 {
 				break
+			} else if err == io.EOF {
+				return errors.New("lastpass csv is empty")
 			}
 			return err
 		}
@@ -51,6 +61,9 @@ func importLastpass(u *uiContext) error {
 			if strings.Join(record, ",") != "url,username,password,extra,name,grouping,fav" {
 				return errors.New("lastpass csv format not recognized")
 			}
+
+			// The header is not an entry
+			continue
 		}
 
 		// Fields:
diff --git a/main.go b/main.go
index f8bc1ed..8ac0d48 100644
--- a/main.go
+++ b/main.go
@@ -82,12 +82,12 @@ func main() {
 	switch {
 	case lpassImportCmd.Used:
 		if err = importLastpass(ctx); err != nil {
-			fmt.Printf("error occurred: %+v\nexiting without saving", err)
+			fmt.Printf("error occurred: %+v\nexiting without saving\n", err)
 			goto Exit
 		}
 	case exportCmd.Used:
 		if err = export(ctx); err != nil {
-			fmt.Printf("error occurred: %+v\nexiting without saving", err)
+			fmt.Printf("error occurred: %+v\nexiting without saving\n", err)
 			goto Exit
 		}
 	default:
-- 
2.43.0


From cee1cb3e44a9eb8cfa05a59f8684f1438fa6a6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 52/61] fix: export sees the whole log, reports write errors
 and does not overwrite the file itself

---
 export.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index 385f189..cdbcb1f 100644
--- a/export.go
+++ b/export.go
@@ -10,7 +10,11 @@ import (
 	"golang.org/x/exp/slices"
 )
 
-func export(u *uiContext) error {
+func export(u *uiContext) (err error) {
+	if err = u.store.UpdateSnapshot(); err != nil {
+		return err
+	}
+
 	var entries []string
 	keysSet := make(map[string]struct{})
 
@@ -29,11 +33,22 @@ func export(u *uiContext) error {
 		return errors.New("only supported format for export is csv")
 	}
 
+	// It'd be overwritten when saving
+	if info, err := os.Stat(flagExportFilename); err == nil {
+		if file, err := os.Stat(flagFile); err == nil && os.SameFile(info, file) {
+			return errors.New("cannot export into the file itself")
+		}
+	}
+
 	f, err := os.Create(flagExportFilename)
 	if err != nil {
 		return fmt.Errorf("failed to create file (%s): %w", flagExportFilename, err)
 	}
-	defer f.Close()
+	defer func() {
+		if closeErr := f.Close(); closeErr != nil && err == nil {
+			err = fmt.Errorf("failed to close csv file: %w", closeErr)
+		}
+	}()
 	out := csv.NewWriter(f)
 
 	out.Write(keys)
-- 
2.43.0


From d82e7e88e541317bc2a61d38315f13344e112f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 53/61] fix: the clipboard is cleared when a signal ends the
 program, login works in read-only files

---
 commands.go  |  4 ++--
 main.go      | 66 +++++++++++++++++++++++++++++++++++++++++++++++-----
 repl.go      |  1 +
 uicontext.go |  4 ++++
 4 files changed, 67 insertions(+), 8 deletions(-)

diff --git a/commands.go b/commands.go
index 5a4687b..65dc9c3 100644
--- a/commands.go
+++ b/commands.go
@@ -770,7 +770,7 @@ func (u *uiContext) get(search, key string, index int, copy bool) error {
 	default:
 		value, ok := blob[key]
 		if !ok {
-			errColor.Printf("%s.%s is not set", blob.Name(), key)
+			errColor.Printf("%s.%s is not set\n", blob.Name(), key)
 			return nil
 		}
 
@@ -1335,7 +1335,7 @@ func validateLabel(labels []string, label string) bool {
 func copyToClipboard(kind string, txt string) {
 	err := clipboard.WriteAll(txt)
 	if err != nil {
-		errColor.Printf("Failed to copy %s to clipboard", kind)
+		errColor.Printf("Failed to copy %s to clipboard\n", kind)
 		return
 	}
 
diff --git a/main.go b/main.go
index 8ac0d48..c57699f 100644
--- a/main.go
+++ b/main.go
@@ -5,8 +5,10 @@ import (
 	"fmt"
 	"io/ioutil"
 	"os"
+	"os/signal"
 	"path/filepath"
 	"strings"
+	"syscall"
 	"time"
 
 	"github.com/aarondl/bpass/blobformat"
@@ -51,7 +53,7 @@ func main() {
 	// to use from above
 	if err = setupLineEditor(ctx); err != nil {
 		fmt.Printf("failed to setup line editor: %+v\n", err)
-		goto Exit
+		os.Exit(1)
 	}
 
 	if genCmd.Used {
@@ -72,6 +74,7 @@ func main() {
 	}
 	ctx.shortFilename = shortPath(ctx.filename)
 	r = repl{ctx: ctx}
+	exitOnSignal(ctx)
 
 	// loadBlob uses readline and the filenames to load the blob
 	if err = ctx.loadBlob(); err != nil {
@@ -123,11 +126,7 @@ func main() {
 	}
 
 Exit:
-	if !flagNoClearClip {
-		if clipErr := clipboard.WriteAll(""); clipErr != nil {
-			fmt.Println("failed to clear the clipboard")
-		}
-	}
+	clearClipboard()
 
 	if closeErr := ctx.in.Close(); closeErr != nil {
 		fmt.Println("failed to close terminal properly:", closeErr)
@@ -141,6 +140,61 @@ Exit:
 	}
 }
 
+func clearClipboard() {
+	if flagNoClearClip {
+		return
+	}
+
+	if err := clipboard.WriteAll(""); err != nil {
+		fmt.Println("failed to clear the clipboard")
+	}
+}
+
+// exitOnSignal ends the program without saving when it's told to, but not
+// without clearing the clipboard.
+func exitOnSignal(u *uiContext) {
+	signals := make(chan os.Signal, 1)
+	for _, sig := range []os.Signal{syscall.SIGTERM, syscall.SIGHUP} {
+		if !signal.Ignored(sig) {
+			signal.Notify(signals, sig)
+		}
+	}
+	u.interrupts = make(chan os.Signal, 1)
+	if !signal.Ignored(os.Interrupt) {
+		signal.Notify(u.interrupts, os.Interrupt)
+	}
+
+	go func() {
+		select {
+		case <-signals:
+		case <-u.interrupts:
+		}
+
+		clearClipboard()
+		if err := u.in.Close(); err != nil {
+			fmt.Println("failed to close terminal properly:", err)
+		}
+		os.Exit(1)
+	}()
+}
+
+// withoutInterrupts runs something that handles them by itself
+func (u *uiContext) withoutInterrupts(run func() error) error {
+	if signal.Ignored(os.Interrupt) {
+		return run()
+	}
+
+	ignored := make(chan os.Signal, 1)
+	signal.Notify(ignored, os.Interrupt)
+	signal.Stop(u.interrupts)
+
+	err := run()
+
+	signal.Stop(ignored)
+	signal.Notify(u.interrupts, os.Interrupt)
+	return err
+}
+
 func (u *uiContext) loadBlob() error {
 	// Check the file exists and it's a file
 	check, err := os.Stat(flagFile)
diff --git a/repl.go b/repl.go
index 23015a5..4742c65 100644
--- a/repl.go
+++ b/repl.go
@@ -360,6 +360,7 @@ var replCmds = map[string]replCmd{
 	blobformat.KeyTwoFactor: {ReadOnly: true, Run: quickCopy},
 
 	"login": {
+		ReadOnly: true,
 		Run: func(r *repl, cmd string, args []string) error {
 			name := r.ctxEntry
 			if len(args) >= 1 {
diff --git a/uicontext.go b/uicontext.go
index ce9e71a..0d489d6 100644
--- a/uicontext.go
+++ b/uicontext.go
@@ -5,6 +5,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"io"
+	"os"
 
 	"github.com/aarondl/bpass/blobformat"
 	"github.com/aarondl/bpass/crypt"
@@ -21,6 +22,9 @@ type uiContext struct {
 	readOnly bool
 	startLog []txlogs.Tx
 
+	// Interrupts end the program
+	interrupts chan os.Signal
+
 	filename      string
 	shortFilename string
 
-- 
2.43.0


From 2e98c4f03123ffbc161b798cff58a587596e93e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 54/61] fix: edit wipes all of the temporary file and survives
 failing editors and interrupts

---
 commands.go | 117 ++++++++++++++++++++++++++++------------------------
 1 file changed, 63 insertions(+), 54 deletions(-)

diff --git a/commands.go b/commands.go
index 65dc9c3..c7ac202 100644
--- a/commands.go
+++ b/commands.go
@@ -9,6 +9,7 @@ import (
 	"encoding/hex"
 	"encoding/json"
 	"encoding/pem"
+	"errors"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -928,89 +929,97 @@ func (u *uiContext) edit(search, key string) error {
 		return nil
 	}
 
-	// Close and delete the file at the end
+	// Wipe and delete the file at the end, what the editor left may be longer
+	// than the value, and it may have replaced or removed the file.
 	defer func() {
-		tmp.Close()
-		err = os.Remove(fname)
-		if err != nil {
-			errColor.Println("failed to remove tmp file:", fname)
-		}
-	}()
-
-	// Write the old value
-	oldValue := blob[key]
-	if len(oldValue) != 0 {
-		if _, err = io.WriteString(tmp, oldValue); err != nil {
-			errColor.Println("failed to write to tmp file")
-		}
-	}
-	maxLen := len(oldValue)
-
-	// At this point, we want to ensure that we wipe the file of any
-	// data that was inside it. So we write max(len(oldValue),len(newValue))
-	// bytes to the file before deletion.
-	defer func() {
-		if maxLen == 0 {
-			return
+		if err := wipeFile(tmp); err != nil {
+			errColor.Println("failed to zero the tmp file:", err)
 		}
+		tmp.Close()
 
-		if _, err = tmp.Seek(0, os.SEEK_SET); err != nil {
-			errColor.Println("failed to seek in file:", err)
-			return
+		if edited, err := openTmp(fname); err == nil {
+			if err = wipeFile(edited); err != nil {
+				errColor.Println("failed to zero the tmp file:", err)
+			}
+			edited.Close()
 		}
 
-		if _, err = tmp.Write(make([]byte, maxLen)); err != nil {
-			errColor.Println("failed to zero the tmp file:", err)
+		if err := os.Remove(fname); err != nil && !os.IsNotExist(err) {
+			errColor.Println("failed to remove tmp file:", fname)
 		}
 	}()
 
-	if err = tmp.Close(); err != nil {
-		errColor.Println("failed to close file:", err)
+	// Write the old value
+	if _, err = io.WriteString(tmp, blob[key]); err != nil {
+		errColor.Println("failed to write to tmp file:", err)
 		return nil
 	}
 
-	// Run the editor for the OS and wait until it exits
-	editExit := 0
-	if err = osutil.RunEditor(fname); err != nil {
-		e, ok := err.(*exec.ExitError)
-		if !ok {
-			return err
-		}
-		editExit = e.ExitCode()
+	// Run the editor for the OS and wait until it exits, interrupts are for
+	// the editor and must not leave the file behind
+	err = u.withoutInterrupts(func() error { return osutil.RunEditor(fname) })
+	if e, ok := err.(*exec.ExitError); ok {
+		errColor.Printf("editor exit non-zero (%d), not saving value\n", e.ExitCode())
+		return nil
+	} else if err != nil {
+		errColor.Println("failed to run editor:", err)
+		return nil
 	}
 
-	tmp, err = os.OpenFile(fname, os.O_RDWR, 0600)
+	edited, err := openTmp(fname)
 	if err != nil {
 		errColor.Println("failed to open tmp file to edit value:", err)
 		return nil
 	}
-
-	if editExit != 0 {
-		errColor.Printf("editor exit non-zero (%d), not saving value\n", editExit)
-		return nil
-	}
-
-	newValue, err := ioutil.ReadAll(tmp)
+	newValue, err := ioutil.ReadAll(edited)
+	edited.Close()
 	if err != nil {
 		errColor.Println("failed to read from tmp file:", err)
 		return nil
 	}
 
-	if len(newValue) > maxLen {
-		maxLen = len(newValue)
-	}
-
 	if len(newValue) == 0 {
-		infoColor.Println("erasing value")
-		u.store.DeleteKey(uuid, key)
+		if err = u.store.DeleteKey(uuid, key); err == nil {
+			infoColor.Println("erasing value")
+		}
 	} else {
-		infoColor.Printf("set %s\n", key)
-		u.store.Set(uuid, key, string(newValue))
+		if err = u.store.Set(uuid, key, string(newValue)); err == nil {
+			infoColor.Printf("set %s\n", key)
+		}
+	}
+	if err != nil {
+		errColor.Println(err)
 	}
 
 	return nil
 }
 
+// openTmp opens what the editor left, never something else that it points to
+func openTmp(fname string) (*os.File, error) {
+	info, err := os.Lstat(fname)
+	if err != nil {
+		return nil, err
+	} else if !info.Mode().IsRegular() {
+		return nil, errors.New("not a regular file")
+	}
+
+	return os.OpenFile(fname, os.O_RDWR, 0600)
+}
+
+// wipeFile overwrites all that's in a file with zeroes
+func wipeFile(file *os.File) error {
+	info, err := file.Stat()
+	if err != nil {
+		return err
+	}
+
+	if _, err = file.WriteAt(make([]byte, info.Size()), 0); err != nil {
+		return err
+	}
+
+	return file.Sync()
+}
+
 func (u *uiContext) addLabels(search string) error {
 	uuid, err := u.findOne(search)
 	if err != nil {
-- 
2.43.0


From fca21ebbda3db8769b20e0a66256a8a91d9cc48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 55/61] fix: pinentry decodes all escapes and long passphrases,
 escapes the prompt and leaves no program running

---
 pinentry/pinentry.go | 53 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/pinentry/pinentry.go b/pinentry/pinentry.go
index d785262..1b31008 100644
--- a/pinentry/pinentry.go
+++ b/pinentry/pinentry.go
@@ -3,9 +3,11 @@ package pinentry
 
 import (
 	"bufio"
+	"encoding/hex"
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"os/exec"
 	"strings"
@@ -24,10 +26,10 @@ var (
 		"pinentry-tty",
 	}
 
-	pinEntryReplace = strings.NewReplacer(
-		"%25", "%",
-		"%0D", "\r",
-		"%0A", "\n",
+	pinEntryEscape = strings.NewReplacer(
+		"%", "%25",
+		"\r", "%0D",
+		"\n", "%0A",
 	)
 
 	cachedPinEntry string
@@ -79,10 +81,18 @@ func Password(prompt string) (password string, err error) {
 		return "", fmt.Errorf("failed to start pinentry: %w", err)
 	}
 
+	waited := false
 	defer func() {
 		if r := recover(); r != nil {
+			password = ""
 			err = fmt.Errorf("failed to communicate with pinentry: %v", r)
 		}
+
+		// Do not leave the program behind, it may have the terminal
+		if !waited {
+			cmd.Process.Kill()
+			cmd.Wait()
+		}
 	}()
 
 	scanner := bufio.NewScanner(out)
@@ -102,7 +112,7 @@ func Password(prompt string) (password string, err error) {
 
 	setup := []string{
 		fmt.Sprintf("SETTITLE %s\n", "Bpass password entry"),
-		fmt.Sprintf("SETDESC %s\n", prompt),
+		fmt.Sprintf("SETDESC %s\n", pinEntryEscape.Replace(prompt)),
 		fmt.Sprintf("OPTION lc-ctype %s\n", "UTF-8"),
 	}
 	if term := os.Getenv("TERM"); len(term) != 0 {
@@ -116,17 +126,20 @@ func Password(prompt string) (password string, err error) {
 		mustWrite(in.Write([]byte(s)))
 
 		if getLine() != "OK" {
-			return "", fmt.Errorf("failed setting option (%s): %w", s, err)
+			return "", fmt.Errorf("failed setting option (%s)", strings.TrimSpace(s))
 		}
 	}
 
 	mustWrite(fmt.Fprintln(in, "GETPIN"))
 
+	// Long passwords come in several data lines
+	var data strings.Builder
 	resp := getLine()
-	if strings.HasPrefix(resp, "D ") {
-		password = resp[2:]
+	for strings.HasPrefix(resp, "D ") {
+		data.WriteString(resp[2:])
 		resp = getLine()
-	} else if strings.HasPrefix(resp, "ERR") && strings.Contains(resp, "Operation cancelled") {
+	}
+	if data.Len() == 0 && strings.HasPrefix(resp, "ERR") && strings.Contains(resp, "Operation cancelled") {
 		return "", nil
 	}
 	if resp != "OK" {
@@ -134,12 +147,32 @@ func Password(prompt string) (password string, err error) {
 	}
 
 	mustWrite(fmt.Fprintln(in, "BYE"))
+	in.Close()
+	io.Copy(ioutil.Discard, out)
 
+	waited = true
 	if err = cmd.Wait(); err != nil {
 		return "", err
 	}
 
-	return pinEntryReplace.Replace(password), nil
+	return unescape(data.String()), nil
+}
+
+// unescape decodes all percent escapes
+func unescape(s string) string {
+	out := make([]byte, 0, len(s))
+	for i := 0; i < len(s); i++ {
+		if s[i] == '%' && i+2 < len(s) {
+			if b, err := hex.DecodeString(s[i+1 : i+3]); err == nil {
+				out = append(out, b[0])
+				i += 2
+				continue
+			}
+		}
+		out = append(out, s[i])
+	}
+
+	return string(out)
 }
 
 func mustWrite(_ int, err error) {
-- 
2.43.0


From 26b31ec83fbb38cd4bbab4ff57f3f023d8b53c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 56/61] fix: scp accounts keep absolute paths and refuse ports
 and hosts that cannot be used

---
 commands.go | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/commands.go b/commands.go
index c7ac202..cd2cf39 100644
--- a/commands.go
+++ b/commands.go
@@ -410,9 +410,21 @@ func addSCPEntry(u *uiContext, uuid string) (uri url.URL, err error) {
 		return uri, err
 	}
 
-	host, err := u.getString("host")
-	if err != nil {
-		return uri, err
+	host := ""
+	for {
+		host, err = u.getString("host")
+		if err != nil {
+			return uri, err
+		}
+
+		// It must come out of the url as it went in
+		parsed, err := url.Parse((&url.URL{Scheme: syncSCP, Host: net.JoinHostPort(host, "22")}).String())
+		if err != nil || parsed.Hostname() != host {
+			errColor.Println("not a valid host:", host)
+			continue
+		}
+
+		break
 	}
 
 	port := "22"
@@ -427,12 +439,13 @@ func addSCPEntry(u *uiContext, uuid string) (uri url.URL, err error) {
 			break
 		}
 
-		_, err = strconv.Atoi(port)
-		if err != nil {
-			errColor.Printf("port must be an integer between %d and %d\n", 1, int(math.MaxUint16)-1)
+		n, err := strconv.Atoi(port)
+		if err != nil || n < 1 || n > math.MaxUint16 {
+			errColor.Printf("port must be an integer between %d and %d\n", 1, math.MaxUint16)
 			continue
 		}
 
+		port = strconv.Itoa(n)
 		break
 	}
 
@@ -444,7 +457,9 @@ func addSCPEntry(u *uiContext, uuid string) (uri url.URL, err error) {
 	uri.Scheme = syncSCP
 	uri.User = url.User(user)
 	uri.Host = net.JoinHostPort(host, port)
-	uri.Path = file
+	// The first slash only separates the path from the host, an absolute path
+	// needs its own.
+	uri.Path = "/" + file
 
 	promptColor.Println("Key type:")
 	choice, err := u.getMenuChoice(promptColor.Sprint("> "), []string{"ED25519", "RSA 4096", "Password"})
@@ -457,13 +472,14 @@ func addSCPEntry(u *uiContext, uuid string) (uri url.URL, err error) {
 		pub, priv, err := ed25519.GenerateKey(rand.Reader)
 		if err != nil {
 			errColor.Println("failed to generate ed25519 ssh key")
-			return uri, nil
+			return uri, err
 		}
 
 		// Marshal private key into DER ASN.1 then to PEM
 		b, err := x509.MarshalPKCS8PrivateKey(priv)
 		if err != nil {
 			errColor.Println("failed to marshal ed25519 private key with x509:", err)
+			return uri, err
 		}
 		pemBlock := pem.Block{Type: "PRIVATE KEY", Bytes: b}
 		b = pem.EncodeToMemory(&pemBlock)
@@ -471,6 +487,7 @@ func addSCPEntry(u *uiContext, uuid string) (uri url.URL, err error) {
 		public, err := ssh.NewPublicKey(pub)
 		if err != nil {
 			errColor.Println("failed to parse public key:", err)
+			return uri, err
 		}
 		publicStr := string(bytes.TrimSpace(ssh.MarshalAuthorizedKey(public))) + " @bpass"
 
@@ -483,14 +500,14 @@ func addSCPEntry(u *uiContext, uuid string) (uri url.URL, err error) {
 		priv, err := rsa.GenerateKey(rand.Reader, 4096)
 		if err != nil {
 			errColor.Println("failed to generate rsa-4096 ssh key")
-			return uri, nil
+			return uri, err
 		}
 
 		// Marshal private key into DER ASN.1 then to PEM
 		b, err := x509.MarshalPKCS8PrivateKey(priv)
 		if err != nil {
 			errColor.Println("failed to marshal rsa private key with x509:", err)
-			return uri, nil
+			return uri, err
 		}
 		pemBlock := pem.Block{Type: "PRIVATE KEY", Bytes: b}
 		b = pem.EncodeToMemory(&pemBlock)
@@ -498,6 +515,7 @@ func addSCPEntry(u *uiContext, uuid string) (uri url.URL, err error) {
 		public, err := ssh.NewPublicKey(&priv.PublicKey)
 		if err != nil {
 			errColor.Println("failed to parse public key:", err)
+			return uri, err
 		}
 		publicStr := string(bytes.TrimSpace(ssh.MarshalAuthorizedKey(public))) + " @bpass"
 
-- 
2.43.0


From 287ad803dda9591ac85487b77e4aaca18b1a55ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:04 +0000
Subject: [PATCH 57/61] fix: a past time in the middle of an entry's creation
 does not crash

---
 main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/main.go b/main.go
index c57699f..6c5a2ef 100644
--- a/main.go
+++ b/main.go
@@ -300,6 +300,13 @@ func (u *uiContext) loadBlob() error {
 		if err := u.store.DB.UpdateSnapshot(); err != nil {
 			return err
 		}
+
+		// The moment may be in the middle of the creation of an entry
+		for uuid, entry := range u.store.Snapshot {
+			if _, ok := entry[blobformat.KeyName]; !ok {
+				delete(u.store.Snapshot, uuid)
+			}
+		}
 	}
 
 	// Save this to know if we've actually edited the database in some way
-- 
2.43.0


From 3bcb443e813097844e648d8979427196c7913165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:20 +0000
Subject: [PATCH 58/61] fix: passwords in urls that cannot be parsed are not
 printed

---
 commands.go | 3 ++-
 sync.go     | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/commands.go b/commands.go
index cd2cf39..130aacb 100644
--- a/commands.go
+++ b/commands.go
@@ -1289,7 +1289,8 @@ func (u *uiContext) openurl(search string) error {
 
 	_, err = url.Parse(link)
 	if err != nil {
-		errColor.Printf("url was not a valid url: %v\n", err)
+		// Without the details, a password may be in them
+		errColor.Printf("url of %s is not a valid url\n", blob.Name())
 		return nil
 	}
 
diff --git a/sync.go b/sync.go
index e6b1334..cfac329 100644
--- a/sync.go
+++ b/sync.go
@@ -39,6 +39,8 @@ type blobParts struct {
 
 var (
 	errNotFound = errors.New("not found")
+	// The details of a failure to parse a url may have the password in it
+	errBadURL = errors.New("url is not parseable")
 )
 
 func (u *uiContext) sync(name string, auto, push bool) error {
@@ -309,7 +311,7 @@ func pullBlob(u *uiContext, uuid string) (ct []byte, hostentry string, err error
 	// A sync entry that's been asked for by name has not been checked yet
 	uri, err := url.Parse(entry[blobformat.KeyURL])
 	if err != nil {
-		return nil, "", err
+		return nil, "", errBadURL
 	}
 
 	switch uri.Scheme {
@@ -340,7 +342,7 @@ func pushBlob(u *uiContext, uuid string, payload []byte) (hostentry string, err
 	entry := u.store.Snapshot[uuid]
 	uri, err := url.Parse(entry[blobformat.KeyURL])
 	if err != nil {
-		return "", err
+		return "", errBadURL
 	}
 
 	switch uri.Scheme {
@@ -435,7 +437,7 @@ func sshPush(u *uiContext, entry txlogs.Entry, ct []byte) (hostentry string, err
 func sshConfig(entry txlogs.Entry) (address, path string, config *ssh.ClientConfig, err error) {
 	uri, err := url.Parse(entry[blobformat.KeyURL])
 	if err != nil {
-		return "", "", nil, err
+		return "", "", nil, errBadURL
 	}
 
 	host := uri.Hostname()
-- 
2.43.0


From c50bd46fe566d5cc000bb2a5b9129fc85c01f724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:21 +0000
Subject: [PATCH 59/61] fix: exported secrets are only readable by their owner

---
 export.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export.go b/export.go
index cdbcb1f..aae7f97 100644
--- a/export.go
+++ b/export.go
@@ -40,7 +40,8 @@ func export(u *uiContext) (err error) {
 		}
 	}
 
-	f, err := os.Create(flagExportFilename)
+	// It has all secrets in plain text
+	f, err := os.OpenFile(flagExportFilename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return fmt.Errorf("failed to create file (%s): %w", flagExportFilename, err)
 	}
-- 
2.43.0


From 20ae6089401bfe80473085c5f06daccb8a00eb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 60/61] fix: the default file can be opened by name when $BPASS
 is set

---
 cli.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cli.go b/cli.go
index 0b97a9f..3ce65c9 100644
--- a/cli.go
+++ b/cli.go
@@ -40,6 +40,9 @@ func parseCli() {
 	if err == nil && len(homeDir) != 0 {
 		defaultFilePath = filepath.Join(homeDir, defaultFilePath)
 	}
+	if envFile := os.Getenv("BPASS"); len(envFile) != 0 {
+		defaultFilePath = envFile
+	}
 	flagFile = defaultFilePath
 
 	parser := flaggy.NewParser("bpass")
@@ -77,12 +80,6 @@ func parseCli() {
 	parser.AttachSubcommand(exportCmd, 1)
 	parser.Parse()
 
-	if flagFile == defaultFilePath {
-		envFile := os.Getenv("BPASS")
-		if len(envFile) != 0 {
-			flagFile = envFile
-		}
-	}
 	if len(flagTime) != 0 {
 		var err error
 		historyTime, err = time.Parse(historyLayout, flagTime)
-- 
2.43.0


From 2f23ea06e2e0e3070691bbf8947b9204d28c93d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:40 +0000
Subject: [PATCH 61/61] fix: leave out a remote whose credentials do not open
 the merged file

When the current user is removed by the remote, the session goes on with the
credentials that opened the remote. If that user's passphrase was changed on
this side the session had a passphrase that does not open the file, asked
again for it at every synchronisation, and a rekey silently put the old
passphrase back.
---
 merging.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/merging.go b/merging.go
index a4cf8a0..9dd8de8 100644
--- a/merging.go
+++ b/merging.go
@@ -243,6 +243,27 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, merges []bool
 			continue
 		}
 
+		if takeRemoteCreds && len(master) != 0 {
+			// What opened the remote becomes what this session is logged in
+			// with, so that user must still be as they are in the remote.
+			userUUID, remoteUser, err := remoteStore.FindUser(r.Creds.User)
+			if err != nil {
+				skip(r, err)
+				continue
+			}
+
+			mergedUser, err := mergedStore.Find(userUUID)
+			if err != nil {
+				skip(r, err)
+				continue
+			}
+
+			if mergedUser[blobformat.KeyMKey] != remoteUser[blobformat.KeyMKey] {
+				skip(r, fmt.Errorf("user %q was changed in this file, open it as another user", r.Creds.User))
+				continue
+			}
+		}
+
 		if takeRemoteCreds {
 			infoColor.Printf("local credentials updated from remote: %q\n", r.Name)
 			m.User, m.Pass = r.Creds.User, r.Creds.Pass
-- 
2.43.0

