From 72a490c8fff5c216a3d65bffce7341bd6bf07be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 01/56] fix: zkserver: reject tags outside of the tag window

The tag bitmap has tagDepth entries, tag == tagDepth crashed the server.
---
 zkserver/zkserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 1c8ff17..b9a4c19 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -447,7 +447,7 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 			return fmt.Errorf("unmarshal header failed")
 		}
 
-		if message.Tag > tagDepth {
+		if message.Tag >= tagDepth {
 			return fmt.Errorf("invalid tag received %v", message.Tag)
 		}
 
-- 
2.43.0


From 828398f92b3f43d224d9844fe152d2565df3c790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 02/56] fix: zkserver: reject acknowledge of a tag that is not
 in flight

Pushing a tag that was never handed out duplicates it, or blocks the session
for ever when the tag stack is full.
---
 zkserver/zkserver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index b9a4c19..5c8dc4b 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -521,6 +521,12 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 				rids,
 				message.Tag)
 
+			// a tag can only be returned once
+			if m == nil {
+				return fmt.Errorf("acknowledge for unused tag: "+
+					"%v %v", message.Tag, rids)
+			}
+
 			// sanity
 			if m != nil && m.Message.Tag != message.Tag {
 				return fmt.Errorf("acknowledge tag doesn't "+
-- 
2.43.0


From 7e3b63f75d5bc96706f592c55010b05683f547b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 03/56] fix: zkserver: always take a session offline when it
 ends

A directory failure returned with the account still marked online which locked
the user out, and an ending session removed the session that replaced it.
---
 zkserver/zkserver.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 5c8dc4b..11631eb 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -390,20 +390,7 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 
 	z.Dbg(idS, "handleSession account online: %v", rids)
 
-	// populate identity in directory
-	if z.settings.Directory {
-		err := z.account.Push(rid)
-		if err != nil {
-			return fmt.Errorf("handleSession: Push(%v) = %v",
-				rids, err)
-		}
-	}
-
-	tagBitmap := make([]bool, tagDepth) // see if there is a duplicate tag
-	go z.sessionWriter(&sc)
-	go z.sessionNtfn(&sc)
-
-	// wait for sessionWriter to exit
+	// undo all of the above no matter how we exit
 	defer func() {
 		// stop it all
 		close(sc.quit)
@@ -412,12 +399,27 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 
 		// mark session offline
 		z.Lock()
-		delete(z.sessions, rids)
+		if z.sessions[rids] == &sc {
+			delete(z.sessions, rids)
+		}
 		z.Unlock()
 
 		z.Dbg(idS, "handleSession exit: %v", rids)
 	}()
 
+	// populate identity in directory
+	if z.settings.Directory {
+		err := z.account.Push(rid)
+		if err != nil {
+			return fmt.Errorf("handleSession: Push(%v) = %v",
+				rids, err)
+		}
+	}
+
+	tagBitmap := make([]bool, tagDepth) // see if there is a duplicate tag
+	go z.sessionWriter(&sc)
+	go z.sessionNtfn(&sc)
+
 	for {
 		var message rpc.Message
 
-- 
2.43.0


From 6615c3af661954dab9b80d1542478f4e461908f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:01 +0000
Subject: [PATCH 04/56] fix: zkserver: do not block on a session that is gone

Once the writer of a session failed nobody drained its queue. The session then
blocked on a full queue with the account online for ever, and the notification
goroutine leaked on either the queue or on a tag that is never returned.
---
 tagstack/tagstack.go | 15 +++++++++++++++
 zkserver/zkserver.go | 18 ++++++++++++++++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/tagstack/tagstack.go b/tagstack/tagstack.go
index a95b7c3..05e3d3d 100644
--- a/tagstack/tagstack.go
+++ b/tagstack/tagstack.go
@@ -99,6 +99,21 @@ func (s *TagStack) Pop() (uint32, error) {
 	return 0, ErrUnderflow
 }
 
+// PopQuit is Pop that gives up waiting for a tag once quit is closed, in which
+// case it returns ErrUnderflow.
+func (s *TagStack) PopQuit(quit <-chan struct{}) (uint32, error) {
+	if !s.blocking {
+		return s.Pop()
+	}
+
+	select {
+	case <-quit:
+		return 0, ErrUnderflow
+	case tag := <-s.stackC:
+		return tag, nil
+	}
+}
+
 // Depth returns the tag stack depth.
 func (s *TagStack) Depth() int {
 	if s.blocking {
diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 11631eb..72455f6 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -220,6 +220,16 @@ func (z *ZKS) sessionWriter(sc *sessionContext) {
 
 		// close underlying connection in order to fail read
 		sc.kx.Close()
+
+		// keep the queue moving until the session is gone, otherwise
+		// the session blocks on it and never goes offline
+		for {
+			select {
+			case <-sc.quit:
+				return
+			case <-sc.writer:
+			}
+		}
 	}()
 
 	for {
@@ -287,7 +297,7 @@ func (z *ZKS) sessionNtfn(sc *sessionContext) {
 			}
 
 			// obtain tag
-			tag, err := sc.tagStack.Pop()
+			tag, err := sc.tagStack.PopQuit(sc.quit)
 			if err != nil {
 				// this probably should be debug
 				z.Error(idS, "could not obtain tag: %v %v",
@@ -326,7 +336,11 @@ func (z *ZKS) sessionNtfn(sc *sessionContext) {
 				r.Message.Command,
 				r.Message.Tag)
 
-			sc.writer <- &r
+			select {
+			case <-sc.quit:
+				return
+			case sc.writer <- &r:
+			}
 		}
 	}
 }
-- 
2.43.0


From 0a0938f7170eba09f527e5cb0ac5f53127f7b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:03 +0000
Subject: [PATCH 05/56] fix: zkserver: do not serve an account disabled while
 it connects

A disable that landed in between the checks at connect time and the session
being listed did not find a session to knock offline.
---
 zkserver/zkserver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 72455f6..5e9578f 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -421,6 +421,12 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 		z.Dbg(idS, "handleSession exit: %v", rids)
 	}()
 
+	// The account may have been disabled prior to the session being listed,
+	// in that case it was not knocked offline.
+	if !z.account.Enabled(rid) {
+		return fmt.Errorf("handleSession: account not enabled %v", rids)
+	}
+
 	// populate identity in directory
 	if z.settings.Directory {
 		err := z.account.Push(rid)
-- 
2.43.0


From 260f441ba60afa2884f4f53d16fc0d80b64a41ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 06/56] fix: zkserver: do not share welcome properties between
 connections

welcome overwrote the values of the global property list without a lock.
---
 zkserver/zkserver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 5e9578f..59bdad7 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -165,7 +165,9 @@ func (z *ZKS) welcome(kx *session.KX) error {
 		motd = []byte{}
 	}
 
-	properties := rpc.SupportedServerProperties
+	// every connection needs its own copy
+	properties := append([]rpc.ServerProperty(nil),
+		rpc.SupportedServerProperties...)
 	for k, v := range properties {
 		switch v.Key {
 		case rpc.PropTagDepth:
-- 
2.43.0


From f082d94ecd8480c25a0a2e7e60f7b9980c24110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 07/56] fix: zkserver: do not crash on an identity of the wrong
 size

The admin socket handlers dereferenced a nil error.
---
 zkserver/account.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zkserver/account.go b/zkserver/account.go
index 585e527..846abad 100644
--- a/zkserver/account.go
+++ b/zkserver/account.go
@@ -109,7 +109,7 @@ func (z *ZKS) handleIdentityDisable(ud socketapi.SocketCommandUserDisable) (udr
 		return
 	}
 	if len(id) != zkidentity.IdentitySize {
-		udr.Error = err.Error()
+		udr.Error = "invalid identity size"
 		return
 	}
 	var pid [zkidentity.IdentitySize]byte
@@ -132,7 +132,7 @@ func (z *ZKS) handleIdentityEnable(ue socketapi.SocketCommandUserEnable) (uer *s
 		return
 	}
 	if len(id) != zkidentity.IdentitySize {
-		uer.Error = err.Error()
+		uer.Error = "invalid identity size"
 		return
 	}
 	var pid [zkidentity.IdentitySize]byte
-- 
2.43.0


From 1e02bb6f8dd5759b7d402b9347ea4c5ee9d9ed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 08/56] fix: zkserver: never accept an account creation token
 twice

Two connections could read the same token prior to either one deleting it, and
a deletion that could not be saved was ignored.
---
 zkserver/pending.go  | 9 +++++++++
 zkserver/zkserver.go | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/zkserver/pending.go b/zkserver/pending.go
index 4d9a28b..5c1c10e 100644
--- a/zkserver/pending.go
+++ b/zkserver/pending.go
@@ -39,6 +39,10 @@ func (z *ZKS) prunePending(pending *inidb.INIDB) {
 }
 
 func (z *ZKS) validToken(token string, conn net.Conn) bool {
+	// a token may only be used once
+	z.pendingMtx.Lock()
+	defer z.pendingMtx.Unlock()
+
 	// open db
 	pending, err := inidb.New(path.Join(z.settings.Root, pendingPath),
 		true, 10)
@@ -62,6 +66,11 @@ func (z *ZKS) validToken(token string, conn net.Conn) bool {
 			token)
 		return false
 	}
+	err = pending.Save()
+	if err != nil {
+		z.Error(idApp, "could not save pending db: %v", err)
+		return false
+	}
 
 	// check expiration
 	t, err := strconv.ParseInt(v, 10, 64)
diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 59bdad7..5af9fef 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -85,6 +85,9 @@ type ZKS struct {
 
 	socket net.Listener // socket for zkserverctl
 
+	pendingMtx    sync.Mutex // serializes pending database access
+	rendezvousMtx sync.Mutex // serializes rendezvous database access
+
 	// Not mutex entries
 	*debug.Debug
 	account  *account.Account
-- 
2.43.0


From 8821a4ba87ca3ff9f900ed9282a540142868e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 09/56] fix: zkserver: store a rendezvous prior to handing out
 its token

The token was sent to the client even if the blob could not be saved, and
concurrent requests overwrote each others database.
---
 zkserver/rendezvous.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/zkserver/rendezvous.go b/zkserver/rendezvous.go
index 56c4f0d..fc88aec 100644
--- a/zkserver/rendezvous.go
+++ b/zkserver/rendezvous.go
@@ -71,8 +71,10 @@ func (z *ZKS) handleRendezvousPull(writer chan *RPCWrapper,
 	}
 
 	// open db
+	z.rendezvousMtx.Lock()
 	rz, err := inidb.New(path.Join(z.settings.Root, rendezvousPath),
 		true, 10)
+	z.rendezvousMtx.Unlock()
 	if err != nil && !errors.Is(err, inidb.ErrCreated) {
 		return fmt.Errorf("could not open rendezvous db: %v", err)
 	}
@@ -141,20 +143,15 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 	retry := 25
 
 	// open db
+	z.rendezvousMtx.Lock()
 	rz, err := inidb.New(path.Join(z.settings.Root, rendezvousPath),
 		true, 10)
 	if err != nil && !errors.Is(err, inidb.ErrCreated) {
+		z.rendezvousMtx.Unlock()
 		return fmt.Errorf("could not open rendezvous db: %v",
 			err)
 	}
 	//defer z.pruneRendezvous(rz) // kill all expired records
-	defer func() {
-		// save db back
-		err := rz.Save()
-		if err != nil {
-			z.Error(idApp, "could not save rendezvous db: %v", err)
-		}
-	}()
 
 	// sanitize inputs
 	if len(r.Blob) > 4096 {
@@ -204,6 +201,13 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 			continue
 		}
 
+		// save db back, only then the token may be handed out
+		err = rz.Save()
+		if err != nil {
+			z.Error(idApp, "could not save rendezvous db: %v", err)
+			goto bad
+		}
+
 		// success
 		payload.Error = ""
 		payload.Token = tokenS
@@ -211,6 +215,7 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 	}
 
 bad:
+	z.rendezvousMtx.Unlock()
 	reply.Payload = payload
 	writer <- &reply
 	return nil
-- 
2.43.0


From aca86ac2deba2c88b1a60a2140c103c575ce0781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 10/56] fix: inidb: never lose the database while saving it

A failed write (disk full) replaced the database with a truncated one, and the
database did not exist in between the two renames.
---
 inidb/inidb.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 392df5e..9a4584f 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -10,6 +10,7 @@
 package inidb
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io/ioutil"
@@ -107,26 +108,41 @@ func (i *INIDB) Save() error {
 	}
 
 	// save all records
-	fmt.Fprintf(f, "%v\n", auto)
+	var b bytes.Buffer
+	fmt.Fprintf(&b, "%v\n", auto)
 	for tk, tv := range i.tables {
 		if tk != "" {
-			fmt.Fprintf(f, "[%v]\n", tk)
+			fmt.Fprintf(&b, "[%v]\n", tk)
 		}
 		for rk, rv := range tv {
-			fmt.Fprintf(f, "%v = %v\n", rk, rv)
+			fmt.Fprintf(&b, "%v = %v\n", rk, rv)
 		}
-		fmt.Fprintf(f, "\n")
+		fmt.Fprintf(&b, "\n")
+	}
+	_, err = f.Write(b.Bytes())
+	if err == nil {
+		err = f.Sync()
+	}
+	err2 := f.Close()
+	if err == nil {
+		err = err2
+	}
+	if err != nil {
+		os.Remove(f.Name())
+		return fmt.Errorf("could not write temporary file: %v", err)
 	}
-	f.Close()
 
-	// backup original
+	// backup original, it remains in place until it is replaced
 	if !i.created {
 		backup := fmt.Sprintf("%v.%v",
 			i.filename,
 			time.Now().Format("20060102.150405.000000000"))
-		err = os.Rename(i.filename, backup)
+		original, err := ioutil.ReadFile(i.filename)
+		if err == nil {
+			err = ioutil.WriteFile(backup, original, 0600)
+		}
 		if err != nil {
-			return fmt.Errorf("could not rename original file: %v",
+			return fmt.Errorf("could not backup original file: %v",
 				err)
 		}
 	}
-- 
2.43.0


From 2d70a1d60e3555dd83575bda61e312ae054452e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 11/56] fix: zkserver: do not create disabled or unproven
 identities

A disabled identity was able to create its account anew, and an identity was
stored without verifying that its owner signed it.
---
 zkserver/account.go         | 5 +++++
 zkserver/account/account.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/zkserver/account.go b/zkserver/account.go
index 846abad..c895a61 100644
--- a/zkserver/account.go
+++ b/zkserver/account.go
@@ -37,6 +37,11 @@ func (z *ZKS) handleAccountCreate(conn net.Conn, ca rpc.CreateAccount) error {
 	z.T(idApp, "handleAccountCreate: %v %v",
 		conn.RemoteAddr(),
 		ca.PublicIdentity.Fingerprint())
+	// only the owner of the keys may claim an identity
+	if !ca.PublicIdentity.Verify() {
+		z.accountReplyFailure("invalid public identity", conn, ca)
+		return fmt.Errorf("invalid public identity")
+	}
 	// check policy
 	switch z.settings.CreatePolicy {
 	default:
diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 1acde37..6f0a176 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -125,6 +125,11 @@ func (a *Account) Create(pid zkidentity.PublicIdentity, force bool) error {
 	if err == nil {
 		return fmt.Errorf("nickname already in use")
 	}
+	// make sure a disabled account isn't recreated
+	if a.Disabled(pid.Identity) {
+		return fmt.Errorf("account disabled: %v",
+			a.accountDirDisabled(pid.Identity))
+	}
 	// make sure account doesn't exist
 	accountName := a.accountDir(pid.Identity)
 	_, err = os.Stat(accountName)
-- 
2.43.0


From 23f896d56f28b53c8c2ef48032a7e2f406ccdddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 12/56] fix: zkidentity: verify that an identity belongs to its
 key

The identity is the digest of the public key. It was not verified, so anyone
was able to sign a public identity that claims the identity of someone else.
---
 zkidentity/zkidentity.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkidentity/zkidentity.go b/zkidentity/zkidentity.go
index 40e8468..af83340 100644
--- a/zkidentity/zkidentity.go
+++ b/zkidentity/zkidentity.go
@@ -146,6 +146,10 @@ func (p PublicIdentity) Fingerprint() string {
 }
 
 func (p *PublicIdentity) Verify() bool {
+	identity := sha256.Sum256(p.Key[:])
+	if !bytes.Equal(p.Identity[:], identity[:]) {
+		return false
+	}
 	d := sha256.New()
 	d.Write([]byte(p.Name))
 	d.Write([]byte(p.Nick))
-- 
2.43.0


From 80882051c9bb40e6bc91a2db0f1cfe46636651f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 13/56] fix: blobshare: return an error when data is too short
 to unpack

The data comes from the other side, short data crashed the client.
---
 blobshare/blobshare.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blobshare/blobshare.go b/blobshare/blobshare.go
index c0d4251..051a38c 100644
--- a/blobshare/blobshare.go
+++ b/blobshare/blobshare.go
@@ -78,6 +78,9 @@ func UnpackSaltNonce(packed []byte) (salt *[32]byte, nonce *[24]byte,
 		saltR  [32]byte
 		nonceR [24]byte
 	)
+	if len(packed) < len(saltR)+len(nonceR) {
+		return nil, nil, nil, fmt.Errorf("packed data too short")
+	}
 	copy(saltR[:], packed[0:32])
 	copy(nonceR[:], packed[32:32+24])
 	salt = &saltR
@@ -99,6 +102,9 @@ func PackNonce(nonce *[24]byte, data []byte) []byte {
 
 func UnpackNonce(packed []byte) (nonce *[24]byte, data []byte, err error) {
 	var nonceR [24]byte
+	if len(packed) < len(nonceR) {
+		return nil, nil, fmt.Errorf("packed data too short")
+	}
 	copy(nonceR[:], packed[0:24])
 	nonce = &nonceR
 
-- 
2.43.0


From 9f3c87dc649b7d69fef69f8e5204ac5e76ad0aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 14/56] fix: zkclient: reject acknowledge tags outside of the
 tag window

---
 zkclient/zkclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 58fc5fc..0ee887a 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1439,7 +1439,7 @@ func (z *ZKC) handleRPC() {
 			}
 
 			z.Lock()
-			if message.Tag > uint32(len(z.tagCallback)) {
+			if message.Tag >= uint32(len(z.tagCallback)) {
 				exitError = fmt.Errorf("Acknowledge "+
 					"invalid tag: %v", message.Tag)
 				z.Unlock()
-- 
2.43.0


From 95f42ed24f613c513ea3e0f5bc3a64d26b62bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 15/56] fix: zkclient: do not crash on a negative tag depth

---
 zkclient/zkclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 0ee887a..b61a74f 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -901,7 +901,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	if td == -1 {
 		return nil, fmt.Errorf("server did not provide tag depth")
 	}
-	if td > tagDepth {
+	if td < 1 || td > tagDepth {
 		return nil, fmt.Errorf("invalid tag depth: %v", td)
 	}
 
-- 
2.43.0


From 250ff48f5e0eae57355638df65fb4ee67059a260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 16/56] fix: zkclient: do not crash on corrupt compressed
 messages

---
 zkclient/push.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 2307750..0b665f9 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -489,7 +489,10 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	case rpc.CRPCCompNone:
 		rd = br
 	case rpc.CRPCCompZLIB:
-		rd, _ = zlib.NewReader(br)
+		rd, err = zlib.NewReader(br)
+		if err != nil {
+			return fmt.Errorf("could not decompress: %v", err)
+		}
 	default:
 		return fmt.Errorf("invalid compression: %v", crpc.Compression)
 	}
-- 
2.43.0


From bff3d00e283681084448ef66e13bf694b5fdcb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 17/56] fix: zkclient: only accept group lists that start with
 their originator

The rpc documentation requires it. A list without members made the client crash
on the next group kill and a list could replace the group administrator.
---
 zkclient/push.go     |  4 ++++
 zkclient/zkclient.go | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 0b665f9..8062088 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -1025,6 +1025,10 @@ func (z *ZKC) handleGroupKill(msg rpc.Message, p rpc.Push,
 		return fmt.Errorf("group chat not found: %v", gk.Name)
 	}
 
+	if len(group.Members) == 0 {
+		return fmt.Errorf("handleGroupKill: group chat corrupt")
+	}
+
 	if !bytes.Equal(group.Members[0][:], p.From[:]) {
 		return fmt.Errorf("spoofed group chat kill command")
 	}
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index b61a74f..62184c9 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1143,7 +1143,9 @@ func (z *ZKC) handleDisabledUser(id [zkidentity.IdentitySize]byte) {
 			}
 
 			// See if we are the admin of the gc
-			if bytes.Equal(z.id.Public.Identity[:], g.Members[0][:]) {
+			if len(g.Members) > 0 && bytes.Equal(
+				z.id.Public.Identity[:], g.Members[0][:]) {
+
 				z.PrintfT(k, REDBOLD+"user %v disabled: "+
 					"please kick %v (%x) from gc"+RESET,
 					rid.Nick, rid.Nick, rid.Identity[:])
@@ -1903,6 +1905,12 @@ func (z *ZKC) _updateGroupList(id [zkidentity.IdentitySize]byte,
 		return errNotAdmin
 	}
 
+	// the originator remains the administrator
+	if len(gl.Members) == 0 || !bytes.Equal(gl.Members[0][:], id[:]) {
+		return fmt.Errorf("invalid group chat administrator: %v",
+			gl.Name)
+	}
+
 	// Warn if generation is no moving forward
 	if gl.Generation <= group.Generation {
 		z.Warn(idRPC, "received illegal grouplist generation: %v %v %v",
-- 
2.43.0


From 62cf4b7d7291a58d03d5be99992f0b44df56047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 18/56] fix: zkclient: do not crash on mentions in non ASCII
 messages

Upper casing may make a message longer, the offset of the nick was then used
past the end of the original message.
---
 zkclient/push.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 8062088..4a4a948 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -1267,10 +1267,12 @@ func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 		nick = id.Nick
 	}
 
-	// see if we were mentioned
+	// see if we were mentioned, note that changing case may change the length
+	// of the message
 	s := gm.Message
 	if x := strings.Index(strings.ToUpper(gm.Message),
 		strings.ToUpper(z.id.Public.Nick)); x != -1 &&
+		x+len(z.id.Public.Nick) <= len(gm.Message) &&
 		gm.Mode == rpc.MessageModeNormal {
 
 		z.Lock()
-- 
2.43.0


From 85019f37cdc59ddb0917f92141e7ba98e05a9f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 19/56] fix: zkclient: store received files in the spool
 directory only

The file name is chosen by the other side and was able to point to any
directory.
---
 zkclient/chunk.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index 02043ab..c370eea 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -10,6 +10,7 @@ import (
 	"fmt"
 	"os"
 	"path"
+	"strings"
 
 	"github.com/companyzero/zkc/rpc"
 	xdr "github.com/davecgh/go-xdr/xdr2"
@@ -157,7 +158,13 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 		}
 
 		var fullpath, filename string
-		filename = cn.Filename
+		// filename comes from the other side, it must remain in spool
+		filename = path.Base(path.Clean("/" +
+			strings.Replace(cn.Filename, "\\", "/", -1)))
+		if filename == "/" {
+			return fmt.Errorf("invalid filename from %v: %v",
+				pid.Nick, cn.Filename)
+		}
 		for {
 			fullpath = path.Join(z.settings.Root, spoolDir,
 				filename)
-- 
2.43.0


From 4c56aecd35dda08f1da8d670c5eb40059e17cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 20/56] fix: zkclient: close the spool file when a chunk can
 not be written

---
 zkclient/chunk.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index c370eea..34337fd 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -113,6 +113,7 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 	// write payload
 	_, err = fs.Write(c.Payload)
 	if err != nil {
+		fs.Close()
 		return err
 	}
 
-- 
2.43.0


From 6458d36f256fcdd9cb0648ad73e7e3f1c0b71564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 21/56] fix: zkclient: a group chat name must be a valid
 filename

validName accepted names that resolve to a directory.
---
 zkclient/groupchat.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index beb6514..114f22b 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -27,6 +27,11 @@ const validLetters = "abcdefghijklmnopqrstuvwyz" +
 	"_-@."
 
 func validName(name string) error {
+	// these are used as filenames
+	if name == "" || name == "." || name == ".." {
+		return fmt.Errorf("invalid name")
+	}
+
 	var found bool
 	for _, c := range []byte(name) {
 		found = false
@@ -88,6 +93,10 @@ func (z *ZKC) gcNew(args []string) error {
 		return fmt.Errorf("usage: /gc new <name>")
 	}
 
+	if err := validName(args[2]); err != nil {
+		return err
+	}
+
 	// see if gc already exists on disk
 	filename := path.Join(z.settings.Root, groupchatDir, args[2])
 	_, err := os.Stat(filename)
-- 
2.43.0


From b53986b37c2bdae4bd43cfb90d2c67d96575b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 22/56] fix: zkclient: do not let an invite corrupt the joins
 database

The group name is chosen by the other side, a newline or bracket in it made the
database unreadable.
---
 zkclient/groupinvites.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zkclient/groupinvites.go b/zkclient/groupinvites.go
index 98f7b0e..1337405 100644
--- a/zkclient/groupinvites.go
+++ b/zkclient/groupinvites.go
@@ -203,6 +203,11 @@ func (z *ZKC) inviteDBAdd(id [zkidentity.IdentitySize]byte, description string,
 func (z *ZKC) joinDBAdd(from [zkidentity.IdentitySize]byte,
 	gi rpc.GroupInvite) error {
 
+	// name comes from the other side and becomes a table name
+	if err := validName(gi.Name); err != nil {
+		return err
+	}
+
 	froms := hex.EncodeToString(from[:])
 
 	// open db
-- 
2.43.0


From 935c5462819a0f0d60983965016a49e98824e866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 23/56] fix: zkclient: verify identities that come from the
 network

Identities were stored and used without verifying their signature, that they
belong to the sender or that we asked for them.
---
 zkclient/kxacceptwindow.go |  4 ++++
 zkclient/push.go           | 16 ++++++++++++++++
 zkclient/welcome.go        |  5 +++++
 zkclient/zkclient.go       | 14 +++++++++++++-
 4 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/zkclient/kxacceptwindow.go b/zkclient/kxacceptwindow.go
index d6fc373..488ae54 100644
--- a/zkclient/kxacceptwindow.go
+++ b/zkclient/kxacceptwindow.go
@@ -139,6 +139,10 @@ func (ka *kxAcceptWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 				"identity")
 			return
 		}
+		if !identity.Verify() {
+			ka.Status(w, true, "Could not verify public identity")
+			return
+		}
 
 		// make sure we don't add ourselves
 		if bytes.Equal(ka.zkc.id.Public.Identity[:], identity.Identity[:]) {
diff --git a/zkclient/push.go b/zkclient/push.go
index 4a4a948..77fdec8 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -208,6 +208,14 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 			return fmt.Errorf("can't kx with self")
 		}
 
+		// identity must be genuine and belong to the sender
+		if !idkx.Identity.Verify() {
+			return fmt.Errorf("could not verify identity")
+		}
+		if !bytes.Equal(idkx.Identity.Identity[:], p.From[:]) {
+			return fmt.Errorf("identities don't match")
+		}
+
 		// create a new ratchet from idkx
 		r := ratchet.New(rand.Reader)
 		r.MyPrivateKey = &z.id.PrivateKey
@@ -328,6 +336,14 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 		return fmt.Errorf("can't kx with self")
 	}
 
+	// identity must be genuine and belong to the sender
+	if !idkx.Identity.Verify() {
+		return fmt.Errorf("could not verify identity")
+	}
+	if !bytes.Equal(idkx.Identity.Identity[:], p.From[:]) {
+		return fmt.Errorf("identities don't match")
+	}
+
 	// create a new ratchet from idkx
 	r := ratchet.New(rand.Reader)
 	r.MyPrivateKey = &z.id.PrivateKey
diff --git a/zkclient/welcome.go b/zkclient/welcome.go
index 702d95c..76872a2 100644
--- a/zkclient/welcome.go
+++ b/zkclient/welcome.go
@@ -174,6 +174,11 @@ func (ww *welcomeWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 					"Could not obtain remote identity")
 				return
 			}
+			if !pid.Verify() {
+				ww.Status(w, true,
+					"Could not verify remote identity")
+				return
+			}
 
 			ww.Status(w, false, "Connected to: %v %v", pid.Name,
 				pid.Fingerprint())
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 62184c9..571109f 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1488,10 +1488,12 @@ func (z *ZKC) handleRPC() {
 				return
 			}
 
+			var pending bool
 			if r.Nick == "" {
 				z.PrintfT(0, "Server did not return nick")
 			} else {
 				z.pendingIdentitiesMutex.Lock()
+				pending = z.pendingIdentities[r.Nick] != nil
 				delete(z.pendingIdentities, r.Nick)
 				z.pendingIdentitiesMutex.Unlock()
 			}
@@ -1507,7 +1509,17 @@ func (z *ZKC) handleRPC() {
 				// Server error is verbose so just print it
 				z.PrintfT(0, "%v", r.Error)
 			} else {
-				err = z.step1IDKX(r.Identity)
+				// we only kx with who we asked for
+				switch {
+				case !pending || r.Identity.Nick != r.Nick:
+					err = fmt.Errorf("unexpected identity: %v",
+						r.Identity.Nick)
+				case !r.Identity.Verify():
+					err = fmt.Errorf("could not verify "+
+						"identity: %v", r.Identity.Nick)
+				default:
+					err = z.step1IDKX(r.Identity)
+				}
 				if err != nil {
 					z.PrintfT(0, "%v", err)
 				}
-- 
2.43.0


From bc9ab80997adee0d57967bf8e5d482173677af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 24/56] fix: zkclient: do not write the key exchange key to the
 log

---
 zkclient/zkclient.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 571109f..c23ebb6 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1086,9 +1086,6 @@ func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
 	packed := blobshare.PackNonce(nonce, encrypted)
 	payload := append(nc[:], packed...)
 
-	z.Dbg(0, "[InitiateKX]: nk = %v", nk)
-	z.Dbg(0, "[InitiateKX]: nc = %v", nc)
-
 	err = z.cache(id.Identity, payload)
 	if err != nil {
 		return fmt.Errorf("could not send IdentityKX: %v", err)
-- 
2.43.0


From 2167126dd23490b0a967d7eef6c837b562ad6c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 25/56] fix: zkclient: lock the ratchets while resetting one

A concurrent message was able to write the old ratchet back.
---
 zkclient/reset.go    | 4 ++++
 zkclient/zkclient.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/zkclient/reset.go b/zkclient/reset.go
index ad010be..9ce8178 100644
--- a/zkclient/reset.go
+++ b/zkclient/reset.go
@@ -58,12 +58,16 @@ func (z *ZKC) handleResetRatchet(from [32]byte) error {
 	ids := hex.EncodeToString(from[:])
 	fullPath := path.Join(z.settings.Root, inboundDir, ids)
 
+	z.ratchetMtx.Lock()
+
 	// always remove half ratchet
 	os.Remove(path.Join(fullPath, halfRatchetFilename))
 
 	// delete ratchet from disk
 	os.Remove(path.Join(fullPath, ratchetFilename))
 
+	z.ratchetMtx.Unlock()
+
 	z.FloodfT(pid.Nick, REDBOLD+"Requesting key exchange with: %v %v"+RESET,
 		pid.Nick, ids)
 
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index c23ebb6..73c6c75 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1814,6 +1814,10 @@ func (z *ZKC) reset(nick string) error {
 	ids := hex.EncodeToString(id.Identity[:])
 	fullPath := path.Join(z.settings.Root, inboundDir, ids)
 
+	// a message in flight must not bring the ratchet back
+	z.ratchetMtx.Lock()
+	defer z.ratchetMtx.Unlock()
+
 	// always remove half ratchet
 	os.Remove(path.Join(fullPath, halfRatchetFilename))
 
-- 
2.43.0


From e4621e4e43e7f1c555699776a3e95e3737743f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 26/56] fix: zkclient: do not replace a ratchet with one that
 was not written

Errors of Sync and Close were ignored.
---
 zkclient/identity.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zkclient/identity.go b/zkclient/identity.go
index 6131467..fe90776 100644
--- a/zkclient/identity.go
+++ b/zkclient/identity.go
@@ -156,8 +156,15 @@ func (z *ZKC) updateRatchet(r *ratchet.Ratchet, half bool) error {
 		f.Close()
 		return fmt.Errorf("could not marshal ratchet")
 	}
-	f.Sync()
-	f.Close()
+	err = f.Sync()
+	if err != nil {
+		f.Close()
+		return fmt.Errorf("could not sync ratchet file: %v", err)
+	}
+	err = f.Close()
+	if err != nil {
+		return fmt.Errorf("could not close ratchet file: %v", err)
+	}
 
 	// rename tempfile to actual file
 	filename := path.Join(fullPath, rf)
-- 
2.43.0


From 7b0083e28c1650174302b8df997dc9590d5c970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 27/56] fix: zkclient: close the connection when going online
 fails

Every reconnect attempt leaked a connection.
---
 zkclient/zkclient.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 73c6c75..b0822b3 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -739,6 +739,7 @@ func (z *ZKC) preSessionPhase() (net.Conn, *tls.ConnectionState, error) {
 
 	cs := conn.ConnectionState()
 	if len(cs.PeerCertificates) != 1 {
+		conn.Close()
 		return nil, nil, fmt.Errorf("unexpected certificate chain")
 	}
 
@@ -966,17 +967,20 @@ func (z *ZKC) goOnline() (*rpc.Welcome, error) {
 
 	// XXX check cert here
 	if !bytes.Equal(cs.PeerCertificates[0].Raw, z.cert) {
+		conn.Close()
 		z.provisionalCert = cs.PeerCertificates[0].Raw
 		return nil, errCert
 	}
 
 	kx, err := z.sessionPhase(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 
 	welcome, err := z.welcomePhase(kx)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 4b602e87c2f3f9c8a3bd07bcf32ab135dfb7cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 28/56] fix: zkclient: do not ping with a tag that was not
 obtained

When out of tags the heartbeat used tag 0, which is in flight for another
command.
---
 zkclient/zkclient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index b0822b3..450ef4b 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1266,6 +1266,7 @@ func (z *ZKC) handleRPC() {
 						z.kx.Close()
 						return
 					}
+					continue
 				}
 				//z.PrintfT(0, "ping %v", tag)
 				z.write.Lock()
-- 
2.43.0


From 76d4be43e12ca90726e7e2b029380e21348ea216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 29/56] fix: account: deliver messages atomically

A crash or a full disk while a message was being written left a partial
file in the recipient's cache, which is later pushed truncated or makes
every session of the recipient fail. The duplicate filename check also
ran outside of the lock, so two deliveries could overwrite each other.
Write the message aside and rename it once it is complete.
---
 zkserver/account/account.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 6f0a176..42b3951 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -335,6 +335,9 @@ func (a *Account) Deliver(to [zkidentity.IdentitySize]byte, from [zkidentity.Ide
 		return "", fmt.Errorf("could not marshal diskMessage")
 	}
 
+	a.Lock()
+	defer a.Unlock()
+
 	// sanity
 	fullPath := path.Join(cache, filename)
 	_, err = os.Stat(fullPath)
@@ -342,12 +345,23 @@ func (a *Account) Deliver(to [zkidentity.IdentitySize]byte, from [zkidentity.Ide
 		return "", fmt.Errorf("duplicate filename %v", filename)
 	}
 
-	a.Lock()
-	defer a.Unlock()
-
-	// and dump it
-	err = ioutil.WriteFile(fullPath, b.Bytes(), 0600)
+	// and dump it; the cache may only ever hold complete messages
+	f, err := ioutil.TempFile(a.accountFile(to, ""), "deliver")
+	if err != nil {
+		return "", fmt.Errorf("could not write to %v: %v", cache, err)
+	}
+	_, err = f.Write(b.Bytes())
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), fullPath)
+	}
 	if err != nil {
+		os.Remove(f.Name())
 		return "", fmt.Errorf("could not write to %v: %v", cache, err)
 	}
 
-- 
2.43.0


From 36ea77b77aa7e769da63050c9cf323ebbfcd5619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 30/56] fix: zkclient: limit what decoding network data
 allocates

---
 zkclient/kxacceptwindow.go |  3 +--
 zkclient/push.go           | 34 +++++++++++++++++-----------------
 zkclient/welcome.go        |  2 +-
 zkclient/zkclient.go       | 36 +++++++++++++++++++++++-------------
 4 files changed, 42 insertions(+), 33 deletions(-)

diff --git a/zkclient/kxacceptwindow.go b/zkclient/kxacceptwindow.go
index 488ae54..e52221c 100644
--- a/zkclient/kxacceptwindow.go
+++ b/zkclient/kxacceptwindow.go
@@ -14,7 +14,6 @@ import (
 	"github.com/companyzero/zkc/blobshare"
 	"github.com/companyzero/zkc/rpc"
 	"github.com/companyzero/zkc/zkidentity"
-	xdr "github.com/davecgh/go-xdr/xdr2"
 	"github.com/nsf/termbox-go"
 )
 
@@ -133,7 +132,7 @@ func (ka *kxAcceptWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 		// unmarshal into public identity
 		var identity zkidentity.PublicIdentity
 		br := bytes.NewReader(decrypted)
-		_, err = xdr.Unmarshal(br, &identity)
+		_, err = unmarshal(br, &identity)
 		if err != nil {
 			ka.Status(w, true, "Could not unmarshal public "+
 				"identity")
diff --git a/zkclient/push.go b/zkclient/push.go
index 77fdec8..e405e11 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -88,7 +88,7 @@ func (z *ZKC) step3IDKX(msg rpc.Message, p rpc.Push) error {
 
 		var kx rpc.KX
 		br := bytes.NewReader(decrypted)
-		_, err = xdr.Unmarshal(br, &kx)
+		_, err = unmarshal(br, &kx)
 		if err != nil {
 			return fmt.Errorf("could not unmarshal KX")
 		}
@@ -199,7 +199,7 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 
 		var idkx rpc.IdentityKX
 		br := bytes.NewReader(decrypted)
-		_, err = xdr.Unmarshal(br, &idkx)
+		_, err = unmarshal(br, &idkx)
 		if err != nil {
 			return fmt.Errorf("could not unmarshal IdentityKX")
 		}
@@ -327,7 +327,7 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 
 	var idkx rpc.IdentityKX
 	br := bytes.NewReader(decrypted)
-	_, err = xdr.Unmarshal(br, &idkx)
+	_, err = unmarshal(br, &idkx)
 	if err != nil {
 		return fmt.Errorf("could not unmarshal IdentityKX")
 	}
@@ -424,7 +424,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	if msg.Cleartext {
 		var pc rpc.ProxyCmd
 		brProxy := bytes.NewReader(p.Payload)
-		_, err := xdr.Unmarshal(brProxy, &pc)
+		_, err := unmarshal(brProxy, &pc)
 		if err == nil && pc.Command == rpc.ProxyCmdResetRatchet {
 			// We got a ratchet reset command
 			nick := z.nickFromId(p.From)
@@ -494,7 +494,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	// decode CRPC
 	var crpc rpc.CRPC
 	br := bytes.NewReader(decrypted)
-	_, err = xdr.Unmarshal(br, &crpc)
+	_, err = unmarshal(br, &crpc)
 	if err != nil {
 		return fmt.Errorf("unmarshal crpc failed")
 	}
@@ -517,7 +517,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	switch crpc.Command {
 	case rpc.CRPCCmdPrivateMessage:
 		var pm rpc.PrivateMessage
-		_, err = xdr.Unmarshal(rd, &pm)
+		_, err = unmarshal(rd, &pm)
 		if err != nil {
 			return fmt.Errorf("unmarshal private message")
 		}
@@ -533,7 +533,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupInvite:
 		var gi rpc.GroupInvite
-		_, err = xdr.Unmarshal(rd, &gi)
+		_, err = unmarshal(rd, &gi)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat invite")
 		}
@@ -549,7 +549,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupJoin:
 		var gj rpc.GroupJoin
-		_, err = xdr.Unmarshal(rd, &gj)
+		_, err = unmarshal(rd, &gj)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat join")
 		}
@@ -565,7 +565,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupKill:
 		var gk rpc.GroupKill
-		_, err = xdr.Unmarshal(rd, &gk)
+		_, err = unmarshal(rd, &gk)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat kill")
 		}
@@ -581,7 +581,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupKick:
 		var gk rpc.GroupKick
-		_, err = xdr.Unmarshal(rd, &gk)
+		_, err = unmarshal(rd, &gk)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat kick")
 		}
@@ -597,7 +597,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupPart:
 		var gp rpc.GroupPart
-		_, err = xdr.Unmarshal(rd, &gp)
+		_, err = unmarshal(rd, &gp)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat part")
 		}
@@ -613,7 +613,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupList:
 		var gl rpc.GroupList
-		_, err = xdr.Unmarshal(rd, &gl)
+		_, err = unmarshal(rd, &gl)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat list")
 		}
@@ -629,7 +629,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupUpdate:
 		var gu rpc.GroupUpdate
-		_, err = xdr.Unmarshal(rd, &gu)
+		_, err = unmarshal(rd, &gu)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat update")
 		}
@@ -645,7 +645,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupMessage:
 		var gm rpc.GroupMessage
-		_, err = xdr.Unmarshal(rd, &gm)
+		_, err = unmarshal(rd, &gm)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat message")
 		}
@@ -661,7 +661,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdChunkNew:
 		var cn rpc.ChunkNew
-		_, err = xdr.Unmarshal(rd, &cn)
+		_, err = unmarshal(rd, &cn)
 		if err != nil {
 			return fmt.Errorf("unmarshal chunk new")
 		}
@@ -677,7 +677,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdChunk:
 		var c rpc.Chunk
-		_, err = xdr.Unmarshal(rd, &c)
+		_, err = unmarshal(rd, &c)
 		if err != nil {
 			return fmt.Errorf("unmarshal chunk")
 		}
@@ -692,7 +692,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdJanitorMessage:
 		var jm rpc.JanitorMessage
-		_, err = xdr.Unmarshal(rd, &jm)
+		_, err = unmarshal(rd, &jm)
 		if err != nil {
 			return fmt.Errorf("unmarshal janitor message")
 		}
diff --git a/zkclient/welcome.go b/zkclient/welcome.go
index 76872a2..fa87330 100644
--- a/zkclient/welcome.go
+++ b/zkclient/welcome.go
@@ -168,7 +168,7 @@ func (ww *welcomeWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			}
 
 			// get server identity
-			_, err = xdr.Unmarshal(conn, &pid)
+			_, err = unmarshal(conn, &pid)
 			if err != nil {
 				ww.Status(w, true,
 					"Could not obtain remote identity")
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 450ef4b..0abdbfc 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -12,6 +12,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"net"
 	"net/http"
@@ -773,6 +774,16 @@ func (z *ZKC) sessionPhase(conn net.Conn) (*session.KX, error) {
 	return kx, nil
 }
 
+// maxDecode is the largest number of elements that decoded network data may
+// claim to hold; it exceeds anything that fits in a message.
+const maxDecode = 4 * 1024 * 1024
+
+// unmarshal performs a limited xdr Unmarshal operation.  It must be used for
+// all data that comes from the network.
+func unmarshal(r io.Reader, v interface{}) (int, error) {
+	return xdr.UnmarshalLimited(r, v, maxDecode)
+}
+
 // lock must be held
 func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	// obtain Welcome/
@@ -792,7 +803,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 
 	// unmarshal header
 	br := bytes.NewReader(cmd)
-	_, err = xdr.Unmarshal(br, &command)
+	_, err = unmarshal(br, &command)
 	if err != nil {
 		return nil, fmt.Errorf("unmarshal Welcome header failed")
 	}
@@ -803,7 +814,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	case rpc.SessionCmdUnwelcome:
 		// unmarshal payload
 		var umsg rpc.Unwelcome
-		_, err = xdr.Unmarshal(br, &umsg)
+		_, err = unmarshal(br, &umsg)
 		if err != nil {
 			return nil, fmt.Errorf("unmarshal Unwelcome payload " +
 				"failed")
@@ -819,7 +830,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	}
 
 	// unmarshal payload
-	_, err = xdr.Unmarshal(br, &wmsg)
+	_, err = unmarshal(br, &wmsg)
 	if err != nil {
 		return nil, fmt.Errorf("unmarshal Welcome payload failed")
 	}
@@ -989,7 +1000,6 @@ func (z *ZKC) goOnline() (*rpc.Welcome, error) {
 	return welcome, nil
 }
 
-//
 func (z *ZKC) goOnlineAndPrint() error {
 	welcome, err := z.goOnline()
 	switch {
@@ -1304,7 +1314,7 @@ func (z *ZKC) handleRPC() {
 
 		// unmarshal header
 		br := bytes.NewReader(cmd)
-		_, err = xdr.Unmarshal(br, &message)
+		_, err = unmarshal(br, &message)
 		if err != nil {
 			exitError = fmt.Errorf("unmarshal header failed")
 			return
@@ -1320,7 +1330,7 @@ func (z *ZKC) handleRPC() {
 		switch message.Command {
 		case rpc.TaggedCmdPong:
 			var p rpc.Pong
-			_, err = xdr.Unmarshal(br, &p)
+			_, err = unmarshal(br, &p)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal Pong")
 				return
@@ -1344,7 +1354,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdRendezvousReply:
 			var r rpc.RendezvousReply
-			_, err = xdr.Unmarshal(br, &r)
+			_, err = unmarshal(br, &r)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal RendezvousReply")
 				return
@@ -1363,7 +1373,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdRendezvousPullReply:
 			var r rpc.RendezvousPullReply
-			_, err = xdr.Unmarshal(br, &r)
+			_, err = unmarshal(br, &r)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"RendezvousPullReply")
@@ -1384,7 +1394,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdPush:
 			var p rpc.Push
-			_, err = xdr.Unmarshal(br, &p)
+			_, err = unmarshal(br, &p)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal Push")
 				return
@@ -1435,7 +1445,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdAcknowledge:
 			var a rpc.Acknowledge
-			_, err = xdr.Unmarshal(br, &a)
+			_, err = unmarshal(br, &a)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"Acknowledge")
@@ -1483,7 +1493,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdIdentityFindReply:
 			var r rpc.IdentityFindReply
-			_, err = xdr.Unmarshal(br, &r)
+			_, err = unmarshal(br, &r)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"IdentityFindReply")
@@ -1529,7 +1539,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdProxyReply:
 			var p rpc.ProxyReply
-			_, err = xdr.Unmarshal(br, &p)
+			_, err = unmarshal(br, &p)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"ProxyReply")
@@ -2033,7 +2043,7 @@ func (z *ZKC) finalizeAccountCreation(conn net.Conn, cs *tls.ConnectionState,
 
 	// obtain answer
 	var car rpc.CreateAccountReply
-	_, err = xdr.Unmarshal(conn, &car)
+	_, err = unmarshal(conn, &car)
 	if err != nil {
 		return fmt.Errorf("Could not obtain create account reply")
 	}
-- 
2.43.0


From 71cef4c9a841d93554d378f5fcf072a97a875d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 31/56] fix: session: refuse an oversized message without
 losing the sequence

---
 session/kx.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/session/kx.go b/session/kx.go
index 633d269..431217a 100644
--- a/session/kx.go
+++ b/session/kx.go
@@ -416,11 +416,13 @@ func (kx *KX) Read() ([]byte, error) {
 }
 
 func (kx *KX) writeWithKey(data []byte, k *[32]byte) error {
-	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
-	incSeq(&kx.writeSeq)
-	if uint(len(payload)) > kx.MaxMessageSize {
+	// refuse a message that is too large prior to using up a sequence
+	// number, our peer would otherwise lose track of them
+	if uint(len(data)+secretbox.Overhead) > kx.MaxMessageSize {
 		return ErrOverflow
 	}
+	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
+	incSeq(&kx.writeSeq)
 	_, err := xdr.Marshal(kx.Conn, payload)
 	if err != nil {
 		return ErrMarshal
-- 
2.43.0


From 32229a8a6f6102bc68fd55a8d322e096aa9c9fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 32/56] fix: ratchet: do not lose the key of a delayed empty
 message

---
 ratchet/ratchet.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index 833d87c..3e22799 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -313,7 +313,8 @@ func (r *Ratchet) trySavedKeys(ciphertext []byte) ([]byte, error) {
 
 		sealedMessage := ciphertext[sealedHeaderSize:]
 		copy(nonce[:], header[nonceInHeaderOffset:])
-		msg, ok := secretbox.Open(nil, sealedMessage, &nonce, &msgKey.key)
+		// an empty message must not be nil, that means there is no key
+		msg, ok := secretbox.Open([]byte{}, sealedMessage, &nonce, &msgKey.key)
 		if !ok {
 			return nil, errors.New("ratchet: corrupt message")
 		}
-- 
2.43.0


From 9420717b9865548fbdf640e250cbb90b2e6b562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 33/56] fix: zkclient: use the session only while it exists

writeMessage and welcomeUser read z.kx without the lock handleRPC holds
when it clears it; when the connection went down in between the client
crashed on a nil pointer.
---
 zkclient/zkclient.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 0abdbfc..4dee3d9 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1677,7 +1677,14 @@ func (z *ZKC) parseMyIdentity(server *inidb.INIDB) error {
 }
 
 func (z *ZKC) welcomeUser(welcome *rpc.Welcome) error {
-	remoteId, ok := z.kx.TheirIdentity().([32]byte)
+	// the connection may have gone down already
+	z.RLock()
+	kx := z.kx
+	z.RUnlock()
+	if kx == nil {
+		return fmt.Errorf("not online")
+	}
+	remoteId, ok := kx.TheirIdentity().([32]byte)
 	if !ok {
 		return fmt.Errorf("invalid KX identity type %T", remoteId)
 	}
@@ -1710,7 +1717,10 @@ func (z *ZKC) welcomeUser(welcome *rpc.Welcome) error {
 		break
 	}
 
-	if len(z.conversation) == 1 {
+	z.RLock()
+	conversations := len(z.conversation)
+	z.RUnlock()
+	if conversations == 1 {
 		_ = restoreConversations(z)
 	}
 
@@ -1871,7 +1881,11 @@ func (z *ZKC) reset(nick string) error {
 
 // writeMessage marshals and sends encrypted message to server.
 func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
-	if !z.isOnline() {
+	// handleRPC clears z.kx when the connection goes down
+	z.RLock()
+	kx, online := z.kx, z.online
+	z.RUnlock()
+	if !online || kx == nil {
 		return fmt.Errorf("not online")
 	}
 
@@ -1893,7 +1907,7 @@ func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
 		return fmt.Errorf("could not marshal payload %v", msg.Command)
 	}
 
-	err = z.kx.Write(bb.Bytes())
+	err = kx.Write(bb.Bytes())
 	if err != nil {
 		return fmt.Errorf("could not write %v: %v",
 			msg.Command, err)
-- 
2.43.0


From 060719f43a3662a8252c7f1a867d73729a6d87f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 34/56] fix: zkclient: lock while the first session is set up

---
 zkclient/zkclient.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 4dee3d9..2097721 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -2076,7 +2076,9 @@ func (z *ZKC) finalizeAccountCreation(conn net.Conn, cs *tls.ConnectionState,
 	}
 
 	// go through welcome phase
+	z.Lock()
 	welcome, err := z.welcomePhase(kx)
+	z.Unlock()
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3409b8587022a3b0c3fb29b34c1dd3b2ff329c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 35/56] fix: zkclient: lock while saving conversations

---
 zkclient/mainwindow.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index 1936743..35b66b2 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -735,6 +735,9 @@ func saveConversations(z *ZKC) error {
 		}
 	}
 
+	z.RLock()
+	defer z.RUnlock()
+
 	cdb.NewTable("conversations")
 	var b bytes.Buffer
 	n := len(z.conversation)
-- 
2.43.0


From 22409792229b3182ef3ff11f94c4135b97770eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 36/56] fix: zkclient: limit the sizes a server may announce

The chunk size a server announces is allocated when a file is sent; a
large one crashed the client.
---
 zkclient/zkclient.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 2097721..ee2926b 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -941,6 +941,9 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	if ms < cs {
 		return nil, fmt.Errorf("message size < chunk size")
 	}
+	if ms > maxDecode {
+		return nil, fmt.Errorf("invalid message size: %v", ms)
+	}
 
 	// directory mode
 	if dir {
-- 
2.43.0


From 923466dbb8e2a4799b1a3e3589c3129e5867b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 37/56] fix: zkclient: save the ratchet before the message it
 encrypted is sent

---
 zkclient/msg.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index ddd06cf..35efe90 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -468,6 +468,19 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 		return fmt.Errorf("could not obtain tag: %v", err)
 	}
 
+	// save ratchet prior to sending, a message key must never be used for
+	// another message
+	err = z.updateRatchet(r, false)
+	if err != nil {
+		err2 := z.tagStack.Push(tag)
+		if err2 != nil {
+			return fmt.Errorf("could not push tag, internal "+
+				"state corrupt, please quit: %v %v", err, err2)
+		}
+		return fmt.Errorf("critical error: could not update ratchet: %v",
+			err)
+	}
+
 	z.Lock()
 	z.tagCallback[tag] = &cb{
 		callback: f,
@@ -508,12 +521,5 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 		return err
 	}
 
-	// save ratchet only if we sent
-	err = z.updateRatchet(r, false)
-	if err != nil {
-		return fmt.Errorf("critical error: could not update ratchet: %v",
-			err)
-	}
-
 	return nil
 }
-- 
2.43.0


From 34e55ec2461ec4b7bf2fa6fdf3c63ae6f9933f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 38/56] fix: zkclient: save the key exchange before it is sent

---
 zkclient/acceptclientfingerprint.go | 26 +++++++++++++++-----------
 zkclient/zkclient.go                | 13 ++++++++-----
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/zkclient/acceptclientfingerprint.go b/zkclient/acceptclientfingerprint.go
index c7ebecc..71b3c27 100644
--- a/zkclient/acceptclientfingerprint.go
+++ b/zkclient/acceptclientfingerprint.go
@@ -161,18 +161,9 @@ func (aw *acceptCFPWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			return
 		}
 
-		aw.zkc.Dbg(idZKC, "step 2 (cache) idkx")
-
-		// send cache command, step 2 of idkx
-		err = aw.zkc.cache(aw.pid.Identity,
-			blobshare.PackNonce(nonce, encrypted))
-		if err != nil {
-			aw.Status(w, true, "could not send IdentityKX %v", err)
-			return
-		}
-
 		//
-		// if we get here save off identity, half ratchet and derived key
+		// save off identity, half ratchet and derived key prior to
+		// sending, they are needed to handle the reply
 		//
 
 		// store public identity if this is a new identity
@@ -200,6 +191,19 @@ func (aw *acceptCFPWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			aw.Status(w, true, "Could not half ratchet: %v", err)
 			return
 		}
+
+		aw.zkc.Dbg(idZKC, "step 2 (cache) idkx")
+
+		// send cache command, step 2 of idkx
+		err = aw.zkc.cache(aw.pid.Identity,
+			blobshare.PackNonce(nonce, encrypted))
+		if err != nil {
+			// not sent, allow for a retry
+			aw.zkc.removeRatchet(aw.pid.Identity, true)
+			aw.zkc.ratchetMtx.Unlock()
+			aw.Status(w, true, "could not send IdentityKX %v", err)
+			return
+		}
 		aw.zkc.ratchetMtx.Unlock()
 
 		aw.zkc.PrintfT(0, "Accepted user %v nick %v "+
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index ee2926b..b299571 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1103,11 +1103,7 @@ func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
 	packed := blobshare.PackNonce(nonce, encrypted)
 	payload := append(nc[:], packed...)
 
-	err = z.cache(id.Identity, payload)
-	if err != nil {
-		return fmt.Errorf("could not send IdentityKX: %v", err)
-	}
-
+	// save everything that is needed to handle the reply prior to sending
 	err = z.saveIdentity(id)
 	if err != nil {
 		return fmt.Errorf("could not save identity: %v", err)
@@ -1125,6 +1121,13 @@ func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
 		return fmt.Errorf("could not save half ratchet: %v", err)
 	}
 
+	err = z.cache(id.Identity, payload)
+	if err != nil {
+		// not sent, allow for a retry
+		z.removeRatchet(id.Identity, true)
+		return fmt.Errorf("could not send IdentityKX: %v", err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From cd2713d1777a9c539d7d7d45d07d974b1db6bc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 39/56] fix: zkclient: never leave a partial group chat file
 behind

---
 zkclient/groupchat.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index 114f22b..2992756 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -84,8 +84,29 @@ func (z *ZKC) _gcSaveDisk(name string) error {
 		return fmt.Errorf("could not marshal groupchat: %v", name)
 	}
 
-	// lay on disk
-	return ioutil.WriteFile(filename, bb.Bytes(), 0600)
+	// lay on disk, don't leave a partial file behind.  The temporary file
+	// lives outside of groupchatDir because that is read at startup.
+	f, err := ioutil.TempFile(z.settings.Root, "groupchat")
+	if err != nil {
+		return fmt.Errorf("could not create groupchat file: %v", err)
+	}
+	_, err = f.Write(bb.Bytes())
+	if err == nil {
+		err = f.Sync()
+	}
+	err2 := f.Close()
+	if err == nil {
+		err = err2
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), filename)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+		return fmt.Errorf("could not save groupchat %v: %v", name, err)
+	}
+
+	return nil
 }
 
 func (z *ZKC) gcNew(args []string) error {
-- 
2.43.0


From f0ab80850ee9dc71063cf564dacc0a0f62141983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 40/56] fix: zkclient: report that a key could not be saved

---
 zkclient/blobkeys.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/zkclient/blobkeys.go b/zkclient/blobkeys.go
index b6fb428..255eaf6 100644
--- a/zkclient/blobkeys.go
+++ b/zkclient/blobkeys.go
@@ -25,7 +25,7 @@ var (
 	blobKeysPath = path.Join(blobKeysDir, blobKeysFile)
 )
 
-func (z *ZKC) pruneKey(kdb *inidb.INIDB) {
+func (z *ZKC) pruneKey(kdb *inidb.INIDB) error {
 	//r := kdb.Records("")
 	//for k, v := range r {
 	//	t, err := strconv.ParseInt(v, 10, 64)
@@ -46,9 +46,10 @@ func (z *ZKC) pruneKey(kdb *inidb.INIDB) {
 	// save db back
 	err := kdb.Save()
 	if err != nil {
-		z.Error(idZKC, "could not save keys database: %v", err)
-		// falthrough
+		return fmt.Errorf("could not save keys database: %v", err)
 	}
+
+	return nil
 }
 
 func (z *ZKC) saveKey(key *[32]byte) error {
@@ -59,8 +60,6 @@ func (z *ZKC) saveKey(key *[32]byte) error {
 		return err
 	}
 
-	defer z.pruneKey(kdb) // kill all expired keys
-
 	for {
 		k := time.Now().Add(expiration).Unix()
 		keyTS := strconv.FormatInt(k, 10)
@@ -79,5 +78,6 @@ func (z *ZKC) saveKey(key *[32]byte) error {
 		break
 	}
 
-	return nil
+	// kill all expired keys and save
+	return z.pruneKey(kdb)
 }
-- 
2.43.0


From 1dca442cb8a95d5c1b76e62f9b5fddf87122c755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 41/56] fix: zkclient: never leave a partial identity file
 behind

---
 zkclient/groupchat.go | 18 +-----------------
 zkclient/identity.go  | 30 +++++++++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index 2992756..358942d 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -9,7 +9,6 @@ import (
 	"crypto/sha256"
 	"encoding/hex"
 	"fmt"
-	"io/ioutil"
 	"os"
 	"path"
 	"strconv"
@@ -86,23 +85,8 @@ func (z *ZKC) _gcSaveDisk(name string) error {
 
 	// lay on disk, don't leave a partial file behind.  The temporary file
 	// lives outside of groupchatDir because that is read at startup.
-	f, err := ioutil.TempFile(z.settings.Root, "groupchat")
+	err = writeFile(z.settings.Root, filename, bb.Bytes())
 	if err != nil {
-		return fmt.Errorf("could not create groupchat file: %v", err)
-	}
-	_, err = f.Write(bb.Bytes())
-	if err == nil {
-		err = f.Sync()
-	}
-	err2 := f.Close()
-	if err == nil {
-		err = err2
-	}
-	if err == nil {
-		err = os.Rename(f.Name(), filename)
-	}
-	if err != nil {
-		os.Remove(f.Name())
 		return fmt.Errorf("could not save groupchat %v: %v", name, err)
 	}
 
diff --git a/zkclient/identity.go b/zkclient/identity.go
index fe90776..9ee9bb4 100644
--- a/zkclient/identity.go
+++ b/zkclient/identity.go
@@ -215,11 +215,39 @@ func (z *ZKC) saveIdentity(id zkidentity.PublicIdentity) error {
 	if err != nil {
 		return fmt.Errorf("marshal public identity")
 	}
+	// an identity may exist when the ratchet was reset, don't leave a
+	// partial file behind
 	filename := path.Join(fullPath, identityFilename)
-	err = ioutil.WriteFile(filename, pidXDR, 0600)
+	err = writeFile(fullPath, filename, pidXDR)
 	if err != nil {
 		return fmt.Errorf("write to %v: %v", filename, err)
 	}
 
 	return nil
 }
+
+// writeFile replaces filename by way of a temporary file that is created in
+// dir.  Either the entire file is replaced or the original remains in place.
+func writeFile(dir, filename string, data []byte) error {
+	f, err := ioutil.TempFile(dir, "tmp")
+	if err != nil {
+		return fmt.Errorf("could not create temporary file: %v", err)
+	}
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	err2 := f.Close()
+	if err == nil {
+		err = err2
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), filename)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+		return err
+	}
+
+	return nil
+}
-- 
2.43.0


From e9c829adb5dbe138f8b79e37c40e0ea5a78a5694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 42/56] fix: keep conversation logs in the logs directory

The nick of a private conversation is chosen by the other side and may
contain path separators.  A nick such as ../../x made the client append
to files outside of the logs directory.
---
 zkclient/zkclient.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index b299571..a7e2f99 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -217,15 +217,14 @@ func (z *ZKC) log(id int, format string, args ...interface{}) {
 		z.Log(id, format, args...)
 		return
 	case z.conversation[id].group:
-		filename = path.Join(z.settings.Root,
-			logsDir, "groupchat."+z.conversation[id].nick+"."+
-				server+".log")
+		filename = "groupchat." + z.conversation[id].nick + "." +
+			server + ".log"
 	default:
-		filename = path.Join(z.settings.Root,
-			logsDir,
-			z.conversation[id].nick+"."+server+"."+
-				z.conversation[id].id.String()+".log")
+		filename = z.conversation[id].nick + "." + server + "." +
+			z.conversation[id].id.String() + ".log"
 	}
+	// nick comes from the other side, it must remain in logs
+	filename = path.Join(z.settings.Root, logsDir, path.Base(filename))
 	f, err := os.OpenFile(filename,
 		os.O_CREATE|os.O_RDWR|os.O_APPEND, 0600)
 	if err != nil {
-- 
2.43.0


From b681ea68e430fdcbe2d5a61f59b1b328681abda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 43/56] fix: keep concurrent transfers from one contact apart

The descriptor was shared by all transfers from a contact.  A second
transfer overwrote it and the first one never completed.
---
 zkclient/chunk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index 34337fd..2fa4d23 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -37,7 +37,7 @@ func (z *ZKC) doHandleChunkNew(msg rpc.Message, p rpc.Push,
 	dir := path.Join(z.settings.Root, spoolDir,
 		hex.EncodeToString(p.From[:]))
 	spool := path.Join(dir, hex.EncodeToString(cn.Digest[:]))
-	desc := path.Join(dir, descriptor)
+	desc := spool + "." + descriptor
 	os.MkdirAll(dir, 0700)
 
 	// write out encoded chunk information
@@ -90,7 +90,7 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 	dir := path.Join(z.settings.Root, spoolDir,
 		hex.EncodeToString(p.From[:]))
 	spool := path.Join(dir, hex.EncodeToString(c.Digest[:]))
-	desc := path.Join(dir, descriptor)
+	desc := spool + "." + descriptor
 
 	// open spool
 	fs, err := os.OpenFile(spool, os.O_WRONLY|os.O_APPEND, 0600)
-- 
2.43.0


From 21e194e75f75e59a2d7b4c261e2df6c8d2b3effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 44/56] fix: don't accept more of a file than was announced

A contact could append to a spool file forever.
---
 zkclient/chunk.go | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index 2fa4d23..5bd45b3 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -92,6 +92,20 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 	spool := path.Join(dir, hex.EncodeToString(c.Digest[:]))
 	desc := spool + "." + descriptor
 
+	// obtain chunk information
+	f, err := os.Open(desc)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+
+	d := xdr.NewDecoder(f)
+	var cn rpc.ChunkNew
+	_, err = d.Decode(&cn)
+	if err != nil {
+		return err
+	}
+
 	// open spool
 	fs, err := os.OpenFile(spool, os.O_WRONLY|os.O_APPEND, 0600)
 	if err != nil {
@@ -110,6 +124,13 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 			fi.Size(), c.Offset)
 	}
 
+	// don't exceed what was announced
+	if uint64(len(c.Payload)) > cn.Size ||
+		c.Offset > cn.Size-uint64(len(c.Payload)) {
+		fs.Close()
+		return fmt.Errorf("transfer exceeds announced size: %v", cn.Size)
+	}
+
 	// write payload
 	_, err = fs.Write(c.Payload)
 	if err != nil {
@@ -126,20 +147,6 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 	fs.Close() // windows
 
 	// determine if this is the last chunk
-	f, err := os.Open(desc)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
-
-	d := xdr.NewDecoder(f)
-	var cn rpc.ChunkNew
-	_, err = d.Decode(&cn)
-	if err != nil {
-		return err
-	}
-
-	// check sizes
 	if fi.Size() == int64(cn.Size) {
 		// nick
 		pid, err := z.ab.FindIdentity(p.From)
-- 
2.43.0


From a7e6e7cfdc6eb4e92513ed6cc65e2fdf9ec87296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:44 +0000
Subject: [PATCH 45/56] fix: don't show a group's messages in a contact's
 conversation

A group named after a contact's nick took over that contact's window.
---
 zkclient/zkclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index a7e2f99..0bb3419 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -375,7 +375,7 @@ func (z *ZKC) groupConversation(group string) (*conversation, int, error) {
 	defer z.Unlock()
 	x := -1
 	for k, v := range z.conversation {
-		if v.id.Nick == group {
+		if v.group && v.id.Nick == group {
 			return v, k, nil
 		}
 		// next free slot
-- 
2.43.0


From 123df5399af129f8a14a1066e8be0f6ac2631adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 46/56] fix: tell contacts with the same nick apart

Conversations used the nick from the identity, not the unique one from the
address book.  Text typed into one conversation went to the other contact.
---
 zkclient/zkclient.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 0bb3419..7c68de4 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -408,6 +408,11 @@ func (z *ZKC) getConversation(id [zkidentity.IdentitySize]byte) (*conversation,
 	if err != nil {
 		return nil, -1, err
 	}
+	// nicks aren't unique, those in the address book are
+	pid, err := z.ab.FindIdentity(id)
+	if err == nil {
+		c.id.Nick = pid.Nick
+	}
 	if c.id.Nick == "" {
 		c.nick = hex.EncodeToString(id[:])
 	} else {
-- 
2.43.0


From 13c6a3944d9d03cf695253037e93858532ac3d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 47/56] fix: send what is typed to the contact of the
 conversation

What was typed was turned into a command with the nick of the contact in it.
A nick with a space in it, or of a group, sent it to someone else or nowhere.
---
 zkclient/mainwindow.go | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index 35b66b2..0544fcd 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -350,6 +350,20 @@ func (mw *mainWindow) appendHistory(cmd string) {
 	fmt.Fprintf(f, "%v\n", cmd)
 }
 
+// doPm sends a private message to the other party of a conversation.
+func (mw *mainWindow) doPm(c *conversation, win int, msg string) error {
+	err := mw.zkc.pm(c.id.Identity, msg, rpc.MessageModeNormal)
+	if err != nil {
+		return err
+	}
+	// echo
+	mw.zkc.PrintfT(win, "<%v> %v",
+		mw.zkc.settings.NickColor+mw.zkc.id.Public.Nick+RESET,
+		msg)
+
+	return nil
+}
+
 // action executes a user command.
 func (mw *mainWindow) action(cmd string) error {
 	if len(cmd) == 0 {
@@ -360,14 +374,14 @@ func (mw *mainWindow) action(cmd string) error {
 	if !strings.HasPrefix(cmd, leader) {
 		mw.zkc.RLock()
 		if mw.zkc.active != 0 {
-			var c string
-			if mw.zkc.conversation[mw.zkc.active].group {
-				c = cmdGc + " m "
-			} else {
-				c = cmdM + " "
+			win := mw.zkc.active
+			c := mw.zkc.conversation[win]
+			if !c.group {
+				// don't go by nick, it may contain spaces
+				mw.zkc.RUnlock()
+				return mw.doPm(c, win, strings.TrimSpace(cmd))
 			}
-			cmd = c + mw.zkc.conversation[mw.zkc.active].nick +
-				" " + cmd
+			cmd = cmdGc + " m " + c.nick + " " + cmd
 		}
 		mw.zkc.RUnlock()
 	}
@@ -539,7 +553,8 @@ func (mw *mainWindow) action(cmd string) error {
 		)
 		mw.zkc.RLock()
 		for k, v := range mw.zkc.conversation {
-			if v == nil {
+			// skip console and groups
+			if v == nil || k == 0 || v.group {
 				continue
 			}
 			if args[1] == v.nick {
@@ -563,16 +578,7 @@ func (mw *mainWindow) action(cmd string) error {
 			}
 		}
 
-		err = mw.zkc.pm(c.id.Identity, msg, rpc.MessageModeNormal)
-		if err != nil {
-			return err
-		}
-		// echo
-		mw.zkc.PrintfT(win, "<%v> %v",
-			mw.zkc.settings.NickColor+mw.zkc.id.Public.Nick+RESET,
-			msg)
-
-		return nil
+		return mw.doPm(c, win, msg)
 
 	case cmdInfo:
 		if len(args) == 1 {
-- 
2.43.0


From 00dc416f88301849d7d906d62958e7b9b3fd24ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 48/56] fix: keep received files private

Files being received, and so the finished ones, were created readable by
everyone on the host.
---
 zkclient/chunk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index 5bd45b3..fe0aa62 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -41,7 +41,7 @@ func (z *ZKC) doHandleChunkNew(msg rpc.Message, p rpc.Push,
 	os.MkdirAll(dir, 0700)
 
 	// write out encoded chunk information
-	f, err := os.Create(desc)
+	f, err := os.OpenFile(desc, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return err
 	}
@@ -54,7 +54,7 @@ func (z *ZKC) doHandleChunkNew(msg rpc.Message, p rpc.Push,
 	}
 
 	// create empty spool
-	fs, err := os.Create(spool)
+	fs, err := os.OpenFile(spool, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 2e3d3af520066c673cb3de7c330180a07c1019c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 49/56] fix: keep the records of the default table in the
 default table

Tables were saved in random order, the records of the default table, which
has no header, became part of whatever table was written before it.
---
 inidb/inidb.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 9a4584f..74f8806 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -110,10 +110,16 @@ func (i *INIDB) Save() error {
 	// save all records
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%v\n", auto)
+	// the default table has no header and therefore must come first
+	for rk, rv := range i.tables[""] {
+		fmt.Fprintf(&b, "%v = %v\n", rk, rv)
+	}
+	fmt.Fprintf(&b, "\n")
 	for tk, tv := range i.tables {
-		if tk != "" {
-			fmt.Fprintf(&b, "[%v]\n", tk)
+		if tk == "" {
+			continue
 		}
+		fmt.Fprintf(&b, "[%v]\n", tk)
 		for rk, rv := range tv {
 			fmt.Fprintf(&b, "%v = %v\n", rk, rv)
 		}
-- 
2.43.0


From 39d006b68d3ca5dc2370c2a9edc9874778ab9fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 50/56] fix: refuse records that the database can't hold

A key with an equals sign or a value with a line break was written as is, and
read back as another record or not at all.
---
 inidb/inidb.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 74f8806..8907e02 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -30,6 +30,7 @@ const (
 var (
 	ErrNotFound = errors.New("record not found")
 	ErrCreated  = errors.New("database created")
+	ErrInvalid  = errors.New("invalid record")
 )
 
 // INIDB is an opaque structure that contains the database context.
@@ -197,6 +198,22 @@ func (i *INIDB) prune() error {
 	return nil
 }
 
+// validValue returns whether a value is read back as it was written.
+func validValue(value string) bool {
+	return strings.TrimSpace(value) == value &&
+		!strings.Contains(value, "\n")
+}
+
+// validKey returns whether a key is read back as it was written.
+func validKey(key string) bool {
+	return key != "" && validTable(key) && key[0] != ';' && key[0] != '#'
+}
+
+// validTable returns whether a table name is read back as it was written.
+func validTable(table string) bool {
+	return validValue(table) && !strings.Contains(table, "=")
+}
+
 // Get returns a record from table.  If the record does not exist ErrNotFound
 // is returned.
 func (i *INIDB) Get(table string, key string) (string, error) {
@@ -212,7 +229,8 @@ func (i *INIDB) Get(table string, key string) (string, error) {
 }
 
 // Set creates/overwrites a record in table.  If table does not exist
-// ErrNotFound is returned.
+// ErrNotFound is returned.  If the record can't be represented in the database
+// ErrInvalid is returned.
 func (i *INIDB) Set(table, key, value string) error {
 	i.mtx.Lock()
 	defer i.mtx.Unlock()
@@ -221,6 +239,9 @@ func (i *INIDB) Set(table, key, value string) error {
 	if !ok {
 		return ErrNotFound
 	}
+	if !validKey(key) || !validValue(value) {
+		return ErrInvalid
+	}
 	s[key] = value
 	i.dirty = true
 
@@ -243,11 +264,15 @@ func (i *INIDB) Del(table, key string) error {
 	return nil
 }
 
-// NewTable creates a new table.
+// NewTable creates a new table.  A table with a name that can't be represented
+// in the database is not created.
 func (i *INIDB) NewTable(table string) {
 	i.mtx.Lock()
 	defer i.mtx.Unlock()
 
+	if !validTable(table) {
+		return
+	}
 	i.tables.Section(table)
 }
 
-- 
2.43.0


From 2ea976b50dc23deffffa7107e0539eb3ca7e9fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 51/56] fix: save tables that have no records yet

A new table was lost by a save unless a record was set too.
---
 inidb/inidb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 8907e02..3ded3e3 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -273,7 +273,11 @@ func (i *INIDB) NewTable(table string) {
 	if !validTable(table) {
 		return
 	}
+	if _, ok := i.tables[table]; ok {
+		return
+	}
 	i.tables.Section(table)
+	i.dirty = true
 }
 
 // DelTable deletes an entire table including all records.
-- 
2.43.0


From 213ba8aa0250ba196989d4229769fa55be161477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:10 +0000
Subject: [PATCH 52/56] fix: don't take back tags that are not in use

A reply with a tag that is not in flight put that tag on the stack; the
next request popped it and indexed the callbacks out of range, or shared
its tag with another request.
---
 tagstack/tagstack.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tagstack/tagstack.go b/tagstack/tagstack.go
index 05e3d3d..7669b9d 100644
--- a/tagstack/tagstack.go
+++ b/tagstack/tagstack.go
@@ -19,6 +19,7 @@ import (
 var (
 	ErrOverflow  = errors.New("overflow")
 	ErrUnderflow = errors.New("underflow")
+	ErrInvalid   = errors.New("tag not in use")
 )
 
 // TagStack is an opaque type that contains the tag stack.
@@ -60,8 +61,8 @@ func New(depth int) *TagStack {
 	return &s
 }
 
-// Push appends x to then end of the stack.  If the stack will overflow it will
-// return an error.
+// Push appends x to then end of the stack.  If the stack will overflow, or if x
+// is not a tag that was popped, it will return an error.
 func (s *TagStack) Push(x uint32) error {
 	if s.blocking {
 		s.stackC <- x
@@ -72,6 +73,14 @@ func (s *TagStack) Push(x uint32) error {
 	defer s.Unlock()
 
 	if s.at < len(s.stack) {
+		if x >= uint32(len(s.stack)) {
+			return ErrInvalid
+		}
+		for _, v := range s.stack[:s.at] {
+			if v == x {
+				return ErrInvalid
+			}
+		}
 		s.stack[s.at] = x
 		s.at++
 		return nil
-- 
2.43.0


From 3b2702b0e7721646af077ad5e50dcdad7a28c234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:08 +0000
Subject: [PATCH 53/56] fix: don't send requests with the tags of a previous
 session

---
 zkclient/msg.go | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index 35efe90..d9c748a 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -15,6 +15,7 @@ import (
 
 	"github.com/companyzero/zkc/ratchet"
 	"github.com/companyzero/zkc/rpc"
+	"github.com/companyzero/zkc/session"
 	"github.com/companyzero/zkc/zkidentity"
 	"github.com/davecgh/go-spew/spew"
 	xdr "github.com/davecgh/go-xdr/xdr2"
@@ -36,6 +37,7 @@ type wireMsg struct {
 	id *[zkidentity.IdentitySize]byte
 
 	msg rpc.Message // PRPC
+	kx  *session.KX // session that msg.Tag belongs to
 
 	payload interface{} // always set
 
@@ -170,7 +172,7 @@ func (z *ZKC) scheduler() {
 								spew.Sdump(m.msg),
 								spew.Sdump(m.payload))
 						}
-						err = z.writeMessage(&m.msg, m.payload)
+						err = z.writePRPC(m)
 						if err != nil {
 							z.PrintfT(-1, REDBOLD+
 								"PRPC (rescheduled): %v"+
@@ -235,9 +237,47 @@ func (z *ZKC) scheduleCRPC(hi bool, id *[zkidentity.IdentitySize]byte, payload i
 	//z.Dbg(idSnd, "sending CRPC done")
 }
 
+// writePRPC sends a scheduled PRPC.  Tags do not outlive their session,
+// therefore a request that was scheduled in a previous session is sent with a
+// new tag and what only had a meaning in that session is not sent.
+func (z *ZKC) writePRPC(m wireMsg) error {
+	z.RLock()
+	kx, online := z.kx, z.online
+	z.RUnlock()
+	if !online || m.kx == kx {
+		return z.writeMessage(&m.msg, m.payload)
+	}
+
+	switch m.msg.Command {
+	case rpc.TaggedCmdAcknowledge, rpc.TaggedCmdPing:
+		return nil
+	}
+
+	tag, err := z.tagStack.Pop()
+	if err != nil {
+		return fmt.Errorf("could not obtain tag: %v", err)
+	}
+	m.msg.Tag = tag
+	err = z.writeMessage(&m.msg, m.payload)
+	if err != nil {
+		err2 := z.tagStack.Push(tag)
+		if err2 != nil {
+			return fmt.Errorf("could not push tag, internal "+
+				"state corrupt, please quit: %v %v", err, err2)
+		}
+	}
+
+	return err
+}
+
 func (z *ZKC) schedulePRPC(hi bool, msg rpc.Message, payload interface{}) {
+	z.RLock()
+	kx := z.kx
+	z.RUnlock()
+
 	m := wireMsg{
 		msg:     msg,
+		kx:      kx,
 		payload: payload,
 	}
 	if hi {
-- 
2.43.0


From a51a15623d47d29097cfb73ffda4abe8b6c4507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:19 +0000
Subject: [PATCH 54/56] fix: zkserver: a message delivered while going online
 could block its mailbox

The goroutine that empties the work queue filled it first, and blocked for ever
when a message stored in between had filled it already.
---
 zkserver/account/account.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 42b3951..e959c4e 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -444,8 +444,11 @@ func (a *Account) Online(who [zkidentity.IdentitySize]byte, ntfn chan *Notificat
 	a.Unlock()
 
 	go func() {
-		// first time around start delivering
-		dn.work <- struct{}{}
+		// first time around start delivering, unless told to already
+		select {
+		case dn.work <- struct{}{}:
+		default:
+		}
 
 		for {
 			select {
-- 
2.43.0


From 7ccfc2084e9d2f97e0ddb8cd3c8ccbaa1b0c9753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:19 +0000
Subject: [PATCH 55/56] fix: zkclient: do not wait for a timer that does not
 fire again

Once online, the reconnect goroutine waited for ever.
---
 zkclient/zkclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 7c68de4..49d86d3 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1040,8 +1040,9 @@ func (z *ZKC) goOnlineRetry() {
 		<-timer.C
 		z.RLock()
 		if z.online {
+			// losing the connection starts another retry
 			z.RUnlock()
-			continue
+			return
 		}
 		z.RUnlock()
 
-- 
2.43.0


From 1e0d2683897d667efb318a019383014c98e68da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:03 +0000
Subject: [PATCH 56/56] fix: zkclient: close the connection when creating an
 account fails

Every attempt left a connection open, and a failure to save the server record
left the client marked online with nobody serving the session.
---
 zkclient/acceptserverfingerprint.go |  1 +
 zkclient/welcome.go                 |  3 +++
 zkclient/zkclient.go                | 13 +++++++++++++
 3 files changed, 17 insertions(+)

diff --git a/zkclient/acceptserverfingerprint.go b/zkclient/acceptserverfingerprint.go
index e29259c..8f73063 100644
--- a/zkclient/acceptserverfingerprint.go
+++ b/zkclient/acceptserverfingerprint.go
@@ -114,6 +114,7 @@ func (aw *acceptWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 	switch k.Key {
 	case termbox.KeyEnter:
 		if strings.ToLower(aw.question) != "yes" {
+			aw.conn.Close()
 			ttk.Focus(aw.zkc.ttkWW)
 			aw.zkc.focus(0)
 			return
diff --git a/zkclient/welcome.go b/zkclient/welcome.go
index fa87330..44da638 100644
--- a/zkclient/welcome.go
+++ b/zkclient/welcome.go
@@ -162,6 +162,7 @@ func (ww *welcomeWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			// tell remote we want its public identity
 			_, err = xdr.Marshal(conn, rpc.InitialCmdIdentify)
 			if err != nil {
+				conn.Close()
 				ww.Status(w, true,
 					"Connection closed during identify")
 				return
@@ -170,11 +171,13 @@ func (ww *welcomeWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			// get server identity
 			_, err = unmarshal(conn, &pid)
 			if err != nil {
+				conn.Close()
 				ww.Status(w, true,
 					"Could not obtain remote identity")
 				return
 			}
 			if !pid.Verify() {
+				conn.Close()
 				ww.Status(w, true,
 					"Could not verify remote identity")
 				return
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 49d86d3..b829e0f 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -2043,6 +2043,14 @@ func (z *ZKC) loadGroupchat() error {
 
 func (z *ZKC) finalizeAccountCreation(conn net.Conn, cs *tls.ConnectionState,
 	pid *zkidentity.PublicIdentity, token string) error {
+	// close connection unless a session took it over
+	sessionStarted := false
+	defer func() {
+		if !sessionStarted {
+			conn.Close()
+		}
+	}()
+
 	// tell server we want to create an account
 	_, err := xdr.Marshal(conn, rpc.InitialCmdCreateAccount)
 	if err != nil {
@@ -2096,9 +2104,14 @@ func (z *ZKC) finalizeAccountCreation(conn net.Conn, cs *tls.ConnectionState,
 
 	err = z.saveServerRecord(pid, cs.PeerCertificates[0].Raw)
 	if err != nil {
+		z.Lock()
+		z.online = false
+		z.kx = nil
+		z.Unlock()
 		return err
 	}
 
+	sessionStarted = true
 	go z.handleRPC()
 
 	z.mw.welcomeMessage()
-- 
2.43.0

