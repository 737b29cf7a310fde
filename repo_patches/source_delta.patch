From e1cd7e4e2aab118538b3f9f9cec0139a4d2805f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:21 +0000
Subject: [PATCH 01/31] fix: keep the WOTS+ checksum when it fills whole bytes

For WotsW=256, and for WotsW=4 with N=16, the checksum takes a whole number
of bytes and was shifted left by 8 instead of 0 bits, which dropped (part of)
it and made one-time signatures forgeable.
---
 wots.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wots.go b/wots.go
index 8e09f79..6989bec 100644
--- a/wots.go
+++ b/wots.go
@@ -32,7 +32,7 @@ func (ctx *Context) wotsChainLengths(msg []byte) []uint8 {
 	for i := 0; i < int(ctx.wotsLen1); i++ {
 		csum += uint32(ctx.p.WotsW) - 1 - uint32(ret[i])
 	}
-	csum = csum << (8 - ((ctx.wotsLen2 * uint32(ctx.wotsLogW)) % 8))
+	csum = csum << ((8 - ((ctx.wotsLen2 * uint32(ctx.wotsLogW)) % 8)) % 8)
 
 	// put checksum in buffer
 	ctx.toBaseW(
-- 
2.43.0


From e113093c2a5da7b6ff4f4e2abb5058d5d3bcbbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 02/31] fix: do not use the fourway hashes with the NIST PRF
 construction

prfAddrX4Into and fX4Into hardcode the N-byte prefix of RFC 8391, so with
SHAKE, N=16,32 and Prf=NIST keys and signatures depended on whether the CPU
supports AVX2.
---
 api.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 28f434c..0e116ca 100644
--- a/api.go
+++ b/api.go
@@ -692,7 +692,9 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		ctx.prefixLen = 4
 	}
 
-	if ctx.p.Func == SHAKE && (ctx.p.N == 32 || ctx.p.N == 16) {
+	// The fourway hashes assume the N-byte prefixes of the RFC.
+	if ctx.p.Func == SHAKE && ctx.p.Prf == RFC &&
+		(ctx.p.N == 32 || ctx.p.N == 16) {
 		ctx.x4Available = f1600x4.Available
 	}
 
-- 
2.43.0


From c49fcb9e3a600fb0c4f0c12652936ff6f9056b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 03/31] fix: check length and parameters of encoded signatures
 and public keys

---
 api.go    | 36 ++++++++++++++++++++++++++++++------
 params.go |  6 +++++-
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/api.go b/api.go
index 0e116ca..2a52f80 100644
--- a/api.go
+++ b/api.go
@@ -273,14 +273,22 @@ func (sig *Signature) MarshalBinary() ([]byte, error) {
 // Initializes the Signature as stored by MarshalBinary.
 func (sig *Signature) UnmarshalBinary(buf []byte) error {
 	var params Params
+	if len(buf) < 4 {
+		return errorf("Signature is too short")
+	}
 	err := params.UnmarshalBinary(buf[:4])
 	if err != nil {
 		return err
 	}
-	sig.ctx, err = NewContext(params)
-	if err != nil {
-		return err
+	ctx, err2 := NewContext(params)
+	if err2 != nil {
+		return err2
 	}
+	if uint64(len(buf)) != 4+uint64(ctx.sigBytes) {
+		return errorf("Signature should be %d bytes long (instead of %d)",
+			4+uint64(ctx.sigBytes), len(buf))
+	}
+	sig.ctx = ctx
 	sig.seqNo = SignatureSeqNo(decodeUint64(buf[4 : 4+sig.ctx.indexBytes]))
 	sig.drv = make([]byte, params.N)
 	sig.sigs = make([]subTreeSig, params.D)
@@ -370,14 +378,22 @@ func (pk *PublicKey) MarshalBinary() ([]byte, error) {
 // Initializes the PublicKey as was stored by MarshalBinary.
 func (pk *PublicKey) UnmarshalBinary(buf []byte) error {
 	var params Params
+	if len(buf) < 4 {
+		return errorf("Public key is too short")
+	}
 	err := params.UnmarshalBinary(buf[:4])
 	if err != nil {
 		return err
 	}
-	pk.ctx, err = NewContext(params)
-	if err != nil {
-		return err
+	ctx, err2 := NewContext(params)
+	if err2 != nil {
+		return err2
 	}
+	if uint64(len(buf)) != 4+uint64(ctx.pkBytes) {
+		return errorf("Public key should be %d bytes long (instead of %d)",
+			4+uint64(ctx.pkBytes), len(buf))
+	}
+	pk.ctx = ctx
 	pk.root = make([]byte, params.N)
 	pk.pubSeed = make([]byte, params.N)
 	copy(pk.root, buf[4:4+params.N])
@@ -653,6 +669,14 @@ func NewContext(params Params) (ctx *Context, err Error) {
 	ctx.p = params
 	ctx.mt = (ctx.p.D > 1)
 
+	if ctx.p.Func > SHAKE256 {
+		return nil, errorf("Unsupported hash function")
+	}
+
+	if ctx.p.Prf > NIST {
+		return nil, errorf("Unsupported PRF construction")
+	}
+
 	if ctx.p.N != 16 && ctx.p.N != 24 && ctx.p.N != 32 && ctx.p.N != 64 {
 		return nil, errorf("Only N=16,24,32,64 are supported")
 	}
diff --git a/params.go b/params.go
index f3e9ea5..0fffed7 100644
--- a/params.go
+++ b/params.go
@@ -251,6 +251,10 @@ func (params *Params) UnmarshalBinary(buf []byte) error {
 	if version != 0 {
 		return errorf("Unsupported compressed parameters version")
 	}
+	hashFunc := HashFunc((val >> 14) & ((1 << 2) - 1))
+	if hashFunc > SHAKE256 {
+		return errorf("Unsupported hash function in compressed parameters")
+	}
 	comprN := (val >> 16) & ((1 << 4) - 1)
 	wCode := (val >> 12) & ((1 << 2) - 1)
 	rfcCode := (val >> 20) & 1
@@ -270,7 +274,7 @@ func (params *Params) UnmarshalBinary(buf []byte) error {
 		params.Prf = NIST
 	}
 	params.N = (comprN + 1) * 8
-	params.Func = HashFunc((val >> 14) & ((1 << 2) - 1))
+	params.Func = hashFunc
 	params.FullHeight = (val >> 6) & ((1 << 6) - 1)
 	params.D = val & ((1 << 6) - 1)
 	return nil
-- 
2.43.0


From a8550c9cb54ca129a60efa1e989fac6b44b1c0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 04/31] fix: reject signatures whose parameters differ from the
 public key's

---
 api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api.go b/api.go
index 2a52f80..8a96e6a 100644
--- a/api.go
+++ b/api.go
@@ -197,6 +197,12 @@ func (pk *PublicKey) Verify(sig *Signature, msg []byte) (bool, Error) {
 // Reads a message from the io.Reader and verifies whether the provided
 // signature is valid for this public key and message.
 func (pk *PublicKey) VerifyFrom(sig *Signature, msg io.Reader) (bool, Error) {
+	if pk.ctx.p != sig.ctx.p {
+		return false, errorf(
+			"Signature (%s) and public key (%s) have different parameters",
+			sig.ctx.p, pk.ctx.p)
+	}
+
 	pad := pk.ctx.newScratchPad()
 	curHash := make([]byte, sig.ctx.p.N)
 
-- 
2.43.0


From ca42e831d9ed44e27668e80f42532191b8990bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 05/31] fix: wait for background subtree generation before
 closing the container

---
 api.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/api.go b/api.go
index 8a96e6a..95e46b8 100644
--- a/api.go
+++ b/api.go
@@ -602,6 +602,11 @@ func (sk *PrivateKey) SignFrom(msg io.Reader) (*Signature, Error) {
 
 // Close the underlying container
 func (sk *PrivateKey) Close() Error {
+	// There might be a background goroutine generating a subtree
+	// when EnableSubTreePrecomputation() was called.  It uses the container
+	// and needs the lock, so wait for it before doing anything else.
+	sk.wg.Wait()
+
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.borrowed > 0 {
@@ -614,10 +619,6 @@ func (sk *PrivateKey) Close() Error {
 	err := sk.ctr.Close()
 	sk.cond.Broadcast()
 
-	// There might be a background goroutine generating a subtree
-	// when EnableSubTreePrecomputation() was called.  So wait for that.
-	sk.wg.Wait()
-
 	return err
 }
 
-- 
2.43.0


From 95bca627e60fc69825f2555790be5ee2cee576c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 06/31] fix: read the private key's counters under its lock

---
 api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api.go b/api.go
index 95e46b8..da35600 100644
--- a/api.go
+++ b/api.go
@@ -528,6 +528,8 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 // Returns the number of signature sequence numbers borrowed from the container.
 // See BorrowExactly() or PrivateKeyContainer.BorrowSeqNos()
 func (sk *PrivateKey) BorrowedSeqNos() uint32 {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return sk.borrowed
 }
 
@@ -838,6 +840,8 @@ func (sk *PrivateKey) UnretiredSeqNos() uint32 {
 
 // Returns the number of subtrees that are cached
 func (sk *PrivateKey) CachedSubTrees() int {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return len(sk.subTreeReady)
 }
 
@@ -860,6 +864,8 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 
 // Returns the signature sequence used next.
 func (sk *PrivateKey) SeqNo() SignatureSeqNo {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return sk.seqNo
 }
 
-- 
2.43.0


From 9ff75259f2b0464f695cff042a8258260c4a4964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 07/31] fix: set a context's name and OID when it is created

---
 api.go    |  2 ++
 params.go | 25 +++++++++----------------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/api.go b/api.go
index da35600..f410edb 100644
--- a/api.go
+++ b/api.go
@@ -731,6 +731,8 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		ctx.x4Available = f1600x4.Available
 	}
 
+	ctx.setNameAndOid()
+
 	return
 }
 
diff --git a/params.go b/params.go
index 0fffed7..fe695d1 100644
--- a/params.go
+++ b/params.go
@@ -548,25 +548,21 @@ func (params *Params) LookupNameAndOid() (string, uint32) {
 	return "", 0
 }
 
-// Looks up the name and oid of this set of parameters and returns whether
-// any were found.
-func (ctx *Context) ensureNameAndOidAreSet() bool {
-	if ctx.name != nil {
-		return true
-	}
-	var name2 string
-	name2, ctx.oid = ctx.p.LookupNameAndOid()
-	if name2 != "" {
-		ctx.name = &name2
-		return true
+// Looks up the name and oid of this set of parameters.
+//
+// Called when the context is created, as contexts are shared by goroutines.
+func (ctx *Context) setNameAndOid() {
+	name, oid := ctx.p.LookupNameAndOid()
+	if name != "" {
+		ctx.name = &name
+		ctx.oid = oid
 	}
-	return false
 }
 
 // Returns the name of the XMSSMT instance and an empty string if it has
 // no name.
 func (ctx *Context) Name() string {
-	if ctx.ensureNameAndOidAreSet() {
+	if ctx.name != nil {
 		return *ctx.name
 	}
 	return ""
@@ -574,14 +570,12 @@ func (ctx *Context) Name() string {
 
 // Returns the Oid of the XMSSMT instance and 0 if it has no Oid.
 func (ctx *Context) Oid() uint32 {
-	ctx.ensureNameAndOidAreSet()
 	return ctx.oid
 }
 
 // Returns whether this XMSS[MT] instance is listed in the NIST Special
 // Publication.
 func (ctx *Context) FromNIST() bool {
-	ctx.ensureNameAndOidAreSet()
 	if ctx.mt {
 		return ctx.oid >= 0x21 && ctx.oid <= 0x38
 	}
@@ -591,7 +585,6 @@ func (ctx *Context) FromNIST() bool {
 // Returns whether this XMSS[MT] instance is listed in the RFC (and thus should
 // also be supported by other implementations).
 func (ctx *Context) FromRFC() bool {
-	ctx.ensureNameAndOidAreSet()
 	if ctx.oid == 0 {
 		return false
 	}
-- 
2.43.0


From bd1b9cc1a455c8bc273e6f6011863b9101648267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 08/31] fix: make the container lock exclude the own process,
 report all lock errors and release it on failure

---
 api.go       |  14 +++++++-
 container.go | 100 +++++++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 99 insertions(+), 15 deletions(-)

diff --git a/api.go b/api.go
index f410edb..2bd523a 100644
--- a/api.go
+++ b/api.go
@@ -441,7 +441,12 @@ func (ctx *Context) Derive(path string, pubSeed, skSeed, skPrf []byte) (
 	if err != nil {
 		return nil, nil, err
 	}
-	return ctx.DeriveInto(ctr, pubSeed, skSeed, skPrf)
+	sk, pk, err := ctx.DeriveInto(ctr, pubSeed, skSeed, skPrf)
+	if err != nil {
+		ctr.Close()
+		return nil, nil, err
+	}
+	return sk, pk, nil
 }
 
 // Derives an XMSS[MT] public/private keypair from the given seeds
@@ -771,6 +776,13 @@ func LoadPrivateKey(path string) (
 // NOTE Takes ownership of ctr.  Do not forget to Close() the  PrivateKey.
 func LoadPrivateKeyFrom(ctr PrivateKeyContainer) (
 	sk *PrivateKey, pk *PublicKey, lostSigs uint32, err Error) {
+	// As we own the container, we have to close it if we fail.
+	defer func() {
+		if err != nil {
+			ctr.Close()
+		}
+	}()
+
 	// First check if the container is sane.
 	params := ctr.Initialized()
 	if params == nil {
diff --git a/container.go b/container.go
index a878742..bd18fb2 100644
--- a/container.go
+++ b/container.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sync"
 
 	"github.com/bwesterb/byteswriter"
 	"github.com/edsrzf/mmap-go"
@@ -128,6 +129,58 @@ const (
 	FS_CONTAINER_CACHE_MAGIC2 = "5a11d7cf4a1f6314"
 )
 
+var (
+	// Paths of the containers opened by this process.  A lockfile only keeps
+	// out other processes.
+	openFSContainers    = make(map[string]bool)
+	openFSContainersMux sync.Mutex
+)
+
+// Acquires the lock of the container within this process and then
+// the lockfile, which excludes other processes.
+func (ctr *fsContainer) lock() Error {
+	openFSContainersMux.Lock()
+	alreadyOpen := openFSContainers[ctr.path]
+	openFSContainers[ctr.path] = true
+	openFSContainersMux.Unlock()
+
+	if alreadyOpen {
+		err := errorf("%s is locked", ctr.path)
+		err.locked = true
+		return err
+	}
+
+	err := ctr.flock.TryLock()
+	if err == nil {
+		return nil
+	}
+
+	openFSContainersMux.Lock()
+	delete(openFSContainers, ctr.path)
+	openFSContainersMux.Unlock()
+
+	ret := wrapErrorf(err, "Failed to lock %s", ctr.path)
+	_, isTemporary := err.(interface {
+		Temporary() bool
+	})
+	// If the holder releases its lock while TryLock() is looking into it,
+	// we get a not-exist error on the lockfile.
+	pathErr, isPathErr := err.(*os.PathError)
+	released := isPathErr && os.IsNotExist(err) &&
+		pathErr.Path == string(ctr.flock)
+	ret.locked = isTemporary || released
+	return ret
+}
+
+// Releases the locks acquired by lock().
+func (ctr *fsContainer) unlock() error {
+	err := ctr.flock.Unlock()
+	openFSContainersMux.Lock()
+	delete(openFSContainers, ctr.path)
+	openFSContainersMux.Unlock()
+	return err
+}
+
 // Returns a PrivateKeyContainer backed by the filesystem.
 func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 	var ctr fsContainer
@@ -139,6 +192,15 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 			"Could not turn %s into an absolute path", path)
 	}
 
+	// Resolve symlinks: a key file should only have one lockfile and
+	// writeKeyFile() should replace the key file instead of the symlink.
+	if realPath, err2 := filepath.EvalSymlinks(ctr.path); err2 == nil {
+		ctr.path = realPath
+	} else if realDir, err2 := filepath.EvalSymlinks(
+		filepath.Dir(ctr.path)); err2 == nil {
+		ctr.path = filepath.Join(realDir, filepath.Base(ctr.path))
+	}
+
 	// Acquire lock
 	lockFilePath := ctr.path + ".lock"
 	ctr.flock, err = lockfile.New(lockFilePath)
@@ -147,35 +209,40 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 			"Failed to create lockfile %s", lockFilePath)
 	}
 
-	err = ctr.flock.TryLock()
-	if _, ok := err.(interface {
-		Temporary() bool
-	}); ok {
-		err2 := errorf("%s is locked", path)
-		err2.locked = true
+	if err2 := ctr.lock(); err2 != nil {
 		return nil, err2
 	}
 
+	if err2 := ctr.open(); err2 != nil {
+		ctr.unlock()
+		return nil, err2
+	}
+
+	return &ctr, nil
+}
+
+// Reads the key file, if it exists, and opens the cache.
+func (ctr *fsContainer) open() Error {
 	// Check if the container exists
-	if _, err = os.Stat(ctr.path); os.IsNotExist(err) {
-		return &ctr, nil
+	if _, err := os.Stat(ctr.path); os.IsNotExist(err) {
+		return nil
 	}
 
 	// Open the container.
 	file, err := os.Open(ctr.path)
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to open keyfile %s", path)
+		return wrapErrorf(err, "Failed to open keyfile %s", ctr.path)
 	}
 	defer file.Close()
 
 	var keyHeader fsKeyHeader
 	err = binary.Read(file, binary.BigEndian, &keyHeader)
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to read keyfile header")
+		return wrapErrorf(err, "Failed to read keyfile header")
 	}
 
 	if FS_CONTAINER_KEY_MAGIC != hex.EncodeToString(keyHeader.Magic[:]) {
-		return &ctr, wrapErrorf(err, "Keyfile has invalid magic")
+		return wrapErrorf(err, "Keyfile has invalid magic")
 	}
 
 	ctr.params = keyHeader.Params
@@ -184,12 +251,12 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 	ctr.borrowed = keyHeader.Borrowed
 	_, err = io.ReadAtLeast(file, ctr.privateKey, ctr.params.PrivateKeySize())
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to read private key")
+		return wrapErrorf(err, "Failed to read private key")
 	}
 
 	ctr.initialized = true
 
-	return &ctr, ctr.openCache()
+	return ctr.openCache()
 }
 
 func (ctr *fsContainer) openCache() Error {
@@ -714,12 +781,17 @@ func (ctr *fsContainer) closeCache() (err error) {
 }
 
 func (ctr *fsContainer) Close() Error {
+	if ctr.closed {
+		// The lockfile might be someone else's by now.
+		return nil
+	}
+
 	var err error
 	if err2 := ctr.closeCache(); err2 != nil {
 		err = multierror.Append(err, wrapErrorf(err2,
 			"Could not close cache"))
 	}
-	if err2 := ctr.flock.Unlock(); err2 != nil {
+	if err2 := ctr.unlock(); err2 != nil {
 		err = multierror.Append(err, wrapErrorf(err2,
 			"Could not release file lock"))
 	}
-- 
2.43.0


From 79bda4be6be89a0976334c86f177bf532dbb0aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 09/31] fix: reset a missing, damaged or truncated subtree
 cache instead of refusing the key

---
 container.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/container.go b/container.go
index bd18fb2..ac33ec2 100644
--- a/container.go
+++ b/container.go
@@ -256,7 +256,14 @@ func (ctr *fsContainer) open() Error {
 
 	ctr.initialized = true
 
-	return ctr.openCache()
+	// The cache is expendable: if there is something wrong with it, we leave
+	// it uninitialized, so that it will be reset.
+	if err2 := ctr.openCache(); err2 != nil {
+		log.Logf("Failed to open cache of %s: %v", ctr.path, err2)
+		ctr.closeCache()
+	}
+
+	return nil
 }
 
 func (ctr *fsContainer) openCache() Error {
@@ -300,11 +307,27 @@ func (ctr *fsContainer) openCache() Error {
 		}
 
 		ctr.subTreeAlignment = int(header.SubTreeAlignment)
+		if ctr.subTreeAlignment == 0 {
+			ctr.subTreeAlignment = 4096
+		}
 	}
 
 	ctr.pageSize = os.Getpagesize()
 	ctr.allocatedSubTrees = header.AllocatedSubTrees
 
+	// Check whether all subtrees are there, as touching a mapping beyond
+	// the end of the file is fatal.
+	info, err := ctr.cacheFile.Stat()
+	if err != nil {
+		return wrapErrorf(err, "Failed to stat cache file")
+	}
+	space := info.Size() - int64(ctr.subTreeOffset(0))
+	paddedSize := int64(ctr.subTreeOffset(1) - ctr.subTreeOffset(0))
+	if ctr.allocatedSubTrees > 0 &&
+		(space < 0 || space/paddedSize < int64(ctr.allocatedSubTrees)) {
+		return errorf("Cache file is truncated")
+	}
+
 	// Read subtrees
 	var idx uint32
 	for idx = 0; idx < ctr.allocatedSubTrees; idx++ {
-- 
2.43.0


From 2bc311d4769ab60b5cdae6f84cd65958c23aebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 10/31] fix: bind the checksum of a cached subtree to its
 address and key

---
 core.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/core.go b/core.go
index bd607cf..b1bfeb0 100644
--- a/core.go
+++ b/core.go
@@ -302,7 +302,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
 
 		sk.mux.Lock()
-		intact := storedCheckSum == xxhash.Sum64(buf[:len(buf)-8])
+		intact := storedCheckSum == sk.subTreeCheckSum(sta, buf)
 		if intact {
 			sk.subTreeChecked[sta] = true
 			sk.mux.Unlock()
@@ -352,7 +352,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	// Called when we were sucessful in the end.
 	succeed := func() {
 		binary.BigEndian.PutUint64(buf[len(buf)-8:],
-			xxhash.Sum64(buf[:len(buf)-8]))
+			sk.subTreeCheckSum(sta, buf))
 
 		sk.mux.Lock()
 		sk.subTreeReady[sta] = true
@@ -411,6 +411,18 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	return
 }
 
+// Computes the checksum for the given cached subtree.
+//
+// It covers the address and public seed as well, so that a subtree
+// of another key or one stored for another address isn't mistaken as intact.
+func (sk *PrivateKey) subTreeCheckSum(sta SubTreeAddress, buf []byte) uint64 {
+	h := xxhash.New()
+	h.Write(buf[:len(buf)-8])
+	binary.Write(h, binary.BigEndian, &sta)
+	h.Write(sk.pubSeed)
+	return h.Sum64()
+}
+
 // Gets the next free sequence number
 func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	sk.mux.Lock()
-- 
2.43.0


From 3863182fbd9db669aae604cfe291d0d24c1ee8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 11/31] fix: check cached subtrees under the lock, so that
 repairs do not race

---
 core.go | 65 ++++++++++++++++++---------------------------------------
 1 file changed, 20 insertions(+), 45 deletions(-)

diff --git a/core.go b/core.go
index b1bfeb0..d4933a8 100644
--- a/core.go
+++ b/core.go
@@ -234,7 +234,6 @@ func (ctx *Context) subTreePathForSeqNo(seqNo SignatureSeqNo) (
 func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	mt *merkleTree, wotsSig []byte, err Error) {
 	alreadyDone := false
-	justCheckTheChecksum := false
 	isRoot := (sta.Layer == sk.ctx.p.D-1)
 	parentSta := SubTreeAddress{
 		Layer: sta.Layer + 1,
@@ -258,8 +257,25 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 				panic("This should not be possible")
 			}
 			if subTreeReady {
-				alreadyDone = true
-				justCheckTheChecksum = !sk.subTreeChecked[sta]
+				if sk.subTreeChecked[sta] {
+					alreadyDone = true
+					break
+				}
+
+				// The tree seems ready, but we just need to check whether it
+				// hasn't been corrupted.  We keep holding the lock, such that
+				// no other thread can correct or drop it at the same time.
+				log.Logf("Checking integrity of subtree %v ...", sta)
+				storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
+				if storedCheckSum == sk.subTreeCheckSum(sta, buf) {
+					sk.subTreeChecked[sta] = true
+					alreadyDone = true
+					break
+				}
+
+				// Mark the subtree not-ready
+				log.Logf("Subtree %v is corrupted.  Correcting it ...", sta)
+				sk.subTreeReady[sta] = false
 				break
 			}
 
@@ -291,48 +307,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	wotsSig = buf[sk.ctx.p.BareSubTreeSize() : sk.ctx.p.BareSubTreeSize()+int(sk.ctx.p.WotsSignatureSize())]
 
 	if alreadyDone {
-		if !justCheckTheChecksum {
-			return
-		}
-
-		log.Logf("Checking integrity of subtree %v ...", sta)
-
-		// The tree seems ready, but we just need to check whether it
-		// hasn't been corrupted.
-		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
-
-		sk.mux.Lock()
-		intact := storedCheckSum == sk.subTreeCheckSum(sta, buf)
-		if intact {
-			sk.subTreeChecked[sta] = true
-			sk.mux.Unlock()
-			return
-		}
-
-		// The tree seems corrupted.  Another thread might have reached the
-		// same conclusion, so we should check whether another thread is already
-		// correcting the problem for us.
-		if !sk.subTreeReady[sta] {
-			// There is another thread correcting the issue.  Lets wait
-			// for it.
-			log.Logf("Subtree %v is corrupted.  Another thread seems to be "+
-				"correcting the problem.  Waiting ...", sta)
-			for {
-				sk.cond.Wait()
-				if sk.subTreeReady[sta] {
-					log.Logf(" ... the subtree has been corrected.")
-					sk.mux.Unlock()
-					return
-				}
-
-				log.Logf(" ... not corrected, yet.")
-			}
-		}
-
-		// Mark the subtree not-ready
-		log.Logf("Subtree %v is corrupted.  Correcting it ...", sta)
-		sk.subTreeReady[sta] = false
-		sk.mux.Unlock()
+		return
 	}
 
 	sk.ctx.genSubTreeInto(pad, sk.skSeed, sk.ph, sta, mtDeref)
-- 
2.43.0


From baca411832418f9523edeedffd065cc5b711ae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 12/31] fix: recover when filling a subtree failed before

---
 container.go | 1 -
 core.go      | 7 ++-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/container.go b/container.go
index ac33ec2..81aa66f 100644
--- a/container.go
+++ b/container.go
@@ -459,7 +459,6 @@ func (ctr *fsContainer) writeCacheHeader() Error {
 	copy(cacheHeader.Magic[:], magic)
 	err = binary.Write(ctr.cacheFile, binary.BigEndian, &cacheHeader)
 	if err != nil {
-		ctr.cacheFile.Close()
 		return wrapErrorf(err, "failed to write to cache file")
 	}
 	return nil
diff --git a/core.go b/core.go
index d4933a8..e9afcb1 100644
--- a/core.go
+++ b/core.go
@@ -285,11 +285,8 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 			continue
 		}
 
-		if exists {
-			panic("This should not be possible")
-		}
-
-		// The sub tree does not yet exist.  We will have to fill it.
+		// The sub tree does not yet exist, or it was allocated before, but
+		// filling it failed.  We will have to fill it.
 		sk.subTreeReady[sta] = false
 		sk.subTreeChecked[sta] = true
 		break
-- 
2.43.0


From c2f4e61cb3ae6198188225a4c4cae6a94d524ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 13/31] fix: keep the container's record of borrowed sequence
 numbers exact when returning them and closing

---
 api.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/api.go b/api.go
index 2bd523a..209ec6b 100644
--- a/api.go
+++ b/api.go
@@ -513,12 +513,18 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 	}
 
 	if sk.borrowed > amount {
-		err := sk.ctr.SetSeqNo(sk.seqNo + SignatureSeqNo(amount))
+		// Return everything first and then borrow what we want to keep,
+		// so that the container keeps track of what might get lost.
+		// Even if SetSeqNo() fails, it might have reached the disk,
+		// so we can't use what we borrowed anymore.
+		sk.borrowed = 0
+		err := sk.ctr.SetSeqNo(sk.seqNo)
 		if err != nil {
 			return err
 		}
-		sk.borrowed = amount
-		return nil
+		if amount == 0 {
+			return nil
+		}
 	}
 
 	// sk.borrowed < amount
@@ -616,14 +622,19 @@ func (sk *PrivateKey) Close() Error {
 
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
-	if sk.borrowed > 0 {
-		sk.borrowed = 0
-		err := sk.ctr.SetSeqNo(sk.seqNo)
-		if err != nil {
-			return err
-		}
+	sk.borrowed = 0
+
+	// Return the sequence numbers we did not use.  Even if all were used,
+	// we have to clear the container's record of possibly lost ones.
+	seqNo, lostSigs, err := sk.ctr.GetSeqNo()
+	if err == nil && (lostSigs > 0 || seqNo != sk.seqNo) {
+		err = sk.ctr.SetSeqNo(sk.seqNo)
+	}
+
+	err2 := sk.ctr.Close()
+	if err == nil {
+		err = err2
 	}
-	err := sk.ctr.Close()
 	sk.cond.Broadcast()
 
 	return err
-- 
2.43.0


From 1ae946cbacb256b77b51e257b63f8d16bcf97ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 14/31] fix: keep retired sequence numbers in 64 bits

---
 api.go  |  4 ++--
 core.go |  6 +++---
 misc.go | 19 +++++++++++++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/api.go b/api.go
index 209ec6b..cd2484e 100644
--- a/api.go
+++ b/api.go
@@ -72,7 +72,7 @@ type PrivateKey struct {
 
 	// Heap of retired seqNo's larger than lesatSeqNoInUse.
 	// See PrivateKey.retireSeqNo().
-	retiredSeqNos *uint32Heap
+	retiredSeqNos *seqNoHeap
 
 	mux  sync.Mutex
 	cond *sync.Cond     // signalled when a subtree is generated
@@ -881,7 +881,7 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 
 	// We might forget to drop some cached subtrees, but that is probably
 	// the least of our worries now.
-	emptyHeap := uint32Heap([]uint32{})
+	emptyHeap := seqNoHeap([]SignatureSeqNo{})
 	sk.retiredSeqNos = &emptyHeap
 	heap.Init(sk.retiredSeqNos)
 	sk.leastSeqNoInUse = seqNo
diff --git a/core.go b/core.go
index e9afcb1..628dd76 100644
--- a/core.go
+++ b/core.go
@@ -503,7 +503,7 @@ func (ctx *Context) newPrivateKey(pad scratchPad, pubSeed, skSeed, skPrf []byte,
 	ret.cond = sync.NewCond(&ret.mux)
 	ret.subTreeReady = make(map[SubTreeAddress]bool)
 	ret.subTreeChecked = make(map[SubTreeAddress]bool)
-	emptyHeap := uint32Heap([]uint32{})
+	emptyHeap := seqNoHeap([]SignatureSeqNo{})
 	ret.retiredSeqNos = &emptyHeap
 	heap.Init(ret.retiredSeqNos)
 	ret.leastSeqNoInUse = seqNo
@@ -536,7 +536,7 @@ func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.leastSeqNoInUse != seqNo {
-		heap.Push(sk.retiredSeqNos, uint32(seqNo))
+		heap.Push(sk.retiredSeqNos, seqNo)
 		return
 	}
 
@@ -544,7 +544,7 @@ func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
 	// the leastSeqNoInUse counter by using seqNos in retiredSeqNos.
 	sk.incLeastSeqNoInUse()
 	for sk.retiredSeqNos.Len() != 0 &&
-		sk.retiredSeqNos.Min() == uint32(sk.leastSeqNoInUse) {
+		sk.retiredSeqNos.Min() == sk.leastSeqNoInUse {
 		heap.Pop(sk.retiredSeqNos)
 		sk.incLeastSeqNoInUse()
 	}
diff --git a/misc.go b/misc.go
index dd4988c..bc0d331 100644
--- a/misc.go
+++ b/misc.go
@@ -112,3 +112,22 @@ func (h *uint32Heap) Pop() interface{} {
 	*h = old[0 : n-1]
 	return x
 }
+
+// Priority queue of signature sequence numbers
+type seqNoHeap []SignatureSeqNo
+
+func (h seqNoHeap) Min() SignatureSeqNo { return h[0] }
+func (h seqNoHeap) Len() int            { return len(h) }
+func (h seqNoHeap) Less(i, j int) bool  { return h[i] < h[j] }
+func (h seqNoHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
+func (h *seqNoHeap) Push(x interface{}) {
+	*h = append(*h, x.(SignatureSeqNo))
+}
+
+func (h *seqNoHeap) Pop() interface{} {
+	old := *h
+	n := len(old)
+	x := old[n-1]
+	*h = old[0 : n-1]
+	return x
+}
-- 
2.43.0


From 672d22de34c0068cdf849c2b446e53802dd83d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 15/31] fix: do not borrow more sequence numbers than are left

---
 api.go  | 12 ++++++++++++
 core.go |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index cd2484e..903e6b8 100644
--- a/api.go
+++ b/api.go
@@ -500,6 +500,9 @@ func (sk *PrivateKey) BorrowExactlyIfBelow(amount, treshHold uint32) Error {
 // this to disk and correct the signature sequence number on Close().
 // The drawback is that with a crash or a missing Close(), we will loose the
 // signatures that were reserved.
+//
+// If there are less unused sequence numbers left than the given number, then
+// all of those left are reserved.
 func (sk *PrivateKey) BorrowExactly(amount uint32) Error {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
@@ -508,6 +511,15 @@ func (sk *PrivateKey) BorrowExactly(amount uint32) Error {
 
 // Implementation of BorrowExactly.  Requires sk.mux lock.
 func (sk *PrivateKey) borrowExactly(amount uint32) Error {
+	// We can't borrow more sequence numbers than there are left.
+	var left uint64
+	if uint64(sk.seqNo) < sk.ctx.p.MaxSignatureSeqNo() {
+		left = sk.ctx.p.MaxSignatureSeqNo() - uint64(sk.seqNo)
+	}
+	if uint64(amount) > left {
+		amount = uint32(left)
+	}
+
 	if sk.borrowed == amount {
 		return nil
 	}
diff --git a/core.go b/core.go
index 628dd76..ed45121 100644
--- a/core.go
+++ b/core.go
@@ -400,7 +400,7 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 
-	if uint64(sk.seqNo) == sk.ctx.p.MaxSignatureSeqNo() {
+	if uint64(sk.seqNo) >= sk.ctx.p.MaxSignatureSeqNo() {
 		return 0, errorf("No unused signatures left")
 	}
 
-- 
2.43.0


From ef01b42bfaa57f25d4110299a69854a28bb4ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:03 +0000
Subject: [PATCH 16/31] fix: do not use borrowed sequence numbers for another
 sequence number

---
 api.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/api.go b/api.go
index 903e6b8..d8ca57a 100644
--- a/api.go
+++ b/api.go
@@ -540,6 +540,18 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 	}
 
 	// sk.borrowed < amount
+	if sk.borrowed == 0 {
+		// After DangerousSetSeqNo() the container might be behind.
+		seqNo, _, err := sk.ctr.GetSeqNo()
+		if err != nil {
+			return err
+		}
+		if seqNo != sk.seqNo {
+			if err = sk.ctr.SetSeqNo(sk.seqNo); err != nil {
+				return err
+			}
+		}
+	}
 	_, err := sk.ctr.BorrowSeqNos(amount - sk.borrowed)
 	if err != nil {
 		return err
@@ -891,6 +903,9 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 	defer sk.mux.Unlock()
 	sk.seqNo = seqNo
 
+	// What we borrowed does not cover the new sequence number.
+	sk.borrowed = 0
+
 	// We might forget to drop some cached subtrees, but that is probably
 	// the least of our worries now.
 	emptyHeap := seqNoHeap([]SignatureSeqNo{})
-- 
2.43.0


From a4e6ea958cb4b9c7fa9a2e22c24fbab785f65302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 17/31] fix: check the parameters of a key file

---
 container.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/container.go b/container.go
index 81aa66f..38a77d4 100644
--- a/container.go
+++ b/container.go
@@ -245,6 +245,10 @@ func (ctr *fsContainer) open() Error {
 		return wrapErrorf(err, "Keyfile has invalid magic")
 	}
 
+	if _, err := NewContext(keyHeader.Params); err != nil {
+		return wrapErrorf(err, "Keyfile has invalid parameters")
+	}
+
 	ctr.params = keyHeader.Params
 	ctr.privateKey = make([]byte, ctr.params.PrivateKeySize())
 	ctr.seqNo = keyHeader.SeqNo
-- 
2.43.0


From 90b07b49094c1107465c214d30ee68eb355b195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:32 +0000
Subject: [PATCH 18/31] fix: do not encode parameters with N=0

---
 params.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/params.go b/params.go
index fe695d1..c0001d4 100644
--- a/params.go
+++ b/params.go
@@ -193,8 +193,8 @@ func (params *Params) WriteInto(buf []byte) error {
 	var val uint32
 	var wCode uint32
 	var prfCode uint32
-	if params.N%8 != 0 {
-		return errorf("N is not divisable by 8")
+	if params.N == 0 || params.N%8 != 0 {
+		return errorf("N is not a positive multiple of 8")
 	}
 	if params.N > 128 {
 		return errorf("N is too large")
-- 
2.43.0


From bf1d1cf67c74aa5dc4bb212ca5c9e574da88ff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 19/31] fix: copy the seeds a private key is derived from

---
 api.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index d8ca57a..0bb414f 100644
--- a/api.go
+++ b/api.go
@@ -469,7 +469,14 @@ func (ctx *Context) DeriveInto(ctr PrivateKeyContainer,
 	}
 
 	pad := ctx.newScratchPad()
-	sk, err := ctx.newPrivateKey(pad, pubSeed, skSeed, skPrf, 0, ctr)
+	// The seeds belong to the caller, so the private key needs its own copies.
+	sk, err := ctx.newPrivateKey(
+		pad,
+		append([]byte{}, pubSeed...),
+		append([]byte{}, skSeed...),
+		append([]byte{}, skPrf...),
+		0,
+		ctr)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From bb80185aced42ecbf97f5330158fc65b7fe7bc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 20/31] fix: do not precompute subtrees beyond the last and
 drop those precomputed too late

---
 api.go  | 15 +++----------
 core.go | 65 ++++++++++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 54 insertions(+), 26 deletions(-)

diff --git a/api.go b/api.go
index 0bb414f..b5dbac7 100644
--- a/api.go
+++ b/api.go
@@ -940,21 +940,12 @@ func (sk *PrivateKey) SeqNo() SignatureSeqNo {
 // of the Sign() function.
 func (sk *PrivateKey) EnableSubTreePrecomputation() {
 	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	sk.precomputeNextSubTree = true
 
 	// ensure the next subtree is computed
-	nextSta := SubTreeAddress{
+	sk.precomputeSubTree(SubTreeAddress{
 		Layer: 0,
 		Tree:  (uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1,
-	}
-	_, nextTreeExists := sk.subTreeReady[nextSta]
-	sk.mux.Unlock()
-
-	if !nextTreeExists {
-		sk.wg.Add(1)
-		go func() {
-			sk.getSubTree(sk.ctx.newScratchPad(), nextSta)
-			sk.wg.Done()
-		}()
-	}
+	})
 }
diff --git a/core.go b/core.go
index ed45121..81ce0b6 100644
--- a/core.go
+++ b/core.go
@@ -422,13 +422,7 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	// Check if we need to precompute a subtree
 	if sk.precomputeNextSubTree &&
 		(uint64(sk.seqNo)&((1<<sk.ctx.treeHeight)-1) == 0) {
-		sk.wg.Add(1)
-		go func(sta SubTreeAddress) {
-			log.Logf("Precomputing subtree %v", sta)
-			sk.getSubTree(sk.ctx.newScratchPad(), sta)
-			log.Logf("Finished precomputing subtree %v", sta)
-			sk.wg.Done()
-		}(SubTreeAddress{
+		sk.precomputeSubTree(SubTreeAddress{
 			Layer: 0,
 			Tree:  (uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1,
 		})
@@ -437,6 +431,42 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	return sk.seqNo - 1, nil
 }
 
+// Generates the given subtree in the background, if it is not cached yet.
+//
+// NOTE Assumes a lock on sk.mux.
+func (sk *PrivateKey) precomputeSubTree(sta SubTreeAddress) {
+	if _, exists := sk.subTreeReady[sta]; exists {
+		return
+	}
+
+	if sta.Tree > sk.ctx.p.MaxSignatureSeqNo()>>sk.ctx.treeHeight {
+		return // there is no next subtree
+	}
+
+	sk.wg.Add(1)
+	go func() {
+		defer sk.wg.Done()
+
+		log.Logf("Precomputing subtree %v", sta)
+		sk.getSubTree(sk.ctx.newScratchPad(), sta)
+		log.Logf("Finished precomputing subtree %v", sta)
+
+		// If we were late, then the subtree (and its ancestors) might already
+		// be exhausted and dropped by the time we generated it.
+		sk.mux.Lock()
+		defer sk.mux.Unlock()
+		stas, _ := sk.ctx.subTreePathForSeqNo(sk.leastSeqNoInUse)
+		for _, least := range stas {
+			if sta.Layer == least.Layer && sta.Tree < least.Tree &&
+				sk.subTreeReady[sta] {
+				sk.dropSubTree(sta)
+			}
+			sta.Layer += 1
+			sta.Tree >>= sk.ctx.treeHeight
+		}
+	}()
+}
+
 func (pad scratchPad) fBuf() []byte {
 	return pad.buf[:3*pad.n]
 }
@@ -568,12 +598,19 @@ func (sk *PrivateKey) incLeastSeqNoInUse() {
 			Layer: sta.Layer,
 			Tree:  sta.Tree - 1,
 		}
-		log.Logf("Dropping cached subtree %v ...", staToDrop)
-		if err := sk.ctr.DropSubTree(staToDrop); err != nil {
-			log.Logf("  failed to drop subtree %v: %v", staToDrop, err)
-		} else {
-			delete(sk.subTreeReady, staToDrop)
-			delete(sk.subTreeChecked, staToDrop)
-		}
+		sk.dropSubTree(staToDrop)
+	}
+}
+
+// Drops the given subtree from the cache.
+//
+// NOTE Assumes a lock on sk.mux.
+func (sk *PrivateKey) dropSubTree(sta SubTreeAddress) {
+	log.Logf("Dropping cached subtree %v ...", sta)
+	if err := sk.ctr.DropSubTree(sta); err != nil {
+		log.Logf("  failed to drop subtree %v: %v", sta, err)
+	} else {
+		delete(sk.subTreeReady, sta)
+		delete(sk.subTreeChecked, sta)
 	}
 }
-- 
2.43.0


From d2046a49d669ba1361bea7618529b547aff8dbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 21/31] fix: drop cached subtrees which were exhausted by lost
 signatures

---
 core.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core.go b/core.go
index 81ce0b6..06e2e71 100644
--- a/core.go
+++ b/core.go
@@ -543,9 +543,15 @@ func (ctx *Context) newPrivateKey(pad scratchPad, pubSeed, skSeed, skPrf []byte,
 	if err != nil {
 		return nil, err
 	}
+	staPath, _ := ctx.subTreePathForSeqNo(seqNo)
 	for _, sta := range stas {
 		ret.subTreeReady[sta] = true
 		ret.subTreeChecked[sta] = false
+
+		// If signatures were lost, the subtree might have become irrelevant.
+		if sta.Layer >= ctx.p.D || sta.Tree < staPath[sta.Layer].Tree {
+			ret.dropSubTree(sta)
+		}
 	}
 
 	// Compute (or fetch from cache) the root
-- 
2.43.0


From 158eb77c28257080e330aa8997f191447b56a949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 22/31] fix: refuse to encode and decode parameters with D=0

---
 params.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/params.go b/params.go
index c0001d4..ae56d9e 100644
--- a/params.go
+++ b/params.go
@@ -208,6 +208,9 @@ func (params *Params) WriteInto(buf []byte) error {
 	if params.D > 63 {
 		return errorf("D is too large")
 	}
+	if params.D == 0 {
+		return errorf("D can't be zero")
+	}
 	switch params.Prf {
 	case RFC:
 		prfCode = 0
@@ -255,6 +258,9 @@ func (params *Params) UnmarshalBinary(buf []byte) error {
 	if hashFunc > SHAKE256 {
 		return errorf("Unsupported hash function in compressed parameters")
 	}
+	if val&((1<<6)-1) == 0 {
+		return errorf("D can't be zero in compressed parameters")
+	}
 	comprN := (val >> 16) & ((1 << 4) - 1)
 	wCode := (val >> 12) & ((1 << 2) - 1)
 	rfcCode := (val >> 20) & 1
-- 
2.43.0


From 20c416b17fb15a7e5dd5c9ddded10e88a48c38e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:37 +0000
Subject: [PATCH 23/31] fix: refuse parameters too large for their encoding
 when creating a context

---
 api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api.go b/api.go
index b5dbac7..d51b8f2 100644
--- a/api.go
+++ b/api.go
@@ -740,6 +740,10 @@ func NewContext(params Params) (ctx *Context, err Error) {
 	if params.D == 0 {
 		return nil, errorf("D can't be zero")
 	}
+	if params.D > 63 || params.FullHeight > 63 {
+		// These do not fit in the encoding of the parameters.
+		return nil, errorf("D and FullHeight can be at most 63")
+	}
 
 	if params.FullHeight%params.D != 0 {
 		return nil, errorf("D does not divide FullHeight")
-- 
2.43.0


From ab56af603b3d557eb2b2655d7486dcad38842f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 24/31] fix: encode the index of instances of height zero,
 which takes no bytes

---
 misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc.go b/misc.go
index bc0d331..d8f47ed 100644
--- a/misc.go
+++ b/misc.go
@@ -8,7 +8,7 @@ import (
 
 // Encodes the given uint64 into the buffer out in Big Endian
 func encodeUint64Into(x uint64, out []byte) {
-	if len(out)%8 == 0 {
+	if len(out) > 0 && len(out)%8 == 0 {
 		binary.BigEndian.PutUint64(out[len(out)-8:], x)
 		for i := 0; i < len(out)-8; i += 8 {
 			binary.BigEndian.PutUint64(out[i:i+8], 0)
-- 
2.43.0


From 297693a7db7a56f0016db1b883c09fdf6181894c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 25/31] fix: do not return unsupported parameters for a name

---
 params.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/params.go b/params.go
index ae56d9e..aecb47a 100644
--- a/params.go
+++ b/params.go
@@ -333,7 +333,15 @@ func ParamsFromName2(name string) (*Params, Error) {
 	if ret != nil {
 		return ret, nil
 	}
-	return parseParamsFromName(name)
+	ret, err := parseParamsFromName(name)
+	if err != nil {
+		return nil, err
+	}
+	// The name might be well-formed, but denote unsupported parameters.
+	if _, err = NewContext(*ret); err != nil {
+		return nil, err
+	}
+	return ret, nil
 }
 
 func parseParamsFromName(name string) (*Params, Error) {
-- 
2.43.0


From b81be425f246397dae6a7a07d9226a73acab0038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 26/31] fix: bind the checksum of a cached subtree to the
 secret seed and parameters too

---
 core.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core.go b/core.go
index 06e2e71..90baa29 100644
--- a/core.go
+++ b/core.go
@@ -385,13 +385,15 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 
 // Computes the checksum for the given cached subtree.
 //
-// It covers the address and public seed as well, so that a subtree
+// It covers the address, seeds and parameters as well, so that a subtree
 // of another key or one stored for another address isn't mistaken as intact.
 func (sk *PrivateKey) subTreeCheckSum(sta SubTreeAddress, buf []byte) uint64 {
 	h := xxhash.New()
 	h.Write(buf[:len(buf)-8])
 	binary.Write(h, binary.BigEndian, &sta)
 	h.Write(sk.pubSeed)
+	h.Write(sk.skSeed)
+	binary.Write(h, binary.BigEndian, &sk.ctx.p)
 	return h.Sum64()
 }
 
-- 
2.43.0


From 28faebfaefeaf7ee3202ef884b1e4d15b32cb8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:12 +0000
Subject: [PATCH 27/31] fix: reset a subtree cache with an invalid alignment

---
 container.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/container.go b/container.go
index 38a77d4..d76c479 100644
--- a/container.go
+++ b/container.go
@@ -314,6 +314,12 @@ func (ctr *fsContainer) openCache() Error {
 		if ctr.subTreeAlignment == 0 {
 			ctr.subTreeAlignment = 4096
 		}
+		if ctr.subTreeAlignment%4096 != 0 {
+			// We never write these.  The first subtree could even
+			// overlap with the header.
+			return errorf("Cache file has invalid subtree alignment: %d",
+				ctr.subTreeAlignment)
+		}
 	}
 
 	ctr.pageSize = os.Getpagesize()
-- 
2.43.0


From 5b2deeeef338f17cbc3785c154059ed6a74315df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:25 +0000
Subject: [PATCH 28/31] fix: do not drop a subtree which is still being
 generated

---
 core.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core.go b/core.go
index 90baa29..86a6dc7 100644
--- a/core.go
+++ b/core.go
@@ -459,8 +459,7 @@ func (sk *PrivateKey) precomputeSubTree(sta SubTreeAddress) {
 		defer sk.mux.Unlock()
 		stas, _ := sk.ctx.subTreePathForSeqNo(sk.leastSeqNoInUse)
 		for _, least := range stas {
-			if sta.Layer == least.Layer && sta.Tree < least.Tree &&
-				sk.subTreeReady[sta] {
+			if sta.Layer == least.Layer && sta.Tree < least.Tree {
 				sk.dropSubTree(sta)
 			}
 			sta.Layer += 1
@@ -614,6 +613,12 @@ func (sk *PrivateKey) incLeastSeqNoInUse() {
 //
 // NOTE Assumes a lock on sk.mux.
 func (sk *PrivateKey) dropSubTree(sta SubTreeAddress) {
+	if ready, exists := sk.subTreeReady[sta]; exists && !ready {
+		// It is still being precomputed (as the signatures which needed it
+		// failed).  It will be dropped when that's done.
+		return
+	}
+
 	log.Logf("Dropping cached subtree %v ...", sta)
 	if err := sk.ctr.DropSubTree(sta); err != nil {
 		log.Logf("  failed to drop subtree %v: %v", sta, err)
-- 
2.43.0


From 4cb1176daf6f062e5487d4e4fdafa4b3fc16b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:19 +0000
Subject: [PATCH 29/31] fix: do not wrap the record of possibly lost signatures
 around

---
 container.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/container.go b/container.go
index d76c479..02329d1 100644
--- a/container.go
+++ b/container.go
@@ -671,12 +671,16 @@ func (ctr *fsContainer) BorrowSeqNos(amount uint32) (SignatureSeqNo, Error) {
 		return 0, errorf("Container is not initialized")
 	}
 
+	oldBorrowed := ctr.borrowed
 	ctr.borrowed += amount
+	if ctr.borrowed < amount {
+		ctr.borrowed = ^uint32(0) // can't record that many: don't wrap around
+	}
 	ctr.seqNo += SignatureSeqNo(amount)
 
 	if err := ctr.writeKeyFile(); err != nil {
 		// rollback
-		ctr.borrowed -= amount
+		ctr.borrowed = oldBorrowed
 		ctr.seqNo -= SignatureSeqNo(amount)
 		return 0, err
 	}
-- 
2.43.0


From ce3b8d930aa650d833fa014b64dc4caf9e4ba712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 30/31] fix: refuse names of which the hash size isn't a whole
 number of bytes

---
 params.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/params.go b/params.go
index aecb47a..72aafe3 100644
--- a/params.go
+++ b/params.go
@@ -418,6 +418,9 @@ func parseParamsFromName(name string) (*Params, Error) {
 	if n < 0 || int64(n) > int64(1)<<32 {
 		return nil, errorf("N out of bounds")
 	}
+	if n%8 != 0 {
+		return nil, errorf("N should be a multiple of eight")
+	}
 	ret.N = uint32(n) / 8
 
 	if ret.N == 24 {
-- 
2.43.0


From 3220cbab0ac699f810c2f3b18302fb7716e02591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 31/31] fix: refuse names which state a parameter twice

---
 params.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/params.go b/params.go
index 72aafe3..6baba4c 100644
--- a/params.go
+++ b/params.go
@@ -428,7 +428,14 @@ func parseParamsFromName(name string) (*Params, Error) {
 	}
 
 	ret.WotsW = 16
+	var seenPrf, seenW bool
 	for i := 3; i < len(bits); i++ {
+		if bits[i] == "NIST" || bits[i] == "RFC" {
+			if seenPrf {
+				return nil, errorf("PRF construction is given twice")
+			}
+			seenPrf = true
+		}
 		if bits[i] == "NIST" {
 			ret.Prf = NIST
 			continue
@@ -442,6 +449,10 @@ func parseParamsFromName(name string) (*Params, Error) {
 			return nil, errorf(
 				"Expected 'w[...]', NIST or RFC for fourth or fifth parameter")
 		}
+		if seenW {
+			return nil, errorf("WotsW is given twice")
+		}
+		seenW = true
 		w, err := strconv.Atoi(bits[i][1:])
 		if err != nil {
 			return nil, wrapErrorf(err, "Failed to parse WotsW parameter")
-- 
2.43.0

