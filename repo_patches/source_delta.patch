From 89c2a9fa5382e54171b2c9cb8a174b8f46f99d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 01/31] fix: keep every entry when a BTreeMap node splits,
 merges or is traversed

---
 btree_map.go | 80 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 29 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 7015fe5..e957466 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -50,11 +50,12 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 	if self.root == nil {
 		// Allocate memory for root
 		self.root = &BTreeNode[K, V]{
-			_Type:  _LEAF,
-			keys:   VecWithLen[*K](_BTREE_CAPACITY),
-			values: VecWithLen[*V](_BTREE_CAPACITY),
-			childs: VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
-			n:      1,
+			_Type:          _LEAF,
+			_MinimumDegree: _B,
+			keys:           VecWithLen[*K](_BTREE_CAPACITY),
+			values:         VecWithLen[*V](_BTREE_CAPACITY),
+			childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
+			n:              1,
 		}
 
 		self.root.keys.SetUnchecked(0, &key)
@@ -79,7 +80,7 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 			// Allocate memory for new root
 			newRoot := &BTreeNode[K, V]{
 				_Type:          _INTERNAL,
-				_MinimumDegree: _BTREE_CAPACITY,
+				_MinimumDegree: _B,
 				keys:           VecWithLen[*K](_BTREE_CAPACITY),
 				values:         VecWithLen[*V](_BTREE_CAPACITY),
 				childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
@@ -185,6 +186,12 @@ func (self *BTreeMap[K, V]) Remove(key K) Option[V] {
 	}
 
 	result, index := self.root._Search(key)
+	if result.IsNone() {
+		return None[V]()
+	}
+
+	// Read the value before the nodes are rearranged
+	value := *result.Unwrap().values.GetUnchecked(USize(index))
 
 	// Call the remove function for root
 	self.root._Remove(key)
@@ -199,22 +206,17 @@ func (self *BTreeMap[K, V]) Remove(key K) Option[V] {
 		}
 	}
 
-	if result.IsNone() {
-		return None[V]()
-	} else {
-		self.len--
-		return Some(*result.Unwrap().values.data[index])
-	}
+	self.len--
+	return Some(value)
 }
 
 // Debug only
 // Function to traverse all nodes in a subtree rooted with this node
 func (self BTreeNode[K, V]) _Traverse() {
-	// There are n keys and n+1 children, traverse through n keys
-	// and first n children
+	// There are n keys and n+1 children, traverse through all of them
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -225,17 +227,21 @@ func (self BTreeNode[K, V]) _Traverse() {
 		Println("{}, {}", self.keys.GetUnchecked(i), self.values.GetUnchecked(i))
 		i++
 	}
+
+	// The last child holds the keys greater than all of this node's keys
+	if self._Type != _LEAF && self.childs.GetUnchecked(i) != nil {
+		self.childs.GetUnchecked(i)._Traverse()
+	}
 }
 
 // To Vec[Pair[K, V]]
 func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 	vec := Vec[Pair[K, V]]{}
 
-	// There are n keys and n+1 children, traverse through n keys
-	// and first n children
+	// There are n keys and n+1 children, traverse through all of them
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -251,6 +257,12 @@ func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 		i++
 	}
 
+	// The last child holds the keys greater than all of this node's keys
+	if self._Type != _LEAF && self.childs.GetUnchecked(i) != nil {
+		childsVec := self.childs.GetUnchecked(i)._ToVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
@@ -258,11 +270,10 @@ func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 	vec := Vec[K]{}
 
-	// There are n keys and n+1 children, traverse through n keys
-	// and first n children
+	// There are n keys and n+1 children, traverse through all of them
 
 	i := USize(0)
-	for i < self.keys.Len() && i < USize(self.n) {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -280,6 +291,12 @@ func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 		i++
 	}
 
+	// The last child holds the keys greater than all of this node's keys
+	if self._Type != _LEAF && self.childs.GetUnchecked(i) != nil {
+		childsVec := self.childs.GetUnchecked(i)._ToKeyVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
@@ -287,11 +304,10 @@ func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 	vec := Vec[V]{}
 
-	// There are n keys and n+1 children, traverse through n keys
-	// and first n children
+	// There are n keys and n+1 children, traverse through all of them
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -308,6 +324,12 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 		i++
 	}
 
+	// The last child holds the keys greater than all of this node's keys
+	if self._Type != _LEAF && self.childs.GetUnchecked(i) != nil {
+		childsVec := self.childs.GetUnchecked(i)._ToValueVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
@@ -315,12 +337,12 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 func (self BTreeNode[K, V]) _Search(key K) (Option[*BTreeNode[K, V]], uint) {
 	// Find the first key greater than or equal to k
 	i := USize(0)
-	for i < self.keys.Len() && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingGreater {
+	for i < USize(self.n) && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingGreater {
 		i++
 	}
 
 	// If the found key is equal to k, return this node
-	if i < self.keys.Len() && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
+	if i < USize(self.n) && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
 		return Some[*BTreeNode[K, V]](&self), uint(i)
 	}
 
@@ -414,7 +436,7 @@ func (self *BTreeNode[K, V]) _InsertNonFull(key K, value V) {
 		}
 
 		// See if the found child is full
-		if self.childs.GetUnchecked(USize(i+1)).keys.Len() == _BTREE_CAPACITY {
+		if self.childs.GetUnchecked(USize(i+1)).n == _BTREE_CAPACITY {
 			// If the child is full, then split it
 			self.splitChild(i+1, self.childs.GetUnchecked(USize(i+1)))
 
@@ -443,7 +465,7 @@ func (self *BTreeNode[K, V]) splitChild(i int, y *BTreeNode[K, V]) {
 	z.n = self._MinimumDegree - 1
 
 	// Copy the last (t-1) keys of y to z
-	for j := 0; j < z._MinimumDegree; j++ {
+	for j := 0; j < self._MinimumDegree-1; j++ {
 		z.keys.SetUnchecked(USize(j), y.keys.GetUnchecked(USize(j+self._MinimumDegree)))
 		z.values.SetUnchecked(USize(j), y.values.GetUnchecked(USize(j+self._MinimumDegree)))
 	}
@@ -469,7 +491,7 @@ func (self *BTreeNode[K, V]) splitChild(i int, y *BTreeNode[K, V]) {
 
 	// A key of y will move to this node. Find location of
 	// new key and move all greater keys one space ahead
-	for j := self.n; j >= i; j-- {
+	for j := self.n - 1; j >= i; j-- {
 		self.keys.SetUnchecked(USize(j+1), self.keys.GetUnchecked(USize(j)))
 		self.values.SetUnchecked(USize(j+1), self.values.GetUnchecked(USize(j)))
 	}
-- 
2.43.0


From 0d2b54ed64f0e4bf15cab97cec333f84b26fffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 02/31] fix: iterate an empty BTreeSet instead of dereferencing
 a nil root

---
 btree_set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/btree_set.go b/btree_set.go
index 6a00e57..3064457 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -305,7 +305,11 @@ type BTreeSetIter[K Ord[K]] struct {
 
 // into_iter
 func (self *BTreeSet[K]) IntoIter() Iterator[K] {
-	keys := self._treemap.root._ToKeyVec()
+	keys := Vec[K]{}
+
+	if self._treemap.root != nil {
+		keys = self._treemap.root._ToKeyVec()
+	}
 
 	return &BTreeSetIter[K]{vec: keys, position: 0}
 }
-- 
2.43.0


From 3be8edf9adf1d800ee90267526c89398d5f43bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 03/31] fix: let BTreeSet.Clone terminate

---
 btree_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/btree_set.go b/btree_set.go
index 3064457..4773f79 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -441,8 +441,9 @@ func (self BTreeSet[K]) AsRef() *BTreeSet[K] {
 func (self BTreeSet[K]) Clone() BTreeSet[K] {
 	newSet := BTreeSetNew[K]()
 
+	iter := self.IntoIter()
 	for {
-		value := self.IntoIter().Next()
+		value := iter.Next()
 
 		if value.IsNone() {
 			return newSet
-- 
2.43.0


From 65ede426c2c29d4002379069600db3f0b66efeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 04/31] fix: let IsFinished and Join be called any number of
 times on a thread

---
 thread.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thread.go b/thread.go
index a27241a..477da69 100644
--- a/thread.go
+++ b/thread.go
@@ -47,8 +47,9 @@ func Spawn(f func()) JoinHandle {
 	channel := make(chan Unit)
 
 	go func() {
+		// Closing the channel tells every Join and IsFinished, now and later
+		defer close(channel)
 		f()
-		channel <- Unit{}
 	}()
 
 	return JoinHandle{
-- 
2.43.0


From 0fcee8926a2a5c26cb73de0066ec7584d2ae8e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 05/31] fix: sleep instead of panicking when a Duration exceeds
 time.Duration

---
 thread.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thread.go b/thread.go
index 477da69..bfc4f66 100644
--- a/thread.go
+++ b/thread.go
@@ -2,6 +2,7 @@ package gost
 
 import (
 	"fmt"
+	"math"
 	"time"
 )
 
@@ -14,7 +15,8 @@ func Sleep(dur Duration) {
 	duration, err := time.ParseDuration(durationString)
 
 	if err != nil {
-		panic(err)
+		// Longer than time.Duration can express
+		duration = math.MaxInt64
 	}
 
 	time.Sleep(duration)
-- 
2.43.0


From 7a85d4ad956a4c7404c225c12d96778b1f64874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:26 +0000
Subject: [PATCH 06/31] fix: give every Await of a gokio future the value, and
 never block its producer

---
 gokio/gokio.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gokio/gokio.go b/gokio/gokio.go
index 92acbf3..6719188 100644
--- a/gokio/gokio.go
+++ b/gokio/gokio.go
@@ -3,21 +3,23 @@ package gokio
 import "github.com/myyrakle/gost"
 
 type gokioFuture[T any] struct {
-	ch chan T
+	ch    chan struct{}
+	value T
 }
 
 func (self *gokioFuture[T]) Await() T {
-	return <-self.ch
+	<-self.ch
+	return self.value
 }
 
 func Spawn[T any](f func() T) gost.Future[T] {
-	ch := make(chan T)
+	ch := make(chan struct{})
 
 	future := gokioFuture[T]{ch: ch}
 
 	go func() {
 		defer close(ch)
-		ch <- f()
+		future.value = f()
 	}()
 
 	return &future
-- 
2.43.0


From 8f49e46266a269cbf7bf25de472d60fd4d8f31e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 07/31] fix: write a Println line in one piece

---
 io.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/io.go b/io.go
index ff5ff73..4b0184f 100644
--- a/io.go
+++ b/io.go
@@ -7,8 +7,7 @@ import (
 )
 
 func Println(format String, params ...any) {
-	Print(format, params...)
-	fmt.Println()
+	fmt.Println(Format(format, params...))
 }
 
 func Print(format String, params ...any) {
-- 
2.43.0


From c8f07ef6ab1cefedb9f1081364121b66d1b8520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:35 +0000
Subject: [PATCH 08/31] fix: read a whole line in Stdin.ReadLine and append it
 to the buffer

---
 io.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/io.go b/io.go
index 4b0184f..af16041 100644
--- a/io.go
+++ b/io.go
@@ -2,6 +2,7 @@ package gost
 
 import (
 	"fmt"
+	"os"
 	"sync"
 	"unicode/utf8"
 )
@@ -81,7 +82,26 @@ func (self *Stdin) ReadLine(buffer *String) {
 	self.lock.Lock()
 	defer self.lock.Unlock()
 
-	var line string
-	fmt.Scanln(&line)
-	*buffer = String(line)
+	line := []byte{}
+	next := make([]byte, 1)
+
+	// Byte by byte, so that nothing after the line is taken from the stream
+	for {
+		n, err := os.Stdin.Read(next)
+
+		if n == 1 && next[0] == '\n' {
+			if len(line) > 0 && line[len(line)-1] == '\r' {
+				line = line[:len(line)-1]
+			}
+			break
+		}
+
+		line = append(line, next[:n]...)
+
+		if err != nil {
+			break
+		}
+	}
+
+	*buffer += String(line)
 }
-- 
2.43.0


From e5ded2c3c98b1689bcfddc15f85a48569f4f4237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 09/31] fix: read files to their end instead of trusting one
 read call

---
 fs.go | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/fs.go b/fs.go
index 6f224e2..323af78 100644
--- a/fs.go
+++ b/fs.go
@@ -1,6 +1,7 @@
 package gost
 
 import (
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -85,15 +86,7 @@ func Read(path String) Result[[]Byte] {
 
 	defer file.Close()
 
-	stat, err := file.Stat()
-
-	if err != nil {
-		return Err[[]Byte](err)
-	}
-
-	data := make([]byte, stat.Size())
-
-	_, err = file.Read(data)
+	data, err := io.ReadAll(file)
 
 	if err != nil {
 		return Err[[]Byte](err)
@@ -185,15 +178,7 @@ func ReadToString(path String) Result[String] {
 
 	defer file.Close()
 
-	stat, err := file.Stat()
-
-	if err != nil {
-		return Err[String](err)
-	}
-
-	data := make([]byte, stat.Size())
-
-	_, err = file.Read(data)
+	data, err := io.ReadAll(file)
 
 	if err != nil {
 		return Err[String](err)
-- 
2.43.0


From 71f438c24a3e312367d191337968bfb6759d1218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:07 +0000
Subject: [PATCH 10/31] fix: report an error of closing the file in Write

---
 fs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fs.go b/fs.go
index 323af78..1c36b5f 100644
--- a/fs.go
+++ b/fs.go
@@ -36,8 +36,6 @@ func Write(path String, data []Byte) Result[any] {
 		return Err[any](err)
 	}
 
-	defer file.Close()
-
 	casted := []byte{}
 
 	for _, b := range data {
@@ -46,6 +44,10 @@ func Write(path String, data []Byte) Result[any] {
 
 	_, err = file.Write([]byte(casted))
 
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+
 	if err != nil {
 		return Err[any](err)
 	} else {
-- 
2.43.0


From 8f4b69dc7653cb5ed6fca608026370ab7c408c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 11/31] fix: keep RemoveFile off directories and RemoveDir off
 files

---
 fs.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fs.go b/fs.go
index 1c36b5f..8109fe2 100644
--- a/fs.go
+++ b/fs.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"syscall"
 )
 
 // Creates a new, empty directory at the provided path
@@ -19,10 +20,11 @@ func CreateDir(path String) Result[any] {
 
 // Removes an empty directory.
 func RemoveDir(path String) Result[any] {
-	err := os.Remove(string(path))
+	// Not os.Remove, which removes files too
+	err := syscall.Rmdir(string(path))
 
 	if err != nil {
-		return Err[any](err)
+		return Err[any](&os.PathError{Op: "rmdir", Path: string(path), Err: err})
 	} else {
 		return Ok[any](nil)
 	}
@@ -57,10 +59,11 @@ func Write(path String, data []Byte) Result[any] {
 
 // Removes a file from the filesystem.
 func RemoveFile(path String) Result[any] {
-	err := os.Remove(string(path))
+	// Not os.Remove, which removes empty directories too
+	err := syscall.Unlink(string(path))
 
 	if err != nil {
-		return Err[any](err)
+		return Err[any](&os.PathError{Op: "unlink", Path: string(path), Err: err})
 	} else {
 		return Ok[any](nil)
 	}
-- 
2.43.0


From ed923fe5d6048619e8fd5d27df9a0a4580245b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 12/31] fix: do not put blank entries in front of the result of
 ReadDir

---
 fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index 8109fe2..5115b3f 100644
--- a/fs.go
+++ b/fs.go
@@ -135,7 +135,7 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 	if err != nil {
 		return Err[Vec[DirEntry]](err)
 	} else {
-		vec := VecWithLen[DirEntry](USize(len(entries)))
+		vec := VecWithCapacity[DirEntry](USize(len(entries)))
 
 		for _, entry := range entries {
 			fileType := FileType{}
-- 
2.43.0


From e824445958e251eef2ddd6de5c92a6b74cc084c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 13/31] fix: tell directories and symlinks from files in
 ReadDir

---
 fs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fs.go b/fs.go
index 5115b3f..f11c679 100644
--- a/fs.go
+++ b/fs.go
@@ -140,11 +140,11 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 		for _, entry := range entries {
 			fileType := FileType{}
 
-			if entry.Type().Perm().IsDir() {
+			if entry.Type().IsDir() {
 				fileType.typeInfo = "dir"
-			} else if entry.Type().Perm().IsRegular() {
+			} else if entry.Type().IsRegular() {
 				fileType.typeInfo = "file"
-			} else if entry.Type().Perm()&os.ModeSymlink != 0 {
+			} else if entry.Type()&os.ModeSymlink != 0 {
 				fileType.typeInfo = "symlink"
 			}
 
-- 
2.43.0


From ca418d45dd41c8e707cb0df6352cf46e295e75c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 14/31] fix: copy the contents and permission bits of a file
 instead of hard-linking it

---
 fs.go | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index f11c679..0401c00 100644
--- a/fs.go
+++ b/fs.go
@@ -164,7 +164,45 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 // Copies the contents of one file to another. This function will also copy the permission bits of the original file to the destination file.
 // This function will overwrite the contents of to.
 func Copy(from String, to String) Result[any] {
-	err := os.Link(string(from), string(to))
+	source, err := os.Open(string(from))
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	defer source.Close()
+
+	info, err := source.Stat()
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	if !info.Mode().IsRegular() {
+		return Err[any](&os.PathError{Op: "copy", Path: string(from), Err: os.ErrInvalid})
+	}
+
+	// Copying a file onto itself must not empty it
+	if existing, err := os.Stat(string(to)); err == nil && os.SameFile(info, existing) {
+		return Ok[any](nil)
+	}
+
+	target, err := os.OpenFile(string(to), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, info.Mode().Perm())
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	_, err = io.Copy(target, source)
+
+	// The file may have existed, or the umask may have cleared some bits
+	if err == nil {
+		err = target.Chmod(info.Mode().Perm())
+	}
+
+	if closeErr := target.Close(); err == nil {
+		err = closeErr
+	}
 
 	if err != nil {
 		return Err[any](err)
-- 
2.43.0


From 50667b137db9b6c7f6860154c0b9c351aef72116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 15/31] fix: reserve capacity in Vec.Reserve without adding
 elements

---
 vec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vec.go b/vec.go
index f4570b0..e9055de 100644
--- a/vec.go
+++ b/vec.go
@@ -70,7 +70,9 @@ func (self Vec[T]) IsEmpty() Bool {
 //	gost.AssertEq(vec.Capacity(), gost.USize(10))
 func (self *Vec[T]) Reserve(additional USize) {
 	if self.Capacity() < self.Len()+additional {
-		self.data = append(self.data, make([]T, additional)...)
+		newData := make([]T, self.Len(), self.Len()+additional)
+		copy(newData, self.data)
+		self.data = newData
 	}
 }
 
-- 
2.43.0


From 70cdf3f3c7dc6808c88523d4810b93e2a10f8a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:10 +0000
Subject: [PATCH 16/31] fix: drop only consecutive duplicates in Vec.DedupByKey

---
 vec.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vec.go b/vec.go
index e9055de..6859a0e 100644
--- a/vec.go
+++ b/vec.go
@@ -183,13 +183,13 @@ func (self *Vec[T]) Retain(predicate func(T) Bool) {
 //	gost.AssertEq(vec.Len(), gost.USize(3))
 func (self *Vec[T]) DedupByKey(key func(T) any) {
 	newData := make([]T, 0, len(self.data))
-	seen := make(map[any]bool)
-	for _, value := range self.data {
+	var previous any
+	for i, value := range self.data {
 		k := key(value)
-		if !seen[k] {
-			seen[k] = true
+		if i == 0 || k != previous {
 			newData = append(newData, value)
 		}
+		previous = k
 	}
 	self.data = newData
 }
-- 
2.43.0


From 11c1985a36f01b95b30030b57f0b8633f28b257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:14 +0000
Subject: [PATCH 17/31] fix: hand the value back from Vec.Set when the index is
 out of bounds

---
 vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec.go b/vec.go
index 6859a0e..b9ad02b 100644
--- a/vec.go
+++ b/vec.go
@@ -261,7 +261,7 @@ func (self Vec[T]) GetUnchecked(index USize) T {
 //	gost.AssertEq(vec.GetUnchecked(0), gost.I32(4))
 func (self *Vec[T]) Set(index USize, value T) Option[T] {
 	if index < 0 || index >= self.Len() {
-		return Some[T](self.data[index])
+		return Some[T](value)
 	} else {
 		self.data[index] = value
 		return None[T]()
-- 
2.43.0


From 047a180bdc058586af641a89b4e3cb3b5d8be4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 18/31] fix: search a VecDeque in logical order when its ring
 buffer has wrapped

---
 vec_deque.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index e908ced..11bf316 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -413,7 +413,7 @@ func (self VecDeque[T]) BinarySearch(value T) Option[USize] {
 	for low <= high {
 		mid := (low + high) / 2
 
-		midData := castToOrd[T](self.buffer[mid]).Unwrap()
+		midData := castToOrd[T](self.GetUnchecked(USize(mid))).Unwrap()
 		ordering := midData.Cmp(value)
 
 		switch ordering {
@@ -457,7 +457,7 @@ func (self VecDeque[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 
 	for low <= high {
 		mid := (low + high) / 2
-		ordering := f(self.buffer[mid])
+		ordering := f(self.GetUnchecked(USize(mid)))
 
 		switch ordering {
 		case OrderingLess:
-- 
2.43.0


From ba0a3865575c4bae6bc2aa69e3cb21f7c2d2154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:24 +0000
Subject: [PATCH 19/31] fix: sort and slice the elements of a wrapped VecDeque,
 not its raw buffer

---
 vec_deque.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/vec_deque.go b/vec_deque.go
index 11bf316..ce18574 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -341,6 +341,8 @@ func (self *VecDeque[T]) Clear() {
 
 // Extracts a slice containing the entire vecdeque.
 func (self VecDeque[T]) AsSlice() []T {
+	self._MakeContiguous()
+
 	return self.buffer[:self.len]
 }
 
@@ -491,6 +493,8 @@ func (self VecDeque[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 //	gost.AssertEq(deque.GetUnchecked(1), gost.I32(2))
 //	gost.AssertEq(deque.GetUnchecked(2), gost.I32(3))
 func (self *VecDeque[T]) Sort() {
+	self._MakeContiguous()
+
 	sort.SliceStable(self.buffer[:self.len], func(i, j int) bool {
 		if castToOrd[T](self.buffer[i]).IsNone() {
 			typeName := getTypeName(self.buffer[i])
@@ -525,6 +529,8 @@ func (self *VecDeque[T]) Sort() {
 //	})
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortBy(f func(T, T) Ordering) {
+	self._MakeContiguous()
+
 	sort.SliceStable(self.buffer[:self.len], func(i, j int) bool {
 		return f(self.buffer[i], self.buffer[j]) == OrderingLess
 	})
@@ -540,6 +546,8 @@ func (self *VecDeque[T]) SortBy(f func(T, T) Ordering) {
 //	deque.SortUnstable()
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortUnstable() {
+	self._MakeContiguous()
+
 	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
 		if castToOrd[T](self.buffer[i]).IsNone() {
 			typeName := getTypeName(self.buffer[i])
@@ -574,11 +582,28 @@ func (self *VecDeque[T]) SortUnstable() {
 //	})
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortUnstableBy(f func(T, T) Ordering) {
+	self._MakeContiguous()
+
 	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
 		return f(self.buffer[i], self.buffer[j]) == OrderingLess
 	})
 }
 
+// Moves the elements to the start of the buffer, in logical order.
+func (self *VecDeque[T]) _MakeContiguous() {
+	if self.head == 0 {
+		return
+	}
+
+	newBuffer := make([]T, len(self.buffer))
+	for i := USize(0); i < self.len; i++ {
+		newBuffer[i] = self.GetUnchecked(i)
+	}
+
+	self.buffer = newBuffer
+	self.head = 0
+}
+
 // Returns `true` if the buffer is at full capacity.
 func (self VecDeque[T]) _IsFull() bool {
 	return self.len == USize(len(self.buffer))
-- 
2.43.0


From 720cf58f1e10baf5e554aa06531873b6c38c2e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:29 +0000
Subject: [PATCH 20/31] fix: leave a VecDeque intact when the Retain predicate
 panics

---
 vec_deque.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index ce18574..9146e57 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -194,17 +194,21 @@ func (self *VecDeque[T]) Append(other *VecDeque[T]) {
 //		return e == 2
 //	})
 func (self *VecDeque[T]) Retain(f func(T) Bool) {
-	newLen := USize(0)
+	// The predicate may panic: do not move anything before it has seen every element
+	retained := make([]T, 0, self.Len())
 
 	for i := USize(0); i < self.Len(); i++ {
 		value := self.GetUnchecked(i)
 		if f(value) {
-			self.SetUnchecked(newLen, value)
-			newLen++
+			retained = append(retained, value)
 		}
 	}
 
-	self.len = newLen
+	for i, value := range retained {
+		self.SetUnchecked(USize(i), value)
+	}
+
+	self.len = USize(len(retained))
 }
 
 // Removes consecutive repeated elements in the vector according to the PartialEq trait implementation.
-- 
2.43.0


From f1badf9079af9d168c263976d923a97e148eade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:34 +0000
Subject: [PATCH 21/31] fix: let VecDeque iterators be reversed, and start
 their adaptors at the current element

---
 vec_deque.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index 9146e57..f5faca6 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -751,7 +751,7 @@ func (self *VecDequeIter[T]) Next() Option[T] {
 func (self *VecDequeIter[T]) Map(f func(T) T) Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newDeque.PushBack(f(self.deque.Get(i).Unwrap()))
 	}
 
@@ -762,7 +762,7 @@ func (self *VecDequeIter[T]) Map(f func(T) T) Iterator[T] {
 func (self *VecDequeIter[T]) Filter(f func(T) Bool) Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		value := self.deque.Get(i).Unwrap()
 		if f(value) {
 			newDeque.PushBack(value)
@@ -776,7 +776,7 @@ func (self *VecDequeIter[T]) Filter(f func(T) Bool) Iterator[T] {
 func (self *VecDequeIter[T]) Fold(initial T, f func(T, T) T) T {
 	accumulator := initial
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		accumulator = f(accumulator, self.deque.Get(i).Unwrap())
 	}
 
@@ -787,8 +787,8 @@ func (self *VecDequeIter[T]) Fold(initial T, f func(T, T) T) T {
 func (self *VecDequeIter[T]) Rev() Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := self.deque.Len().WrappingSub(1); i >= 0; i-- {
-		newDeque.PushBack(self.deque.Get(i).Unwrap())
+	for i := self.deque.Len(); i > self.position; i-- {
+		newDeque.PushBack(self.deque.Get(i - 1).Unwrap())
 	}
 
 	return newDeque.IntoIter()
@@ -798,7 +798,7 @@ func (self *VecDequeIter[T]) Rev() Iterator[T] {
 func (self *VecDequeIter[T]) CollectToVec() Vec[T] {
 	newVec := VecWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newVec.Push(self.deque.Get(i).Unwrap())
 	}
 
@@ -809,7 +809,7 @@ func (self *VecDequeIter[T]) CollectToVec() Vec[T] {
 func (self *VecDequeIter[T]) CollectToLinkedList() LinkedList[T] {
 	newLinkedList := LinkedListNew[T]()
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newLinkedList.PushBack(self.deque.Get(i).Unwrap())
 	}
 
-- 
2.43.0


From 2c1722d9142223a0d4c1a76731b975efddaae700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 22/31] fix: reverse the elements in LinkedList iterators Rev

---
 linked_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linked_list.go b/linked_list.go
index 39389ca..9b83aa2 100644
--- a/linked_list.go
+++ b/linked_list.go
@@ -329,7 +329,7 @@ func (self LinkedListIter[T]) Rev() Iterator[T] {
 			break
 		}
 
-		newList.PushBack(value.Unwrap())
+		newList.PushFront(value.Unwrap())
 	}
 
 	return newList.IntoIter()
-- 
2.43.0


From fe7819dc6392ca6a61f17f28c1ab4d3bde140e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 23/31] fix: reverse and collect only what an iterator has not
 yielded yet

---
 btree_map.go | 45 ++++++++++++++++++++++++++++++++++++---------
 btree_set.go | 15 ++++++++++++---
 hash_map.go  | 45 ++++++++++++++++++++++++++++++++++++---------
 hash_set.go  | 15 ++++++++++++---
 vec.go       |  4 ++--
 5 files changed, 98 insertions(+), 26 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index e957466..64d73f6 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -849,8 +849,8 @@ func (self *BTreeMapIter[K, V]) Fold(init Pair[K, V], f func(Pair[K, V], Pair[K,
 
 // rev
 func (self BTreeMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
-	newVec := VecWithLen[Pair[K, V]](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[Pair[K, V]](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -865,7 +865,16 @@ func (self BTreeMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
 
 // Collect to Vec
 func (self BTreeMapIter[K, V]) CollectToVec() Vec[Pair[K, V]] {
-	return self.vec
+	vec := Vec[Pair[K, V]]{}
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -963,8 +972,8 @@ func (self *BTreeMapKeys[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self BTreeMapKeys[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -979,7 +988,16 @@ func (self BTreeMapKeys[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self BTreeMapKeys[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := Vec[K]{}
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -1077,8 +1095,8 @@ func (self *BTreeMapValues[V]) Fold(init V, f func(V, V) V) V {
 
 // rev
 func (self BTreeMapValues[V]) Rev() Iterator[V] {
-	newVec := VecWithLen[V](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[V](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -1093,7 +1111,16 @@ func (self BTreeMapValues[V]) Rev() Iterator[V] {
 
 // Collect to Vec
 func (self BTreeMapValues[V]) CollectToVec() Vec[V] {
-	return self.vec
+	vec := Vec[V]{}
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/btree_set.go b/btree_set.go
index 4773f79..660339d 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -372,8 +372,8 @@ func (self BTreeSetIter[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self BTreeSetIter[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -388,7 +388,16 @@ func (self BTreeSetIter[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self BTreeSetIter[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := Vec[K]{}
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/hash_map.go b/hash_map.go
index 632a11e..8f06a1e 100644
--- a/hash_map.go
+++ b/hash_map.go
@@ -188,8 +188,8 @@ func (self HashMapIter[K, V]) Fold(init Pair[K, V], f func(Pair[K, V], Pair[K, V
 
 // rev
 func (self HashMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
-	newVec := VecWithLen[Pair[K, V]](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[Pair[K, V]](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -204,7 +204,16 @@ func (self HashMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
 
 // Collect to Vec
 func (self HashMapIter[K, V]) CollectToVec() Vec[Pair[K, V]] {
-	return self.vec
+	vec := Vec[Pair[K, V]]{}
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -303,8 +312,8 @@ func (self HashMapKeys[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self HashMapKeys[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -319,7 +328,16 @@ func (self HashMapKeys[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self HashMapKeys[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := Vec[K]{}
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -411,8 +429,8 @@ func (self HashMapValues[V]) Fold(init V, f func(V, V) V) V {
 
 // rev
 func (self HashMapValues[V]) Rev() Iterator[V] {
-	newVec := VecWithLen[V](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[V](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -427,7 +445,16 @@ func (self HashMapValues[V]) Rev() Iterator[V] {
 
 // Collect to Vec
 func (self HashMapValues[V]) CollectToVec() Vec[V] {
-	return self.vec
+	vec := Vec[V]{}
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/hash_set.go b/hash_set.go
index 0d74497..124a1fb 100644
--- a/hash_set.go
+++ b/hash_set.go
@@ -403,8 +403,8 @@ func (self HashSetIter[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self HashSetIter[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -419,7 +419,16 @@ func (self HashSetIter[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self HashSetIter[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := Vec[K]{}
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/vec.go b/vec.go
index b9ad02b..e23b8f2 100644
--- a/vec.go
+++ b/vec.go
@@ -596,8 +596,8 @@ func (self VecIter[T]) Fold(init T, f func(T, T) T) T {
 
 // rev
 func (self VecIter[T]) Rev() Iterator[T] {
-	newVec := VecWithLen[T](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[T](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
-- 
2.43.0


From 4289c173e91c787f99594737276f27ce4647ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 24/31] fix: empty the other heap in BinaryHeap.Append

---
 binary_heap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binary_heap.go b/binary_heap.go
index 2d4121e..07c7d47 100644
--- a/binary_heap.go
+++ b/binary_heap.go
@@ -183,10 +183,11 @@ func (self *BinaryHeap[T]) _SiftDownToBottom(pos USize) {
 //	gost.AssertEq(heap.Len(), gost.USize(5))
 //	gost.AssertEq(heap2.Len(), gost.USize(0))
 func (self *BinaryHeap[T]) Append(other *BinaryHeap[T]) {
-	self.Reserve(self.Len() + other.Len())
+	self.Reserve(other.Len())
 	for _, item := range other.vec.data {
 		self.Push(item)
 	}
+	other.Clear()
 }
 
 // Clears the heap, removing all values.
-- 
2.43.0


From 39cad7dc60cefbd6cfa2e961fe9fd05ac5d40ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 25/31] fix: do not empty a file copied onto itself when
 inspecting the target fails

---
 fs.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/fs.go b/fs.go
index 0401c00..91b83be 100644
--- a/fs.go
+++ b/fs.go
@@ -182,14 +182,26 @@ func Copy(from String, to String) Result[any] {
 		return Err[any](&os.PathError{Op: "copy", Path: string(from), Err: os.ErrInvalid})
 	}
 
+	target, err := os.OpenFile(string(to), os.O_WRONLY|os.O_CREATE, info.Mode().Perm())
+
+	if err != nil {
+		return Err[any](err)
+	}
+
 	// Copying a file onto itself must not empty it
-	if existing, err := os.Stat(string(to)); err == nil && os.SameFile(info, existing) {
+	existing, err := target.Stat()
+
+	if err == nil && os.SameFile(info, existing) {
+		target.Close()
 		return Ok[any](nil)
 	}
 
-	target, err := os.OpenFile(string(to), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, info.Mode().Perm())
+	if err == nil {
+		err = target.Truncate(0)
+	}
 
 	if err != nil {
+		target.Close()
 		return Err[any](err)
 	}
 
-- 
2.43.0


From 956b7bd7599be5023db7650157ba39c674e095d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:30 +0000
Subject: [PATCH 26/31] fix: give entries their real path in ReadDir of a path
 with ".."

---
 fs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fs.go b/fs.go
index 91b83be..20501a0 100644
--- a/fs.go
+++ b/fs.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 	"syscall"
 )
 
@@ -150,6 +151,11 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 
 			entryPath := filepath.Join(string(path), entry.Name())
 
+			// Join drops ".." together with the element before it, which may be a symlink
+			if strings.Contains(string(path), "..") {
+				entryPath = strings.TrimRight(string(path), "/") + "/" + entry.Name()
+			}
+
 			vec.Push(DirEntry{
 				FileName: String(entry.Name()),
 				FileType: fileType,
-- 
2.43.0


From 7a9e2f7d991f80f2a20a94176aaf34dcb41eb32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:57 +0000
Subject: [PATCH 27/31] fix: VecDeque.Clone clones its elements, as the other
 collections do

---
 vec_deque.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vec_deque.go b/vec_deque.go
index f5faca6..488c420 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -858,7 +858,13 @@ func (self VecDeque[T]) Clone() *VecDeque[T] {
 	cloned := VecDequeWithCapacity[T](self.Capacity())
 
 	for i := USize(0); i < self.Len(); i++ {
-		cloned.PushBack(self.Get(i).Unwrap())
+		element := self.Get(i).Unwrap()
+
+		if clone := castToClone(element); clone.IsSome() {
+			element = clone.Unwrap().Clone()
+		}
+
+		cloned.PushBack(element)
 	}
 
 	return &cloned
-- 
2.43.0


From 1397bdef433ea81a22e8cdc5f0411b73184bc300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:56 +0000
Subject: [PATCH 28/31] fix: Vec.Fill fills with clones, as documented

---
 vec.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vec.go b/vec.go
index e23b8f2..709c6a9 100644
--- a/vec.go
+++ b/vec.go
@@ -414,7 +414,13 @@ func (self Vec[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 //	gost.AssertEq(vec.GetUnchecked(0), gost.I32(1))
 func (self *Vec[T]) Fill(value T) {
 	for i := 0; i < len(self.data); i++ {
-		self.data[i] = value
+		element := value
+
+		if clone := castToClone(value); clone.IsSome() {
+			element = clone.Unwrap().Clone()
+		}
+
+		self.data[i] = element
 	}
 }
 
-- 
2.43.0


From b541e4b1f943e69d8e8eaf699ef30734ede43042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:56 +0000
Subject: [PATCH 29/31] fix: VecDeque.Fill fills with clones, as documented

---
 vec_deque.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vec_deque.go b/vec_deque.go
index 488c420..8d60e89 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -386,7 +386,13 @@ func (self VecDeque[T]) Contains(value T) Bool {
 //	gost.AssertEq(deque.GetUnchecked(1), gost.I32(1))
 func (self *VecDeque[T]) Fill(value T) {
 	for i := USize(0); i < self.Len(); i++ {
-		self.SetUnchecked(i, value)
+		element := value
+
+		if clone := castToClone(value); clone.IsSome() {
+			element = clone.Unwrap().Clone()
+		}
+
+		self.SetUnchecked(i, element)
 	}
 }
 
-- 
2.43.0


From 3f025e659f36a9f7e221fb883148ee34dc6adefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:30 +0000
Subject: [PATCH 30/31] fix: USize.ToString prints values above MaxInt64 as
 they are

---
 to_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/to_string.go b/to_string.go
index 2e3192b..308249b 100644
--- a/to_string.go
+++ b/to_string.go
@@ -71,7 +71,7 @@ func (self I128) ToString() String {
 }
 
 func (self USize) ToString() String {
-	return String(strconv.Itoa(int(self)))
+	return String(strconv.FormatUint(uint64(self), 10))
 }
 
 func (self U8) ToString() String {
-- 
2.43.0


From d5b70b394daa4cd38d9934bc0d3542503833cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:30 +0000
Subject: [PATCH 31/31] fix: I128.Neg carries into the high half when the low
 half is zero

---
 ops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops.go b/ops.go
index 187ff22..2a2876a 100644
--- a/ops.go
+++ b/ops.go
@@ -3052,7 +3052,7 @@ func (self I128) Neg() I128 {
 	high := self.high
 	low := self.low
 
-	hasCarry := low == U64_MAX
+	hasCarry := low == 0
 
 	high = ^high
 	low = ^low
-- 
2.43.0

