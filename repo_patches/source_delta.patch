From 09f26edf596589df7c7ae65482a262d390b9c1a4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 01/34] fix: never reuse the identifier of an open context

Open numbered contexts by the amount of open contexts, so after closing an
older context the next one replaced a context that was still open.
---
 libs/databases/infrastructure/files/application.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index fa98f11..9604c9c 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -34,6 +34,7 @@ type application struct {
 	bckExtension                string
 	readChunkSize               uint
 	contexts                    map[uint]*context
+	nextIdentifier              uint
 }
 
 func createApplication(
@@ -152,7 +153,7 @@ func (app *application) Open(name string) (*uint, error) {
 
 	// create the context:
 	pContext := &context{
-		identifier:  uint(len(app.contexts)),
+		identifier:  app.nextIdentifier,
 		pConn:       pConn,
 		pLock:       pLock,
 		name:        name,
@@ -162,6 +163,7 @@ func (app *application) Open(name string) (*uint, error) {
 	}
 
 	app.contexts[pContext.identifier] = pContext
+	app.nextIdentifier++
 	return &pContext.identifier, nil
 }
 
-- 
2.43.0


From 895cdd9d54bd224aaafae0990b1544888c4a21f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 02/34] fix: replace the database in one step when committing

The source database was deleted before its replacement was renamed: a crash in
between left no database at all.
---
 libs/databases/infrastructure/files/application.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 9604c9c..aacc372 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -548,13 +548,7 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
-	// delete the source database:
-	err = os.Remove(sourcePath)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	// rename the destination database to source:
+	// rename the destination database to source, this replaces the source database at once:
 	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
 	destinationPath := filepath.Join(app.dirPath, destinationFile)
 	err = os.Rename(destinationPath, sourcePath)
-- 
2.43.0


From 208d0248bcd41f61480a0a2e418350560d0bc320 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 03/34] fix: copy all the existing data when committing

The copy loop stopped at the last, shorter, chunk (ReadAt returns io.EOF with
it), so every commit dropped up to a chunk of the data committed before and
moved the new data. It also ignored read and write errors, committing a
truncated database.
---
 .../infrastructure/files/application.go        | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index aacc372..895c00a 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -606,16 +606,21 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 	readOffset := int64(context.dataOffset)
 	writeOffset := int64(writtenAmount)
 	if context.reference != nil {
-		pInfo, _ := context.pConn.Stat()
+		pInfo, err := context.pConn.Stat()
+		if err != nil {
+			return nil, err
+		}
+
 		contentSize := pInfo.Size() - int64(context.dataOffset)
-		chunkSize := app.makeChunkSize(uint(contentSize))
+		for contentSize > 0 {
+			// the last chunk contains what remains:
+			chunkSize := app.makeChunkSize(uint(contentSize))
 
-		for {
 			// read the file at offset:
 			contentBytes := make([]byte, chunkSize)
 			amountRead, err := context.pConn.ReadAt(contentBytes, readOffset)
 			if err != nil {
-				break
+				return nil, err
 			}
 
 			if chunkSize != uint(amountRead) {
@@ -626,10 +631,11 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 			// write content on destination:
 			err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
 			if err != nil {
-				break
+				return nil, err
 			}
 
 			//update the offsets:
+			contentSize -= int64(amountRead)
 			readOffset += int64(amountRead)
 			writeOffset += int64(amountRead)
 		}
@@ -640,7 +646,7 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 		contentBytes := oneContent.Data()
 		err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
 		if err != nil {
-			break
+			return nil, err
 		}
 
 		// update the offset:
-- 
2.43.0


From d6302159de0bc9a9b3f43d4862cd95f2f810873b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 04/34] fix: a commit no longer repeats the content of the
 previous one

The pending content was kept after a successful commit, so the next commit of
the same context wrote it again.
---
 libs/databases/infrastructure/files/application.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 895c00a..7c0f8f9 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -408,6 +408,7 @@ func (app *application) Commit(context uint) error {
 		app.contexts[context].reference = updatedReference
 		app.contexts[context].dataOffset = *pDataOffset
 		app.contexts[context].pConn = pConn
+		app.contexts[context].contentList = []contents.Content{}
 		return nil
 	}
 
-- 
2.43.0


From 6fb8677026e58973a348d2cf4d9071a11f16703d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 05/34] fix: refuse to build an hashtree out of zero blocks

Building it panicked (index out of range), so committing a database context
without any pending content crashed the process.
---
 libs/cryptography/domain/hashtrees/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/cryptography/domain/hashtrees/builder.go b/libs/cryptography/domain/hashtrees/builder.go
index 03cf611..c776469 100644
--- a/libs/cryptography/domain/hashtrees/builder.go
+++ b/libs/cryptography/domain/hashtrees/builder.go
@@ -70,6 +70,10 @@ func (app *builder) Now() (HashTree, error) {
 		return createHashTree(*app.pHead, app.parent), nil
 	}
 
+	if app.blocks != nil && len(app.blocks) <= 0 {
+		app.blocks = nil
+	}
+
 	if app.blocks == nil {
 		return nil, errors.New("the blocks are mandatory in order to build an HashTree instance")
 	}
-- 
2.43.0


From 3d12d145bee8bbef13d52ed89d61dbddf8d5706f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 06/34] fix: keep the context usable when a commit fails

The connection of the context was closed before the database was replaced, so a
failure afterwards left a context that could neither be read nor closed.
---
 libs/databases/infrastructure/files/application.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 7c0f8f9..f7792cc 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -543,12 +543,6 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
-	// close the source connection:
-	err = context.pConn.Close()
-	if err != nil {
-		return nil, nil, err
-	}
-
 	// rename the destination database to source, this replaces the source database at once:
 	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
 	destinationPath := filepath.Join(app.dirPath, destinationFile)
@@ -569,6 +563,12 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
+	// close the previous source connection:
+	err = context.pConn.Close()
+	if err != nil {
+		return nil, nil, err
+	}
+
 	return pNewConn, pDataOffset, nil
 }
 
-- 
2.43.0


From 24ff4a5934de0e94e644bc0cc8927b2885f585f6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 07/34] fix: refuse to commit a context on a database that
 changed since

A context opened before another application committed rewrote the database from
its own outdated copy, losing the other commit.
---
 .../infrastructure/files/application.go       | 34 ++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index f7792cc..6303d29 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -503,9 +503,35 @@ func (app *application) updateReference(context uint) (references.Reference, err
 	return nil, errors.New(str)
 }
 
+// verifyIsCurrent returns an error if the database was replaced or deleted since the context read it
+func (app *application) verifyIsCurrent(context *context) error {
+	pContextInfo, err := context.pConn.Stat()
+	if err != nil {
+		return err
+	}
+
+	pInfo, err := os.Stat(filepath.Join(app.dirPath, context.name))
+	if err != nil {
+		return err
+	}
+
+	if !os.SameFile(pContextInfo, pInfo) {
+		str := fmt.Sprintf("the database (name: %s) has been modified since its context was opened and therefore the context cannot be comitted", context.name)
+		return errors.New(str)
+	}
+
+	return nil
+}
+
 func (app *application) updateDatabaseOnFile(context *context, updatedReference references.Reference) (*os.File, *uint, error) {
+	// locking would create the file if it no longer exists, so verify first:
+	err := app.verifyIsCurrent(context)
+	if err != nil {
+		return nil, nil, err
+	}
+
 	// create a lock on the file:
-	err := context.pLock.TryLock()
+	err = context.pLock.TryLock()
 	if err != nil {
 		return nil, nil, err
 	}
@@ -513,6 +539,12 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 	// release the lock on closing the method:
 	defer context.pLock.Unlock()
 
+	// verify again, now that nobody else can commit:
+	err = app.verifyIsCurrent(context)
+	if err != nil {
+		return nil, nil, err
+	}
+
 	// write data on the destination file:
 	pDataOffset, err := app.writeDataAndReferenceOnDestinationFile(context, updatedReference)
 	if err != nil {
-- 
2.43.0


From 2ff894a73b3dd769be559e3e3b0542fc750d64a3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 08/34] fix: refuse to open a database that cannot be read

A read error or a truncated header was taken for an empty database, which the
next commit then overwrote, and an invalid reference length panicked.
---
 .../infrastructure/files/application.go       | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 6303d29..325cdc8 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -187,7 +187,11 @@ func (app *application) retrieveReference(name string) (references.Reference, ui
 	// read the reference length in bytes:
 	refLengthBytes := make([]byte, expectedReferenceBytesLength)
 	refAmount, err := pConn.ReadAt(refLengthBytes, 0)
-	if err != nil || refAmount <= 0 {
+	if err != nil && err != io.EOF {
+		return nil, 0, err
+	}
+
+	if refAmount <= 0 {
 		return nil, 0, nil
 	}
 
@@ -196,8 +200,21 @@ func (app *application) retrieveReference(name string) (references.Reference, ui
 		return nil, 0, errors.New(str)
 	}
 
-	// convert the reference length to uint64:
-	refLength := int(binary.LittleEndian.Uint64(refLengthBytes))
+	// verify that the file can contain the reference:
+	pInfo, err := pConn.Stat()
+	if err != nil {
+		return nil, 0, err
+	}
+
+	maxLength := uint64(pInfo.Size() - expectedReferenceBytesLength)
+	length := binary.LittleEndian.Uint64(refLengthBytes)
+	if length <= 0 || length > maxLength {
+		str := fmt.Sprintf("the reference length (%d) is invalid, the database (name: %s) contains %d bytes after it", length, name, maxLength)
+		return nil, 0, errors.New(str)
+	}
+
+	// convert the reference length to int:
+	refLength := int(length)
 
 	// read the reference data:
 	refAllBytes := []byte{}
-- 
2.43.0


From b581cdd5d4b65a04b2b071460cfa9d1a1c10beb7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 09/34] fix: return an error when reading a pointer outside the
 database

A pointer with a huge length panicked while allocating its content.
---
 libs/databases/infrastructure/files/application.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 325cdc8..998bc96 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -310,6 +310,17 @@ func (app *application) Read(context uint, pointer references.Pointer) ([]byte,
 	if pContext, ok := app.contexts[context]; ok {
 		offset := pContext.dataOffset + pointer.From()
 		length := pointer.Length()
+		pInfo, err := pContext.pConn.Stat()
+		if err != nil {
+			return nil, err
+		}
+
+		size := uint(pInfo.Size())
+		if pointer.From() > size || length > size {
+			str := fmt.Sprintf("the pointer (from: %d, length: %d) is outside the database, its size is %d bytes", pointer.From(), length, size)
+			return nil, errors.New(str)
+		}
+
 		contentBytes := make([]byte, length)
 		refContentAmount, err := pContext.pConn.ReadAt(contentBytes, int64(offset))
 		if err != nil {
-- 
2.43.0


From 993b8e57ae72a5aed9762bd7fd1a27f324b9d27a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 10/34] fix: return an error when decoding malformed bytes

The decoders of contents, references and hashtrees trusted the lengths found in
the bytes and panicked on truncated or corrupted content.
---
 .../domain/hashtrees/leaf_adapter.go           |  8 +++++++-
 .../domain/hashtrees/leaves_adapter.go         | 18 +++++++++++++++++-
 libs/databases/domain/contents/adapter.go      |  9 +++++++++
 libs/databases/domain/references/adapter.go    | 15 +++++++++++++++
 .../domain/references/commit_adapter.go        | 13 +++++++++++++
 .../domain/references/commits_adapter.go       | 13 ++++++++++++-
 .../domain/references/contentkeys_adapter.go   |  8 +++++++-
 7 files changed, 80 insertions(+), 4 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/leaf_adapter.go b/libs/cryptography/domain/hashtrees/leaf_adapter.go
index 779dec9..88472cd 100644
--- a/libs/cryptography/domain/hashtrees/leaf_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaf_adapter.go
@@ -154,7 +154,13 @@ func (app *leafAdapter) ContentToParentLeaf(content []byte) (ParentLeaf, error)
 		return nil, errors.New(str)
 	}
 
-	leftLength := int(binary.LittleEndian.Uint64(content[:8]))
+	leftBytesLength := binary.LittleEndian.Uint64(content[:8])
+	if leftBytesLength > uint64(contentLength-8) {
+		str := fmt.Sprintf("the left Leaf of the ParentLeaf instance was expected to contain %d bytes, %d remaining", leftBytesLength, contentLength-8)
+		return nil, errors.New(str)
+	}
+
+	leftLength := int(leftBytesLength)
 	left, err := app.ContentToLeaf(content[8 : 8+leftLength])
 	if err != nil {
 		return nil, err
diff --git a/libs/cryptography/domain/hashtrees/leaves_adapter.go b/libs/cryptography/domain/hashtrees/leaves_adapter.go
index 4a93b61..a96ba29 100644
--- a/libs/cryptography/domain/hashtrees/leaves_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaves_adapter.go
@@ -73,7 +73,18 @@ func (app *leavesAdapter) ToLeaves(content []byte) (Leaves, error) {
 	for i := 0; i < length; i++ {
 		lengthBeginsOn := lastEndsOn
 		lengthEndsOn := lengthBeginsOn + 8
-		leafLength := int(binary.LittleEndian.Uint64(content[lengthBeginsOn:lengthEndsOn]))
+		if lengthEndsOn > contentLength {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the size of a Leaf instance, %d provided", lengthEndsOn, contentLength)
+			return nil, errors.New(str)
+		}
+
+		leafBytesLength := binary.LittleEndian.Uint64(content[lengthBeginsOn:lengthEndsOn])
+		if leafBytesLength > uint64(contentLength-lengthEndsOn) {
+			str := fmt.Sprintf("the Leaf instance was expected to contain %d bytes, %d remaining", leafBytesLength, contentLength-lengthEndsOn)
+			return nil, errors.New(str)
+		}
+
+		leafLength := int(leafBytesLength)
 
 		endsOn := lengthEndsOn + leafLength
 		ins, err := app.leafAdapter.ContentToLeaf(content[lengthEndsOn:endsOn])
@@ -92,6 +103,11 @@ func (app *leavesAdapter) ToLeaves(content []byte) (Leaves, error) {
 func (app *leavesAdapter) ToHashTree(ins Leaves) (HashTree, error) {
 	list := ins.Leaves()
 	length := len(list)
+	if length < 2 || length%2 != 0 {
+		str := fmt.Sprintf("the amount of Leaf instances (%d) must be even in order to convert them to an HashTree instance", length)
+		return nil, errors.New(str)
+	}
+
 	if length == 2 {
 		left := list[0]
 		right := list[1]
diff --git a/libs/databases/domain/contents/adapter.go b/libs/databases/domain/contents/adapter.go
index 69ca82a..748a8aa 100644
--- a/libs/databases/domain/contents/adapter.go
+++ b/libs/databases/domain/contents/adapter.go
@@ -59,7 +59,16 @@ func (app *adapter) ToInstance(content []byte) (Contents, error) {
 		}
 
 		sizeDelimiter := 8
+		if len(remaining) < sizeDelimiter {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the size of a Content instance, %d remaining", sizeDelimiter, len(remaining))
+			return nil, errors.New(str)
+		}
+
 		size := binary.LittleEndian.Uint64(remaining[:sizeDelimiter])
+		if size > uint64(len(remaining)-sizeDelimiter) {
+			str := fmt.Sprintf("the Content instance was expected to contain %d bytes, %d remaining", size, len(remaining)-sizeDelimiter)
+			return nil, errors.New(str)
+		}
 
 		contentDelimiter := sizeDelimiter + int(size)
 		contentIns, err := app.contentAdapter.ToInstance(remaining[sizeDelimiter:contentDelimiter])
diff --git a/libs/databases/domain/references/adapter.go b/libs/databases/domain/references/adapter.go
index a833b38..85c94a2 100644
--- a/libs/databases/domain/references/adapter.go
+++ b/libs/databases/domain/references/adapter.go
@@ -61,6 +61,11 @@ func (app *adapter) ToReference(content []byte) (Reference, error) {
 
 	contentKeysBytesLengthDelimiter := uint64(8)
 	contentKeysBytesLength := binary.LittleEndian.Uint64(content[:contentKeysBytesLengthDelimiter])
+	if contentKeysBytesLength > uint64(contentLength) {
+		str := fmt.Sprintf("the ContentKeys size (%d) of the Reference instance is bigger than its content (%d bytes)", contentKeysBytesLength, contentLength)
+		return nil, errors.New(str)
+	}
+
 	contentKeysBytesDelimiter := int(contentKeysBytesLength + contentKeysBytesLengthDelimiter)
 	if contentLength < contentKeysBytesDelimiter {
 		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the ContentKeys size of the Reference instance, %d provided", contentKeysBytesDelimiter, contentLength)
@@ -73,7 +78,17 @@ func (app *adapter) ToReference(content []byte) (Reference, error) {
 	}
 
 	commitBytesLengthDelimiter := uint64(contentKeysBytesDelimiter + 8)
+	if commitBytesLengthDelimiter > uint64(contentLength) {
+		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the Commits size of the Reference instance, %d provided", commitBytesLengthDelimiter, contentLength)
+		return nil, errors.New(str)
+	}
+
 	commitBytesLength := binary.LittleEndian.Uint64(content[contentKeysBytesDelimiter:commitBytesLengthDelimiter])
+	if commitBytesLength > uint64(contentLength) {
+		str := fmt.Sprintf("the Commits size (%d) of the Reference instance is bigger than its content (%d bytes)", commitBytesLength, contentLength)
+		return nil, errors.New(str)
+	}
+
 	commitBytesDelimiter := int(commitBytesLength + commitBytesLengthDelimiter)
 	if contentLength < commitBytesDelimiter {
 		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the Commits size of the Reference instance, %d provided", commitBytesDelimiter, contentLength)
diff --git a/libs/databases/domain/references/commit_adapter.go b/libs/databases/domain/references/commit_adapter.go
index dd77eed..4bec60c 100644
--- a/libs/databases/domain/references/commit_adapter.go
+++ b/libs/databases/domain/references/commit_adapter.go
@@ -83,6 +83,10 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 
 	valuesBytesAmountDelimiter := createdOnDelimiter + 8
 	valueBytesAmount := binary.LittleEndian.Uint64(content[createdOnDelimiter:valuesBytesAmountDelimiter])
+	if valueBytesAmount > uint64(contentLength-valuesBytesAmountDelimiter) {
+		str := fmt.Sprintf("the values of the Commit instance were expected to contain %d bytes, %d remaining", valueBytesAmount, contentLength-valuesBytesAmountDelimiter)
+		return nil, errors.New(str)
+	}
 
 	valueBytesDelimiter := valuesBytesAmountDelimiter + int(valueBytesAmount)
 	values, err := app.hashTreeAdapter.ToHashTree(content[valuesBytesAmountDelimiter:valueBytesDelimiter])
@@ -96,7 +100,16 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 		if remaining[0:1][0] == 0 {
 			remaining = remaining[1:]
 			proofBytesLengthDelimiter := 8
+			if len(remaining) < proofBytesLengthDelimiter {
+				str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the proof size of the Commit instance, %d remaining", proofBytesLengthDelimiter, len(remaining))
+				return nil, errors.New(str)
+			}
+
 			proofBytesLength := binary.LittleEndian.Uint64(remaining[:proofBytesLengthDelimiter])
+			if proofBytesLength > uint64(len(remaining)-proofBytesLengthDelimiter) {
+				str := fmt.Sprintf("the proof of the Commit instance was expected to contain %d bytes, %d remaining", proofBytesLength, len(remaining)-proofBytesLengthDelimiter)
+				return nil, errors.New(str)
+			}
 
 			proofBytesDelimiter := proofBytesLengthDelimiter + int(proofBytesLength)
 			pProof := big.NewInt(int64(0)).SetBytes(remaining[proofBytesLengthDelimiter:proofBytesDelimiter])
diff --git a/libs/databases/domain/references/commits_adapter.go b/libs/databases/domain/references/commits_adapter.go
index 0015a1c..c87160e 100644
--- a/libs/databases/domain/references/commits_adapter.go
+++ b/libs/databases/domain/references/commits_adapter.go
@@ -60,7 +60,18 @@ func (app *commitsAdapter) ToCommits(content []byte) (Commits, error) {
 		}
 
 		lengthDelimiter := index + 8
-		length := int(binary.LittleEndian.Uint64(content[index:lengthDelimiter]))
+		if amount < 8 {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the size of a Commit instance, %d remaining", 8, amount)
+			return nil, errors.New(str)
+		}
+
+		commitLength := binary.LittleEndian.Uint64(content[index:lengthDelimiter])
+		if commitLength > uint64(amount-8) {
+			str := fmt.Sprintf("the Commit instance was expected to contain %d bytes, %d remaining", commitLength, amount-8)
+			return nil, errors.New(str)
+		}
+
+		length := int(commitLength)
 		contentDelimiter := lengthDelimiter + length
 		ins, err := app.adapter.ToCommit(content[lengthDelimiter:contentDelimiter])
 		if err != nil {
diff --git a/libs/databases/domain/references/contentkeys_adapter.go b/libs/databases/domain/references/contentkeys_adapter.go
index 4699e79..01fe6ce 100644
--- a/libs/databases/domain/references/contentkeys_adapter.go
+++ b/libs/databases/domain/references/contentkeys_adapter.go
@@ -53,7 +53,13 @@ func (app *contentKeysAdapter) ToContentKeys(content []byte) (ContentKeys, error
 	}
 
 	list := []ContentKey{}
-	length := int(binary.LittleEndian.Uint64(content[:8]))
+	amount := binary.LittleEndian.Uint64(content[:8])
+	if amount > uint64((len(content)-8)/contentKeySize) {
+		str := fmt.Sprintf("the content was expected to contain %d ContentKey instances, its %d bytes are not enough", amount, len(content))
+		return nil, errors.New(str)
+	}
+
+	length := int(amount)
 	for i := 0; i < length; i++ {
 		beginsOn := 8 + (i * contentKeySize)
 		endsOn := beginsOn + contentKeySize
-- 
2.43.0


From 99bae7a306a2c4c597a4bd4184f91ef018d0f949 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 11/34] fix: order each data block once

Ordering replaced every leaf of the same hash by the same block, so blocks that
equal the filling leaves (empty ones) were multiplied and the ordering failed,
and a block that belongs to no leaf could be replaced by a copy of another.
---
 libs/cryptography/domain/hashtrees/adapter.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/adapter.go b/libs/cryptography/domain/hashtrees/adapter.go
index fdd8ca4..d310300 100644
--- a/libs/cryptography/domain/hashtrees/adapter.go
+++ b/libs/cryptography/domain/hashtrees/adapter.go
@@ -96,7 +96,7 @@ func (app *adapter) ToCompact(ins HashTree) (Compact, error) {
 
 // ToOrder takes an hashtree and mixed data and re-order the data according to the hashTree
 func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
-	hashed := map[string][]byte{}
+	hashed := map[string][][]byte{}
 	for _, oneData := range mixed {
 		hsh, err := app.hashAdapter.FromBytes(oneData)
 		if err != nil {
@@ -104,7 +104,7 @@ func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
 		}
 
 		hashAsString := hsh.String()
-		hashed[hashAsString] = oneData
+		hashed[hashAsString] = append(hashed[hashAsString], oneData)
 	}
 
 	out := [][]byte{}
@@ -116,8 +116,10 @@ func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
 	list := leaves.Leaves()
 	for _, oneLeaf := range list {
 		leafHashAsString := oneLeaf.Head().String()
-		if oneData, ok := hashed[leafHashAsString]; ok {
-			out = append(out, oneData)
+		if sameData := hashed[leafHashAsString]; len(sameData) > 0 {
+			// each data block takes the place of a single leaf:
+			out = append(out, sameData[0])
+			hashed[leafHashAsString] = sameData[1:]
 			continue
 		}
 
-- 
2.43.0


From 1b76156d2cb183e9c2c8c1a9848b43a2e307cc95 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 12/34] fix: do not write in the blocks received to build an
 hashtree

Appending the filling block to a slice of a bigger one overwrote the caller's
next block.
---
 libs/cryptography/domain/hashtrees/builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cryptography/domain/hashtrees/builder.go b/libs/cryptography/domain/hashtrees/builder.go
index c776469..0b27570 100644
--- a/libs/cryptography/domain/hashtrees/builder.go
+++ b/libs/cryptography/domain/hashtrees/builder.go
@@ -79,7 +79,7 @@ func (app *builder) Now() (HashTree, error) {
 	}
 
 	if len(app.blocks) <= 1 {
-		app.blocks = append(app.blocks, []byte(""))
+		app.blocks = [][]byte{app.blocks[0], []byte("")}
 	}
 
 	hashes := []hash.Hash{}
-- 
2.43.0


From 70d684f23d7554b6ae91e9a1e4717aca5d358c63 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 13/34] fix: keep the replaced database locked until the commit
 is completed

---
 libs/databases/infrastructure/files/application.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 998bc96..4fb26b7 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -603,9 +603,19 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
-	// rename the destination database to source, this replaces the source database at once:
+	// lock the destination database as well, it becomes the source database before this commit is completed:
 	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
 	destinationPath := filepath.Join(app.dirPath, destinationFile)
+	pDestinationLock := fslock.New(destinationPath)
+	err = pDestinationLock.TryLock()
+	if err != nil {
+		return nil, nil, err
+	}
+
+	// release the lock on closing the method:
+	defer pDestinationLock.Unlock()
+
+	// rename the destination database to source, this replaces the source database at once:
 	err = os.Rename(destinationPath, sourcePath)
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From fe755f46632eb81ba6ec4f9e3015b129b0774c00 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 14/34] fix: read the reference and the content of a database
 from the same file

---
 .../infrastructure/files/application.go       | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 4fb26b7..ca39255 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -136,15 +136,17 @@ func (app *application) Open(name string) (*uint, error) {
 		}
 	}
 
-	reference, offset, err := app.retrieveReference(name)
+	// open the connection:
+	path := filepath.Join(app.dirPath, name)
+	pConn, err := os.Open(path)
 	if err != nil {
 		return nil, err
 	}
 
-	// open the connection:
-	path := filepath.Join(app.dirPath, name)
-	pConn, err := os.Open(path)
+	// read the reference from that connection, the database could be replaced in between otherwise:
+	reference, offset, err := app.retrieveReference(name, pConn)
 	if err != nil {
+		pConn.Close()
 		return nil, err
 	}
 
@@ -175,15 +177,7 @@ func (app *application) makeChunkSize(length uint) uint {
 	return app.readChunkSize
 }
 
-func (app *application) retrieveReference(name string) (references.Reference, uint, error) {
-	path := filepath.Join(app.dirPath, name)
-	pConn, err := os.Open(path)
-	if err != nil {
-		return nil, 0, err
-	}
-
-	defer pConn.Close()
-
+func (app *application) retrieveReference(name string, pConn *os.File) (references.Reference, uint, error) {
 	// read the reference length in bytes:
 	refLengthBytes := make([]byte, expectedReferenceBytesLength)
 	refAmount, err := pConn.ReadAt(refLengthBytes, 0)
-- 
2.43.0


From 0484df442f719f86ed8be96f384f6c0ea2ef17ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 15/34] fix: creating a database never replaces an existing one

---
 libs/databases/infrastructure/files/application.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index ca39255..e9eaaa7 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -103,7 +103,8 @@ func (app *application) New(name string) error {
 		return errors.New(str)
 	}
 
-	file, err := os.Create(path)
+	// never replace a database that has been created since, or that could not be verified:
+	file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From df16bc9302683717aac3c044d9125df1482d7270 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 16/34] fix: a compose matches the data of each of its
 occurences

---
 libs/asts/applications/application.go | 36 +++++++++++++--------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 8c87ccf..213ab1f 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -743,30 +743,28 @@ func (app *application) line(tokenName string, stackMap map[string]*stack, line
 			elementsList := compose.List()
 			for _, oneElement := range elementsList {
 				grValue := oneElement.Value()
-				value, rem, retStack, err := app.elementValue(tokenName, grValue, stackMap, escape, channels, isReverse, prevData, remaining)
-				if err != nil {
-					return nil, nil, nil, err
-				}
+				occurences := int(oneElement.Occurences())
+				for i := 0; i < occurences; i++ {
+					value, rem, retStack, err := app.elementValue(tokenName, grValue, currentStack, escape, channels, isReverse, previousData, remaining)
+					if err != nil {
+						return nil, nil, nil, err
+					}
 
-				contentBuilder := app.treeContentBuilder.Create()
-				if value != nil {
-					contentBuilder.WithValue(value)
-				}
+					contentBuilder := app.treeContentBuilder.Create()
+					if value != nil {
+						contentBuilder.WithValue(value)
+					}
 
-				contentIns, err := contentBuilder.Now()
-				if err != nil {
-					return nil, nil, nil, err
-				}
+					contentIns, err := contentBuilder.Now()
+					if err != nil {
+						return nil, nil, nil, err
+					}
 
-				contentsList := []trees.Content{}
-				occurences := int(oneElement.Occurences())
-				for i := 0; i < occurences; i++ {
 					contentsList = append(contentsList, contentIns)
+					currentStack = retStack
+					previousData = remaining
+					remaining = rem
 				}
-
-				currentStack = retStack
-				previousData = remaining
-				remaining = rem
 			}
 
 			contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
-- 
2.43.0


From 87f65b5dbd39c96dbc1866a11b9412965cb14815 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 17/34] fix: the data that follows an external token is no
 longer lost

---
 libs/asts/applications/application.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 213ab1f..a69cc68 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -578,7 +578,16 @@ func (app *application) external(external grammars.External, isReverse bool, pre
 	}
 
 	treeBlock := treeIns.Block()
-	return app.treeBuilder.Create().WithGrammar(grammarRoot).WithBlock(treeBlock).Now()
+	treeBuilder := app.treeBuilder.Create().WithGrammar(grammarRoot).WithBlock(treeBlock)
+	if treeIns.HasSuffix() {
+		treeBuilder.WithSuffix(treeIns.Suffix())
+	}
+
+	if treeIns.HasRemaining() {
+		treeBuilder.WithRemaining(treeIns.Remaining())
+	}
+
+	return treeBuilder.Now()
 }
 
 func (app *application) block(token grammars.Token, stackMap map[string]*stack, block grammars.Block, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Block, []byte, map[string]*stack, error) {
-- 
2.43.0


From 362e4025904d88a3b54f773d59f7652f54d792a2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 18/34] fix: a token can be used recursively more than once

---
 libs/asts/applications/application.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index a69cc68..95a6c71 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -511,7 +511,8 @@ func (app *application) grammar(grammar grammars.Grammar, isReverse bool, prevDa
 
 func (app *application) token(token grammars.Token, stackMap map[string]*stack, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Tree, map[string]*stack, error) {
 	tokenName := token.Name()
-	if _, ok := stackMap[tokenName]; !ok {
+	_, isInStack := stackMap[tokenName]
+	if !isInStack {
 		stackMap[tokenName] = &stack{
 			token: token,
 			lines: map[int][]byte{},
@@ -520,7 +521,12 @@ func (app *application) token(token grammars.Token, stackMap map[string]*stack,
 
 	tokenBlock := token.Block()
 	block, remaining, retStackMap, err := app.block(token, stackMap, tokenBlock, escape, channels, isReverse, prevData, currentData)
-	delete(stackMap, tokenName)
+
+	// a recursive call leaves the token in the stack, the caller is still using it:
+	if !isInStack {
+		delete(stackMap, tokenName)
+	}
+
 	if err != nil {
 		return nil, nil, err
 	}
@@ -615,7 +621,9 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 			}
 		}
 
-		currentStack[tokenName].lines[idx] = remaining
+		lines := currentStack[tokenName].lines
+		previousLineData, hasPreviousLineData := lines[idx]
+		lines[idx] = remaining
 
 		// if the line is in reverse:
 		if isReverse {
@@ -713,6 +721,14 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 
 		// the line is NOT in reverse:
 		lineIns, rem, retStack, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, prevData, remaining)
+
+		// we are no longer going through this line with that data:
+		if hasPreviousLineData {
+			lines[idx] = previousLineData
+		} else {
+			delete(lines, idx)
+		}
+
 		if err != nil {
 			continue
 		}
-- 
2.43.0


From 40a1376ab709a487c6eba36232f41ad86269ef5d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 19/34] fix: everything stops at any line of its exception and
 handles each escaped exception

---
 libs/asts/applications/application.go | 197 +++++++++++++-------------
 1 file changed, 102 insertions(+), 95 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 95a6c71..f8b919a 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -597,6 +597,10 @@ func (app *application) external(external grammars.External, isReverse bool, pre
 }
 
 func (app *application) block(token grammars.Token, stackMap map[string]*stack, block grammars.Block, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Block, []byte, map[string]*stack, error) {
+	if isReverse {
+		return app.reverseBlock(token, stackMap, block, escape, channels, prevData, currentData)
+	}
+
 	tokenName := token.Name()
 	list := []trees.Line{}
 	lines := block.Lines()
@@ -625,101 +629,7 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 		previousLineData, hasPreviousLineData := lines[idx]
 		lines[idx] = remaining
 
-		// if the line is in reverse:
-		if isReverse {
-			previousData := prevData
-			contentsList := []trees.Content{}
-
-			for {
-				if len(remaining) <= 0 {
-					break
-				}
-
-				if escape != nil {
-					escapeTree, _, err := app.token(escape, stackMap, nil, channels, false, previousData, remaining)
-					if err == nil {
-						if escapeTree.Block().HasSuccessful() {
-							if escapeTree.HasRemaining() {
-								escapeRemaining := escapeTree.Remaining()
-								treeLine, rem, _, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, remaining, escapeRemaining)
-								if err == nil && treeLine.IsSuccessful() {
-									amount := len(escapeRemaining) - len(rem)
-									values := escapeRemaining[:amount]
-									for _, oneValue := range values {
-										value, err := app.treeValueBuilder.Create().WithContent(oneValue).Now()
-										if err != nil {
-											return nil, nil, nil, err
-										}
-
-										contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
-										if err != nil {
-											return nil, nil, nil, err
-										}
-
-										contentsList = append(contentsList, contentIns)
-									}
-
-									previousData = escapeRemaining
-									remaining = escapeRemaining[amount:]
-								}
-							}
-						}
-					}
-				}
-
-				_, _, _, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, previousData, remaining)
-				if err == nil {
-					break
-				}
-
-				value, err := app.treeValueBuilder.Create().WithContent(remaining[0]).Now()
-				if err != nil {
-					return nil, nil, nil, err
-				}
-
-				contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
-				if err != nil {
-					return nil, nil, nil, err
-				}
-
-				contentsList = append(contentsList, contentIns)
-				previousData = remaining
-				remaining = remaining[1:]
-			}
-
-			contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
-			if err != nil {
-				return nil, nil, nil, err
-			}
-
-			elementIns, err := app.treeElementBuilder.Create().WithContents(contents).Now()
-			if err != nil {
-				return nil, nil, nil, err
-			}
-
-			elements, err := app.treeElementsBuilder.Create().WithList([]trees.Element{
-				elementIns,
-			}).Now()
-			if err != nil {
-				return nil, nil, nil, err
-			}
-
-			lineIns, err := app.treeLineBuilder.Create().
-				WithIndex(uint(idx)).
-				WithGrammar(oneLine).
-				WithElements(elements).
-				IsReverse().
-				Now()
-
-			if err != nil {
-				return nil, nil, nil, err
-			}
-
-			list = append(list, lineIns)
-			break
-		}
-
-		// the line is NOT in reverse:
+		// execute the line:
 		lineIns, rem, retStack, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, prevData, remaining)
 
 		// we are no longer going through this line with that data:
@@ -755,6 +665,103 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 	return blockIns, remaining, currentStack, nil
 }
 
+// reverseBlock retrieves everything until one of the lines of the block matches
+func (app *application) reverseBlock(token grammars.Token, stackMap map[string]*stack, block grammars.Block, escape grammars.Token, channels grammars.Channels, prevData []byte, currentData []byte) (trees.Block, []byte, map[string]*stack, error) {
+	remaining := currentData
+	previousData := prevData
+	contentsList := []trees.Content{}
+	for len(remaining) > 0 {
+		begin, amount := 0, 1
+		escaped, escapedAmount := app.escaped(token, stackMap, block, escape, channels, previousData, remaining)
+		if escapedAmount > 0 {
+			begin, amount = escaped, escapedAmount
+		}
+
+		if escapedAmount <= 0 {
+			exception, _, _, err := app.block(token, stackMap, block, escape, channels, false, previousData, remaining)
+			if err == nil && exception != nil && exception.HasSuccessful() {
+				break
+			}
+		}
+
+		for _, oneValue := range remaining[begin : begin+amount] {
+			value, err := app.treeValueBuilder.Create().WithContent(oneValue).Now()
+			if err != nil {
+				return nil, nil, nil, err
+			}
+
+			contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
+			if err != nil {
+				return nil, nil, nil, err
+			}
+
+			contentsList = append(contentsList, contentIns)
+		}
+
+		previousData = remaining[begin:]
+		remaining = remaining[begin+amount:]
+	}
+
+	contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	elementIns, err := app.treeElementBuilder.Create().WithContents(contents).Now()
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	elements, err := app.treeElementsBuilder.Create().WithList([]trees.Element{
+		elementIns,
+	}).Now()
+
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	lineIns, err := app.treeLineBuilder.Create().
+		WithIndex(0).
+		WithGrammar(block.Lines()[0]).
+		WithElements(elements).
+		IsReverse().
+		Now()
+
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	blockIns, err := app.treeBlockBuilder.Create().WithLines([]trees.Line{
+		lineIns,
+	}).Now()
+
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	return blockIns, remaining, stackMap, nil
+}
+
+// escaped returns the position and length of the exception that is escaped at the beginning of the data, if any
+func (app *application) escaped(token grammars.Token, stackMap map[string]*stack, block grammars.Block, escape grammars.Token, channels grammars.Channels, prevData []byte, currentData []byte) (int, int) {
+	if escape == nil {
+		return 0, 0
+	}
+
+	escapeTree, _, err := app.token(escape, stackMap, nil, channels, false, prevData, currentData)
+	if err != nil || !escapeTree.Block().HasSuccessful() || !escapeTree.HasRemaining() {
+		return 0, 0
+	}
+
+	escapeRemaining := escapeTree.Remaining()
+	exception, remaining, _, err := app.block(token, stackMap, block, escape, channels, false, currentData, escapeRemaining)
+	if err != nil || exception == nil || !exception.HasSuccessful() {
+		return 0, 0
+	}
+
+	return len(currentData) - len(escapeRemaining), len(escapeRemaining) - len(remaining)
+}
+
 func (app *application) line(tokenName string, stackMap map[string]*stack, line grammars.Line, index uint, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Line, []byte, map[string]*stack, error) {
 	list := []trees.Element{}
 	grContainers := line.Containers()
-- 
2.43.0


From 3b7b66a357a2d4278e2a6169b0e54006264ec9e7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 20/34] fix: several elements of a line can have the same name

---
 libs/asts/domain/trees/line.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libs/asts/domain/trees/line.go b/libs/asts/domain/trees/line.go
index 7af697c..f8f3a61 100644
--- a/libs/asts/domain/trees/line.go
+++ b/libs/asts/domain/trees/line.go
@@ -88,6 +88,13 @@ func (obj *line) IsSuccessful() bool {
 	}
 
 	for _, oneContainer := range requested {
+		// the elements are in the order of the containers, those that are optional might be missing:
+		var element Element
+		if len(elements) > 0 && elements[0].HasGrammar() && elements[0].Grammar() == oneContainer {
+			element = elements[0]
+			elements = elements[1:]
+		}
+
 		if oneContainer.IsElement() {
 			requestedElement := oneContainer.Element()
 			requestedMin := requestedElement.Cardinality().Min()
@@ -95,9 +102,7 @@ func (obj *line) IsSuccessful() bool {
 				continue
 			}
 
-			requestedName := requestedElement.Name()
-			element, err := obj.elements.Fetch(requestedName)
-			if err != nil {
+			if element == nil {
 				return false
 			}
 
@@ -115,9 +120,7 @@ func (obj *line) IsSuccessful() bool {
 				requestedOccurences += oneElement.Occurences()
 			}
 
-			requestedName := compose.Name()
-			element, err := obj.elements.Fetch(requestedName)
-			if err != nil {
+			if element == nil {
 				return false
 			}
 
-- 
2.43.0


From b138fb05c02fae86c5da051255f44252d567d0da Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 21/34] fix: the bytes of a content include its channels when
 requested

---
 libs/asts/domain/trees/content.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/asts/domain/trees/content.go b/libs/asts/domain/trees/content.go
index 6ff43ed..8944562 100644
--- a/libs/asts/domain/trees/content.go
+++ b/libs/asts/domain/trees/content.go
@@ -32,9 +32,13 @@ func createContentInternally(
 // Bytes returns the content's bytes
 func (obj *content) Bytes(includeChannels bool) []byte {
 	if obj.IsValue() {
-		return []byte{
-			obj.Value().Content(),
+		output := []byte{}
+		value := obj.Value()
+		if includeChannels && value.HasPrefix() {
+			output = append(output, value.Prefix().Bytes(includeChannels)...)
 		}
+
+		return append(output, value.Content())
 	}
 
 	return obj.Tree().Bytes(includeChannels)
-- 
2.43.0


From 9ba415d65c94d17cca7089f9659911e288c29894 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 22/34] fix: skip the escapes of a channel as well

---
 libs/asts/applications/application.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index f8b919a..cf73d0c 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -1049,8 +1049,12 @@ func (app *application) channels(channels grammars.Channels, prevData []byte, cu
 				continue
 			}
 
-			prefixLength := len(tree.Bytes(true))
-			rem := remaining[prefixLength:]
+			// the bytes of the tree do not contain its escapes, so use what it did not match:
+			rem := []byte{}
+			if tree.HasRemaining() {
+				rem = tree.Remaining()
+			}
+
 			if len(rem) == len(remaining) {
 				continue
 			}
-- 
2.43.0


From 7de56e9d7e7c82cecf3b4b7c04f6f3760e999efd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 23/34] fix: a grammar without test suites covers nothing

---
 libs/asts/applications/application.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index cf73d0c..6663e6a 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -154,6 +154,10 @@ func (app *application) Coverages(grammar grammars.Grammar) (coverages.Coverages
 // Covered returns the covered tokens
 func (app *application) Covered(coverages coverages.Coverages) (map[string]map[uint]map[uint]string, error) {
 	coveredElements := map[string]map[uint]map[uint]string{}
+	if coverages == nil {
+		return coveredElements, nil
+	}
+
 	err := app.findCoveraredElements(coverages, &coveredElements)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 6c9411e1c7359a0a14e4713d1bbbef1e2e52a173 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 24/34] fix: the covered elements are identified by their
 position in the grammar

---
 libs/asts/applications/application.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 6663e6a..fa22aa3 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -464,12 +464,22 @@ func (app *application) findCoveraredElementsFromBlock(tokenName string, block t
 
 	line := block.Successful()
 	index := line.Index()
+	containers := line.Grammar().Containers()
+	containerIdx := 0
 	elementsList := line.Elements().List()
-	for elIdx, oneElement := range elementsList {
+	for _, oneElement := range elementsList {
 		if !oneElement.HasGrammar() {
 			continue
 		}
 
+		// the index is the one of the element in the grammar, since the optional elements might be missing:
+		elIdx := containerIdx
+		for elIdx < len(containers) && containers[elIdx] != oneElement.Grammar() {
+			elIdx++
+		}
+
+		containerIdx = elIdx + 1
+
 		elementName := oneElement.Grammar().Name()
 		covered := *pCovered
 		if _, ok := covered[tokenName]; !ok {
-- 
2.43.0


From 53264909c31b9b2211d6c09541d266c35f8720a2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 25/34] fix: return an error when a query has no content for
 its func

---
 libs/queries/applications/application.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index a6f0971..217d2d9 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -144,7 +144,7 @@ func (app *application) insideInstances(inside queries.Inside, contentList []tre
 	if inside.IsFn() {
 		fn := inside.Fn()
 		if fn.IsSingle() {
-			if len(contentList) < 0 {
+			if len(contentList) < 1 {
 				str := fmt.Sprintf("%d content instances were expected in the Content list, %d were provided", 1, len(contentList))
 				return nil, errors.New(str)
 			}
-- 
2.43.0


From f15419b07727e39f8d922570d9a678cc412fb1f7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 26/34] fix: a query skips the elements that have no grammar

---
 libs/queries/applications/application.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index 217d2d9..9787f30 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -80,6 +80,7 @@ func (app *application) queryContents(query queries.Query, tree trees.Tree) ([]t
 			}
 
 			cpt++
+			continue
 		}
 
 		if oneElement.Grammar().Name() != queryElement.Name() {
-- 
2.43.0


From e722ba7235d531cbde2b6c549dae91e89784ae3a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 27/34] fix: the components accept characters of more than one
 byte

---
 instances/grammars/components/tokens/token.go | 33 ++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/instances/grammars/components/tokens/token.go b/instances/grammars/components/tokens/token.go
index 903c412..cf11e3f 100644
--- a/instances/grammars/components/tokens/token.go
+++ b/instances/grammars/components/tokens/token.go
@@ -1,6 +1,8 @@
 package tokens
 
 import (
+	"unicode/utf8"
+
 	components_blocks "github.com/steve-care-software/rodkina/instances/grammars/components/blocks"
 	components_elements "github.com/steve-care-software/rodkina/instances/grammars/components/elements"
 	components_lines "github.com/steve-care-software/rodkina/instances/grammars/components/lines"
@@ -37,8 +39,8 @@ func createToken(
 // AllCharacters returns the all character token
 func (app *token) AllCharacters(tokenName string, values string) grammars.Token {
 	elementsList := []grammars.Element{}
-	for _, oneValue := range values {
-		element := app.element.FromValue(byte(oneValue))
+	for _, oneValue := range []byte(values) {
+		element := app.element.FromValue(oneValue)
 		elementsList = append(elementsList, element)
 	}
 
@@ -50,16 +52,25 @@ func (app *token) AllCharacters(tokenName string, values string) grammars.Token
 // AnyCharacter returns the any character token
 func (app *token) AnyCharacter(tokenName string, values string) grammars.Token {
 	suitesData := map[string]bool{}
-	elementsList := []grammars.Element{}
-	for _, oneValue := range values {
-		element := app.element.FromValue(byte(oneValue))
-		elementsList = append(elementsList, element)
-		suitesData[string(oneValue)] = true
+	linesList := []grammars.Line{}
+	for remaining := values; len(remaining) > 0; {
+		_, size := utf8.DecodeRuneInString(remaining)
+		character := remaining[:size]
+		remaining = remaining[size:]
+
+		elementsList := []grammars.Element{}
+		for _, oneValue := range []byte(character) {
+			element := app.element.FromValue(oneValue)
+			elementsList = append(elementsList, element)
+		}
+
+		linesList = append(linesList, app.line.FromElements(elementsList))
+		suitesData[character] = true
 	}
 
-	return app.AnyElement(
+	return app.FromBlock(
 		tokenName,
-		elementsList,
+		app.block.FromLines(linesList),
 		app.suite.Suites(suitesData),
 	)
 }
@@ -103,8 +114,8 @@ func (app *token) FromBlock(name string, block grammars.Block, suites grammars.S
 
 func (app *token) allCharacterToken(tokenName string, values string) grammars.Token {
 	elementsList := []grammars.Element{}
-	for _, oneValue := range values {
-		element := app.element.FromValue(byte(oneValue))
+	for _, oneValue := range []byte(values) {
+		element := app.element.FromValue(oneValue)
 		elementsList = append(elementsList, element)
 	}
 
-- 
2.43.0


From e6e94f500131971dfdfe662ff4d0e5cd7230b4b0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 28/34] fix: a value of a script is a number that ends with its
 instruction

---
 instances/grammars/grammars/grammar.go | 4 +++-
 instances/grammars/grammars/sdk.go     | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/instances/grammars/grammars/grammar.go b/instances/grammars/grammars/grammar.go
index fa3751a..a4ef147 100644
--- a/instances/grammars/grammars/grammar.go
+++ b/instances/grammars/grammars/grammar.go
@@ -354,13 +354,15 @@ func (app *grammar) tokenAssignmentToken() grammars.Token {
 }
 
 func (app *grammar) valueAssignmentToken() grammars.Token {
+	pMax := uint(valueMaxDigits)
 	return app.component.Token().FromBlock(
 		"valueAssignment",
 		app.component.Block().FromLines([]grammars.Line{
 			app.component.Line().FromElements([]grammars.Element{
 				app.component.Element().FromToken(app.token.VariableName(), app.component.Cardinality().Once()),
 				app.component.Element().FromValue([]byte(assignmentSign)[0]),
-				app.component.Element().FromToken(app.token.AnyByte(), app.component.Cardinality().Cardinality(1, nil)),
+				app.component.Element().FromToken(app.token.AnyNumber(), app.component.Cardinality().Cardinality(1, &pMax)),
+				app.component.Element().FromValue([]byte(blockSuffix)[0]),
 			}),
 		}),
 		app.component.Suite().Suites(map[string]bool{
diff --git a/instances/grammars/grammars/sdk.go b/instances/grammars/grammars/sdk.go
index a1e13a1..97b53c5 100644
--- a/instances/grammars/grammars/sdk.go
+++ b/instances/grammars/grammars/sdk.go
@@ -22,6 +22,7 @@ const cardinalitySuffix = "]"
 const cardinalitySeparator = ","
 const lineDelimiter = "|"
 const blockSuffix = ";"
+const valueMaxDigits = 3
 const validSuiteName = "valid"
 const invalidSuiteName = "invalid"
 const suiteDelimiter = "&"
-- 
2.43.0


From 5ec124cc9690a73613d5a8213e5f62a4e27e1cfc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 29/34] fix: skip the comments that are empty

---
 instances/grammars/components/channels/channels.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/instances/grammars/components/channels/channels.go b/instances/grammars/components/channels/channels.go
index 4e26602..8fe8c0c 100644
--- a/instances/grammars/components/channels/channels.go
+++ b/instances/grammars/components/channels/channels.go
@@ -81,6 +81,12 @@ func (app *channel) Channels() grammars.Channels {
 							),
 						),
 					}),
+					app.line.FromElements([]grammars.Element{
+						app.element.FromToken(
+							app.token.AllCharacters("doubleSlash", "//"),
+							app.cardinality.Once(),
+						),
+					}),
 				}),
 				app.suite.Suites(map[string]bool{
 					`// this is a comment
-- 
2.43.0


From 30305ef8f93c5d08de84465f24612f1fc2705919 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 30/34] fix: forget a context even if closing it fails

---
 libs/databases/infrastructure/files/application.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index e9eaaa7..282c42c 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -767,13 +767,9 @@ func (app *application) saveDataOnDisk(offset int64, data []byte, pConn *os.File
 // Close closes a context
 func (app *application) Close(context uint) error {
 	if pContext, ok := app.contexts[context]; ok {
-		err := pContext.pConn.Close()
-		if err != nil {
-			return err
-		}
-
+		// the connection cannot be used or closed again, even if closing it fails:
 		delete(app.contexts, context)
-		return nil
+		return pContext.pConn.Close()
 	}
 
 	str := fmt.Sprintf("the given context (%d) does not exists and therefore cannot be closed", context)
-- 
2.43.0


From 87b189035043057de2240e49d303e11d402829d2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 31/34] fix: close the backup when copying in it fails

---
 libs/databases/infrastructure/files/application.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 282c42c..7fb9b2c 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -589,6 +589,7 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 
 	_, err = io.Copy(backupPtr, context.pConn)
 	if err != nil {
+		backupPtr.Close()
 		return nil, nil, err
 	}
 
-- 
2.43.0


From af734594c154e347b94af7ee19380c56c905adaa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 32/34] fix: a commit does not fail when closing the previous
 connection does

---
 libs/databases/infrastructure/files/application.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 7fb9b2c..0b9bb1a 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -629,11 +629,8 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
-	// close the previous source connection:
-	err = context.pConn.Close()
-	if err != nil {
-		return nil, nil, err
-	}
+	// close the previous source connection, the commit is completed even if closing it fails:
+	context.pConn.Close()
 
 	return pNewConn, pDataOffset, nil
 }
-- 
2.43.0


From fe3115f1795eeec29ad492229d477cf71ea9fedc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:38 +0000
Subject: [PATCH 33/34] fix: flush a commit to the disk, a power failure could
 leave an empty database

---
 libs/databases/infrastructure/files/application.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 0b9bb1a..e7c4ae7 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -617,6 +617,13 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
+	// flush the rename on disk, some systems cannot flush a directory so the commit is completed even if it fails:
+	pDir, err := os.Open(filepath.Dir(sourcePath))
+	if err == nil {
+		pDir.Sync()
+		pDir.Close()
+	}
+
 	// delete the backup file:
 	err = os.Remove(backupPath)
 	if err != nil {
@@ -717,6 +724,12 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 		writeOffset += int64(len(contentBytes))
 	}
 
+	// flush the data on disk, a power failure could otherwise lose it after the file replaced the source database:
+	err = destination.Sync()
+	if err != nil {
+		return nil, err
+	}
+
 	dataOffset := uint(writtenAmount)
 	return &dataOffset, nil
 }
-- 
2.43.0


From 4d9f16c9a3571b81dc7855e2827bc24facbed0d5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:01 +0000
Subject: [PATCH 34/34] fix: report that the existence of a database could not
 be verified

---
 libs/databases/infrastructure/files/application.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index e7c4ae7..484a4cf 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -84,6 +84,10 @@ func (app *application) Exists(name string) (bool, error) {
 		return !fileInfo.IsDir(), nil
 	}
 
+	if !errors.Is(err, os.ErrNotExist) {
+		return false, err
+	}
+
 	return false, nil
 }
 
-- 
2.43.0

