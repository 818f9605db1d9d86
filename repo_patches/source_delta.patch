From c4f66177fe98d193c1ab8bb2490cf56997b23ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 01/41] fix: circular buffer wrote the start of the data again
 after wrapping

A write that wraps around the end of the buffer continued with the first
bytes of the data instead of the remaining ones, so the window compared after
an unaligned match held wrong content and later blocks were missed.
---
 circularbuffer/noalloc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circularbuffer/noalloc.go b/circularbuffer/noalloc.go
index 0449739..6efa879 100644
--- a/circularbuffer/noalloc.go
+++ b/circularbuffer/noalloc.go
@@ -156,7 +156,7 @@ func (buff *doubleSizeBuffer) Write(by []byte) {
 
 		copy(
 			buff.buffer[buff.head:buff.head+writeThisTime], // to
-			by,
+			remaining,
 		)
 
 		buff.head += writeThisTime
-- 
2.43.0


From 09b866dc98f53f6c7ae6281d6a9db3079b016159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 02/41] fix: comparison never ended after a read error

A read error other than the end of the file was ignored: the loop kept
comparing the same window for ever. Report it and stop.
---
 comparer/comparer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index b793818..c61c642 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -200,6 +200,10 @@ func (c *Comparer) startFindMatchingBlocks_int(
 			next = READ_NONE
 		}
 
+		if err != nil && err != io.EOF {
+			break
+		}
+
 		if next == READ_NONE {
 			if blockMemory.Empty() {
 				break
-- 
2.43.0


From 4532cb19233e402c209b71b3f0e17c2a6d2a3c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 03/41] fix: comparison with a block size of one compared stale
 data

With single-byte blocks the byte read was ignored and the previous block was
used again.
---
 comparer/comparer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index c61c642..9c54a6b 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -181,8 +181,8 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		}
 
 		if uint(n) == generator.BlockSize {
-			generator.WeakRollingHash.SetBlock(block)
-			blockMemory.Write(block)
+			generator.WeakRollingHash.SetBlock(readBytes)
+			blockMemory.Write(readBytes)
 			i += int64(n)
 		} else if n > 0 {
 			b_len := blockMemory.Len()
-- 
2.43.0


From 546df7d8235f05edfd636345b9ea34b4b91f7848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 04/41] fix: comparison skipped the last window when data came
 with io.EOF

A reader may return the last byte together with io.EOF. The window ending
in that byte was shortened before it had been compared.
---
 comparer/comparer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 9c54a6b..140fd1a 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -172,7 +172,7 @@ func (c *Comparer) startFindMatchingBlocks_int(
 
 		switch next {
 		case READ_NEXT_BYTE:
-			n, err = comparison.Read(singleByte)
+			n, err = io.ReadFull(comparison, singleByte)
 			readBytes = singleByte
 		case READ_NEXT_BLOCK:
 			n, err = io.ReadFull(comparison, block)
-- 
2.43.0


From 155c8178dc8132b98311fe73d690a2c0da5faf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 05/41] fix: checksum generation hid errors and reset the
 hashes too late

Read errors and compression errors ended up as a successful but truncated
or wrong result. The hashes were reset after the last result had been
delivered, at the same time as its receiver might already reuse them.
---
 filechecksum/filechecksum.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 4f69701..d4c7cce 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -158,10 +158,15 @@ func (check *FileChecksumGenerator) generate(
 	strongHash.Reset()
 	fullChecksum.Reset()
 
-	// We reset the hashes when done do we can reuse the generator
-	defer check.WeakRollingHash.Reset()
-	defer strongHash.Reset()
-	defer fullChecksum.Reset()
+	// We reset the hashes when done do we can reuse the generator.
+	// This has to happen before the last result is delivered, since the
+	// receiver may reuse the generator as soon as it has that
+	finish := func(last ChecksumResults) {
+		check.WeakRollingHash.Reset()
+		strongHash.Reset()
+		fullChecksum.Reset()
+		resultChan <- last
+	}
 
 	results := make([]chunks.ChunkChecksum, 0, blocksPerResult)
 
@@ -170,6 +175,11 @@ func (check *FileChecksumGenerator) generate(
 		n, err := io.ReadFull(inputFile, buffer)
 		section := buffer[:n]
 
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			finish(ChecksumResults{Err: err})
+			return
+		}
+
 		if n == 0 {
 			break
 		}
@@ -191,6 +201,11 @@ func (check *FileChecksumGenerator) generate(
 
 		if compressionFunction != nil {
 			blockSize, err = compressionFunction(section)
+
+			if err != nil {
+				finish(ChecksumResults{Err: err})
+				return
+			}
 		}
 
 		results = append(
@@ -229,9 +244,9 @@ func (check *FileChecksumGenerator) generate(
 		}
 	}
 
-	resultChan <- ChecksumResults{
+	finish(ChecksumResults{
 		Filechecksum: fullChecksum.Sum(nil),
-	}
+	})
 
 	return
 }
-- 
2.43.0


From 28781855bc78408e5e3d85e2efddf2764cc6b261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 06/41] fix: GenerateChecksums ignored errors from the output

A full disk produced a truncated index and a successful return.
---
 filechecksum/filechecksum.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index d4c7cce..2589520 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -102,19 +102,36 @@ func (check *FileChecksumGenerator) GetStrongHash() hash.Hash {
 // a number of other places.
 func (check *FileChecksumGenerator) GenerateChecksums(inputFile io.Reader, output io.Writer) (fileChecksum []byte, err error) {
 	for chunkResult := range check.StartChecksumGeneration(inputFile, 64, nil) {
+		if err != nil {
+			// only waiting for the generation to end
+			continue
+		}
+
 		if chunkResult.Err != nil {
-			return nil, chunkResult.Err
-		} else if chunkResult.Filechecksum != nil {
-			return chunkResult.Filechecksum, nil
+			err = chunkResult.Err
+			continue
+		}
+
+		if chunkResult.Filechecksum != nil {
+			fileChecksum = chunkResult.Filechecksum
+			continue
 		}
 
 		for _, chunk := range chunkResult.Checksums {
-			output.Write(chunk.WeakChecksum)
-			output.Write(chunk.StrongChecksum)
+			if _, err = output.Write(chunk.WeakChecksum); err != nil {
+				break
+			}
+			if _, err = output.Write(chunk.StrongChecksum); err != nil {
+				break
+			}
 		}
 	}
 
-	return nil, nil
+	if err != nil {
+		return nil, err
+	}
+
+	return fileChecksum, nil
 }
 
 type ChecksumResults struct {
-- 
2.43.0


From 600fbd0979df6cb72f9d0e3b255727d1b881fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 07/41] fix: a failed verification spoiled the next one

The hash was not reset after a mismatch, so that the next, correct, block
was rejected too; and a block without a known checksum made the rest of
the range pass without being looked at.
---
 filechecksum/verifier.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/filechecksum/verifier.go b/filechecksum/verifier.go
index 9d604a5..dd7bd6c 100644
--- a/filechecksum/verifier.go
+++ b/filechecksum/verifier.go
@@ -31,17 +31,16 @@ func (v *HashVerifier) VerifyBlockRange(startBlockID uint, data []byte) bool {
 		)
 
 		if expectedChecksum == nil {
-			return true
+			continue
 		}
 
+		v.Hash.Reset()
 		v.Hash.Write(blockData)
 		hashedData := v.Hash.Sum(nil)
 
 		if bytes.Compare(expectedChecksum, hashedData) != 0 {
 			return false
 		}
-
-		v.Hash.Reset()
 	}
 
 	return true
-- 
2.43.0


From 452ecf5335300645b3b60cdb6be0293afd728b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 08/41] fix: looking up the checksum of a block beyond the
 index panicked

An over-long response to a request for the last blocks crashed the process
while it was being verified.
---
 chunks/chunks.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chunks/chunks.go b/chunks/chunks.go
index aac4143..a7cd22b 100644
--- a/chunks/chunks.go
+++ b/chunks/chunks.go
@@ -83,5 +83,8 @@ func LoadChecksumsFromReader(
 type StrongChecksumGetter []ChunkChecksum
 
 func (s StrongChecksumGetter) GetStrongChecksumForBlock(blockID int) []byte {
+	if blockID < 0 || blockID >= len(s) {
+		return nil
+	}
 	return s[blockID].StrongChecksum
 }
-- 
2.43.0


From 012c0a89699f44b5175ee3ee3040215ebd785d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 09/41] fix: patcher ignored failed seeks and short reads of
 the local file

Both put wrong data into the output without an error.
---
 patcher/sequential/sequential.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/patcher/sequential/sequential.go b/patcher/sequential/sequential.go
index b8a3018..663e729 100644
--- a/patcher/sequential/sequential.go
+++ b/patcher/sequential/sequential.go
@@ -57,13 +57,27 @@ func SequentialPatcher(
 			firstMatched := locallyAvailableBlocks[0]
 
 			// we have the current block range in the local file
-			localFile.Seek(firstMatched.MatchOffset, ABSOLUTE_POSITION)
+			if _, err := localFile.Seek(firstMatched.MatchOffset, ABSOLUTE_POSITION); err != nil {
+				return fmt.Errorf("Could not seek to %v in local file: %v", firstMatched.MatchOffset, err)
+			}
+
 			blockSizeToRead := int64(firstMatched.EndBlock-firstMatched.StartBlock+1) * firstMatched.BlockSize
+			copied, err := io.Copy(output, io.LimitReader(localFile, blockSizeToRead))
 
-			if _, err := io.Copy(output, io.LimitReader(localFile, blockSizeToRead)); err != nil {
+			if err != nil {
 				return fmt.Errorf("Could not copy %v bytes to output: %v", blockSizeToRead, err)
 			}
 
+			// only the last block of the file may be shorter
+			if copied != blockSizeToRead && firstMatched.EndBlock != maxBlock {
+				return fmt.Errorf(
+					"Local file ended after %v of %v bytes at %v",
+					copied,
+					blockSizeToRead,
+					firstMatched.MatchOffset,
+				)
+			}
+
 			currentBlock = firstMatched.EndBlock + 1
 			locallyAvailableBlocks = locallyAvailableBlocks[1:]
 
-- 
2.43.0


From 221a3aa371aca29acd7d10660f59c98efcdcbde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 10/41] fix: patcher wrote responses before checking them and
 missed refusals

The length of a response was only checked after its data had been written,
a refused request was waited for, and a source that was closed looked like
a response for block 0 without data.
---
 patcher/sequential/sequential.go | 61 +++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/patcher/sequential/sequential.go b/patcher/sequential/sequential.go
index 663e729..323c8be 100644
--- a/patcher/sequential/sequential.go
+++ b/patcher/sequential/sequential.go
@@ -7,6 +7,7 @@ so there would have to be a final copy once the patching was done.
 package sequential
 
 import (
+	"errors"
 	"fmt"
 	"github.com/Redundancy/go-sync/patcher"
 	"io"
@@ -16,6 +17,8 @@ const (
 	ABSOLUTE_POSITION = 0
 )
 
+var errSourceClosed = errors.New("Block source was closed before it delivered the requested blocks")
+
 /*
 This simple example currently doesn't do any pipelining of needed blocks, nor does it deal with
 blocks being delivered out of order.
@@ -83,32 +86,52 @@ func SequentialPatcher(
 
 		} else if withinFirstBlockOfRemoteBlocks(currentBlock, requiredRemoteBlocks) {
 			firstMissing := requiredRemoteBlocks[0]
-			reference.RequestBlocks(firstMissing)
+			if err := reference.RequestBlocks(firstMissing); err != nil {
+				return fmt.Errorf(
+					"Could not request blocks %v-%v: %v",
+					firstMissing.StartBlock,
+					firstMissing.EndBlock,
+					err,
+				)
+			}
 
 			select {
-			case result := <-reference.GetResultChannel():
+			case result, ok := <-reference.GetResultChannel():
+				if !ok {
+					return errSourceClosed
+				}
+
 				if result.StartBlock == currentBlock {
-					if _, err := output.Write(result.Data); err != nil {
+					completed := calculateNumberOfCompletedBlocks(
+						len(result.Data),
+						firstMissing.BlockSize,
+					)
+
+					if completed != (firstMissing.EndBlock-firstMissing.StartBlock)+1 {
 						return fmt.Errorf(
-							"Could not write data to output: %v", 
-							err,
+							"Unexpected reponse length from remote source: blocks %v-%v (got %v blocks)",
+							firstMissing.StartBlock,
+							firstMissing.EndBlock,
+							completed,
 						)
-					} else {
+					}
 
-						completed := calculateNumberOfCompletedBlocks(
+					// only the last block of the file may be shorter
+					if int64(len(result.Data)) != int64(completed)*firstMissing.BlockSize && firstMissing.EndBlock != maxBlock {
+						return fmt.Errorf(
+							"Unexpected reponse length from remote source: blocks %v-%v (got %v bytes)",
+							firstMissing.StartBlock,
+							firstMissing.EndBlock,
 							len(result.Data),
-							firstMissing.BlockSize,
 						)
+					}
 
-						if completed != (firstMissing.EndBlock-firstMissing.StartBlock) + 1 {
-							return fmt.Errorf(
-								"Unexpected reponse length from remote source: blocks %v-%v (got %v blocks)", 
-								firstMissing.StartBlock,
-								firstMissing.EndBlock,
-								completed,
+					if _, err := output.Write(result.Data); err != nil {
+						return fmt.Errorf(
+							"Could not write data to output: %v", 
+							err,
 						)
-						}
-
+					} else {
 						currentBlock += completed
 						requiredRemoteBlocks = requiredRemoteBlocks[1:]
 					}
@@ -118,7 +141,11 @@ func SequentialPatcher(
 						result.StartBlock,
 					)
 				}
-			case err := <-reference.EncounteredError():
+			case err, ok := <-reference.EncounteredError():
+				if !ok {
+					return errSourceClosed
+				}
+
 				return fmt.Errorf(
 					"Failed to read from reference file: %v", 
 					err,
-- 
2.43.0


From 5d7948f5498325922c932980eeb1b40a05a30ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 11/41] fix: patching copied too much for a short last block
 found locally

The data following the match in the local file was appended to the output.
---
 rsync.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/rsync.go b/rsync.go
index 59db7c1..e10661a 100644
--- a/rsync.go
+++ b/rsync.go
@@ -204,7 +204,7 @@ func (rsync *RSync) Patch() (err error) {
 		rsync.Input,
 		rsync.Source,
 		toPatcherMissingSpan(missing, int64(blockSize)),
-		toPatcherFoundSpan(mergedBlocks, int64(blockSize)),
+		toPatcherFoundSpan(mergedBlocks, int64(blockSize), rsync.Summary.GetFileSize()),
 		20*megabyte,
 		rsync.Output,
 	)
@@ -321,8 +321,8 @@ func (f *fileCopyCloser) Close() (err error) {
 	return
 }
 
-func toPatcherFoundSpan(sl comparer.BlockSpanList, blockSize int64) []patcher.FoundBlockSpan {
-	result := make([]patcher.FoundBlockSpan, len(sl))
+func toPatcherFoundSpan(sl comparer.BlockSpanList, blockSize, fileSize int64) []patcher.FoundBlockSpan {
+	result := make([]patcher.FoundBlockSpan, len(sl), len(sl)+1)
 
 	for i, v := range sl {
 		result[i].StartBlock = v.StartBlock
@@ -331,6 +331,29 @@ func toPatcherFoundSpan(sl comparer.BlockSpanList, blockSize int64) []patcher.Fo
 		result[i].BlockSize = blockSize
 	}
 
+	if len(result) == 0 {
+		return result
+	}
+
+	// The last block of the reference may be shorter, while the local file
+	// can have more data behind the match. Make it a span of its own.
+	last := &result[len(result)-1]
+	lastBlockSize := fileSize - int64(last.EndBlock)*blockSize
+
+	if lastBlockSize < blockSize {
+		short := *last
+		short.StartBlock = last.EndBlock
+		short.MatchOffset += int64(last.EndBlock-last.StartBlock) * blockSize
+		short.BlockSize = lastBlockSize
+
+		if last.StartBlock == last.EndBlock {
+			*last = short
+		} else {
+			last.EndBlock--
+			result = append(result, short)
+		}
+	}
+
 	return result
 }
 
-- 
2.43.0


From df88f4a99119d4d155db63c14a469cdc1a9f4572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 12/41] fix: patching reported success for an incomplete file

A local file that became shorter, or a source that returned too little, left
the last block incomplete without an error.
---
 rsync.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index e10661a..95c4dd9 100644
--- a/rsync.go
+++ b/rsync.go
@@ -199,15 +199,45 @@ func (rsync *RSync) Patch() (err error) {
 
 	mergedBlocks := merger.GetMergedBlocks()
 	missing := mergedBlocks.GetMissingBlocks(rsync.Summary.GetBlockCount() - 1)
+	output := &countingWriter{Writer: rsync.Output}
 
-	return sequential.SequentialPatcher(
+	err = sequential.SequentialPatcher(
 		rsync.Input,
 		rsync.Source,
 		toPatcherMissingSpan(missing, int64(blockSize)),
 		toPatcherFoundSpan(mergedBlocks, int64(blockSize), rsync.Summary.GetFileSize()),
 		20*megabyte,
-		rsync.Output,
+		output,
 	)
+
+	if err == nil && output.written != rsync.Summary.GetFileSize() {
+		err = fmt.Errorf(
+			"Patched file has %v bytes instead of %v",
+			output.written,
+			rsync.Summary.GetFileSize(),
+		)
+	}
+
+	return err
+}
+
+// countingWriter counts the bytes that were written
+type countingWriter struct {
+	io.Writer
+	written int64
+}
+
+func (w *countingWriter) Write(b []byte) (n int, err error) {
+	n, err = w.Writer.Write(b)
+	w.written += int64(n)
+	return
+}
+
+// ReadFrom lets io.Copy use the same shortcuts as without counting
+func (w *countingWriter) ReadFrom(r io.Reader) (n int64, err error) {
+	n, err = io.Copy(w.Writer, r)
+	w.written += n
+	return
 }
 
 func getOutFile(filename string) (f io.WriteCloser, err error) {
-- 
2.43.0


From a650730efb24a17036df554733d058b7df14f082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 13/41] fix: patching towards an empty file failed

Without any blocks, the number of the last one wrapped around and the source
was asked for an absurd range.
---
 rsync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsync.go b/rsync.go
index 95c4dd9..a1974a9 100644
--- a/rsync.go
+++ b/rsync.go
@@ -169,6 +169,11 @@ func MakeRSync(
 
 // Patch the files
 func (rsync *RSync) Patch() (err error) {
+	if rsync.Summary.GetBlockCount() == 0 && rsync.Summary.GetFileSize() == 0 {
+		// nothing to find and nothing to get
+		return nil
+	}
+
 	numMatchers := int64(DefaultConcurrency)
 	blockSize := rsync.Summary.GetBlockSize()
 	sectionSize := rsync.Summary.GetFileSize() / numMatchers
-- 
2.43.0


From 5f5daeea7658d2ce0236d976113cc44b39b5d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 14/41] fix: the rest of a longer existing output file was left
 behind the new content

---
 rsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index a1974a9..25010c3 100644
--- a/rsync.go
+++ b/rsync.go
@@ -250,7 +250,7 @@ func getOutFile(filename string) (f io.WriteCloser, err error) {
 		return os.Create(filename)
 	}
 
-	return os.OpenFile(filename, os.O_WRONLY, 0)
+	return os.OpenFile(filename, os.O_WRONLY|os.O_TRUNC, 0)
 }
 
 func getTempFile() (f io.WriteCloser, filename string, err error) {
-- 
2.43.0


From 042396ef3d046b2ea266355620aae41ee684c6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 15/41] fix: MakeRSync crashed or leaked the input file when it
 could not open the output

---
 rsync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsync.go b/rsync.go
index 25010c3..48c9f83 100644
--- a/rsync.go
+++ b/rsync.go
@@ -116,6 +116,7 @@ func MakeRSync(
 		out, outFilename, err = getTempFile()
 
 		if err != nil {
+			inputFile.Close()
 			return
 		}
 
@@ -127,6 +128,7 @@ func MakeRSync(
 		out, err = getOutFile(OutFile)
 
 		if err != nil {
+			inputFile.Close()
 			return
 		}
 
@@ -255,6 +257,9 @@ func getOutFile(filename string) (f io.WriteCloser, err error) {
 
 func getTempFile() (f io.WriteCloser, filename string, err error) {
 	ft, err := ioutil.TempFile(".", "tmp_")
+	if err != nil {
+		return nil, "", err
+	}
 	filename = ft.Name()
 	f = ft
 	return
-- 
2.43.0


From fc423ca16b4c83017fa2ad2474ea21cb8fe67f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 16/41] fix: a failed replacement of the local file was
 reported as success

The error of the copy was overwritten by the result of closing the files, and
an error when closing them was dropped.
---
 rsync.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index 48c9f83..977cacd 100644
--- a/rsync.go
+++ b/rsync.go
@@ -338,7 +338,7 @@ func (f *fileCopyCloser) Close() (err error) {
 
 	defer func() {
 		e := from.Close()
-		if err != nil {
+		if err == nil {
 			err = e
 		}
 	}()
@@ -351,7 +351,7 @@ func (f *fileCopyCloser) Close() (err error) {
 
 	defer func() {
 		e := to.Close()
-		if err != nil {
+		if err == nil {
 			err = e
 		}
 	}()
-- 
2.43.0


From 43cadf52e4da8ca67ab312bdecf07d112a560ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 17/41] fix: closing after a failed patch overwrote the local
 file with a partial one

The copy of the temporary file is now made only if the patch succeeded, and
the temporary file, which was never removed, goes away unless the copy fails.
A file that fails to close no longer keeps the other ones open.
---
 rsync.go | 70 +++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 16 deletions(-)

diff --git a/rsync.go b/rsync.go
index 977cacd..7cf8b53 100644
--- a/rsync.go
+++ b/rsync.go
@@ -48,6 +48,9 @@ type RSync struct {
 	Summary FileSummary
 
 	OnClose []closer
+
+	// the output is complete
+	patched bool
 }
 
 type closer interface {
@@ -110,7 +113,8 @@ func MakeRSync(
 
 	var out io.WriteCloser
 	var outFilename = OutFile
-	var copier closer
+	var outCloser closer
+	var copier *fileCopyCloser
 
 	if useTempFile {
 		out, outFilename, err = getTempFile()
@@ -121,9 +125,11 @@ func MakeRSync(
 		}
 
 		copier = &fileCopyCloser{
+			temp: &fileCloser{out, outFilename},
 			from: outFilename,
 			to:   OutFile,
 		}
+		outCloser = copier
 	} else {
 		out, err = getOutFile(OutFile)
 
@@ -132,7 +138,7 @@ func MakeRSync(
 			return
 		}
 
-		copier = nullCloser{}
+		outCloser = &fileCloser{out, outFilename}
 	}
 
 	// blocksource
@@ -161,11 +167,14 @@ func MakeRSync(
 		Summary: Summary,
 		OnClose: []closer{
 			&fileCloser{inputFile, InputFile},
-			&fileCloser{out, outFilename},
-			copier,
+			outCloser,
 		},
 	}
 
+	if copier != nil {
+		copier.rsync = r
+	}
+
 	return
 }
 
@@ -173,6 +182,7 @@ func MakeRSync(
 func (rsync *RSync) Patch() (err error) {
 	if rsync.Summary.GetBlockCount() == 0 && rsync.Summary.GetFileSize() == 0 {
 		// nothing to find and nothing to get
+		rsync.patched = true
 		return nil
 	}
 
@@ -225,6 +235,7 @@ func (rsync *RSync) Patch() (err error) {
 		)
 	}
 
+	rsync.patched = err == nil
 	return err
 }
 
@@ -291,13 +302,13 @@ func IsSameFile(path1, path2 string) (same bool, err error) {
 
 // Close - close open files, copy to the final location from
 // a temporary one if neede
-func (rsync *RSync) Close() error {
+func (rsync *RSync) Close() (err error) {
 	for _, f := range rsync.OnClose {
-		if err := f.Close(); err != nil {
-			return err
+		if e := f.Close(); err == nil {
+			err = e
 		}
 	}
-	return nil
+	return
 }
 
 type fileCloser struct {
@@ -318,18 +329,45 @@ func (f *fileCloser) Close() error {
 	return nil
 }
 
-type nullCloser struct{}
-
-func (n nullCloser) Close() error {
-	return nil
+// fileCopyCloser replaces the content of a file with that of the temporary
+// file that was written during the patch
+type fileCopyCloser struct {
+	temp   closer
+	from   string
+	to     string
+	rsync  *RSync
+	closed bool
 }
 
-type fileCopyCloser struct {
-	from string
-	to   string
+// Close - replace the file if the patch was completed. The temporary file is
+// only kept if the replacement fails, since it is then the only complete one.
+func (f *fileCopyCloser) Close() error {
+	if f.closed {
+		return f.temp.Close()
+	}
+
+	f.closed = true
+	err := f.temp.Close()
+
+	if err == nil && f.rsync.patched {
+		if err = f.copy(); err != nil {
+			return fmt.Errorf(
+				"Could not replace %v, its new content is in %v: %v",
+				f.to,
+				f.from,
+				err,
+			)
+		}
+	}
+
+	if e := os.Remove(f.from); err == nil {
+		err = e
+	}
+
+	return err
 }
 
-func (f *fileCopyCloser) Close() (err error) {
+func (f *fileCopyCloser) copy() (err error) {
 	from, err := os.OpenFile(f.from, os.O_RDONLY, 0)
 
 	if err != nil {
-- 
2.43.0


From c1fc77676aa3186ac34d881a02b0e1338fe941bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 18/41] fix: the block source of MakeRSync was never closed

Its goroutine stayed around for the life of the process.
---
 rsync.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rsync.go b/rsync.go
index 7cf8b53..3b6d902 100644
--- a/rsync.go
+++ b/rsync.go
@@ -166,6 +166,7 @@ func MakeRSync(
 		Source:  source,
 		Summary: Summary,
 		OnClose: []closer{
+			&sourceCloser{source},
 			&fileCloser{inputFile, InputFile},
 			outCloser,
 		},
@@ -311,6 +312,19 @@ func (rsync *RSync) Close() (err error) {
 	return
 }
 
+type sourceCloser struct {
+	source *blocksources.BlockSourceBase
+}
+
+// Close - stop the source, unless it already stopped on an error
+func (s *sourceCloser) Close() error {
+	err := s.source.Close()
+	if err == blocksources.BlockSourceAlreadyClosedError {
+		return nil
+	}
+	return err
+}
+
 type fileCloser struct {
 	f    io.Closer
 	path string
-- 
2.43.0


From eb90918260abacc0ded3ba64881f04d562c2b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 19/41] fix: a second failing request crashed the block source

Only the first error is reported; further ones, and those arriving after the
source was closed, are the expected end of requests in progress.
---
 blocksources/blocksourcebase.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 95e236a..82d2410 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -205,7 +205,9 @@ func (s *BlockSourceBase) loop() {
 			inflightRequests -= 1
 
 			if result.err != nil {
-				pendingErrors.setError(result.err)
+				if state == STATE_RUNNING {
+					pendingErrors.setError(result.err)
+				}
 				pendingResponse.clear()
 				state = STATE_EXITING
 				break
@@ -214,12 +216,14 @@ func (s *BlockSourceBase) loop() {
 			s.bytesRequested += int64(len(result.data))
 
 			if s.Verifier != nil && !s.Verifier.VerifyBlockRange(result.startBlockID, result.data) {
-				pendingErrors.setError(
-					fmt.Errorf(
-						"The returned block range (%v-%v) did not match the expected checksum for the blocks",
-						result.startBlockID, result.endBlockID,
-					),
-				)
+				if state == STATE_RUNNING {
+					pendingErrors.setError(
+						fmt.Errorf(
+							"The returned block range (%v-%v) did not match the expected checksum for the blocks",
+							result.startBlockID, result.endBlockID,
+						),
+					)
+				}
 				pendingResponse.clear()
 				state = STATE_EXITING
 				break
-- 
2.43.0


From 25888fa5fca9f360d77a29764b7e0b9d14e0ac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 20/41] fix: block source started queued requests after it was
 closed or had failed

---
 blocksources/blocksourcebase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 82d2410..6fd4921 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -154,7 +154,7 @@ func (s *BlockSourceBase) loop() {
 	for state == STATE_RUNNING || inflightRequests > 0 || pendingErrors.Err() != nil {
 
 		// Start any pending work that we can
-		for inflightRequests < s.ConcurrentRequests && len(requestQueue) > 0 {
+		for state == STATE_RUNNING && inflightRequests < s.ConcurrentRequests && len(requestQueue) > 0 {
 			inflightRequests += 1
 
 			nextRequest := requestQueue[len(requestQueue)-1]
-- 
2.43.0


From ecba089b0477f9089acb520ea7b77c413e6e56bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 21/41] fix: block source kept running after Close if its error
 was not read

---
 blocksources/blocksourcebase.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 6fd4921..cc2d972 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -270,6 +270,8 @@ func (s *BlockSourceBase) loop() {
 
 		case <-s.exitChannel:
 			state = STATE_EXITING
+			// nobody needs to be listening any more
+			pendingErrors.clear()
 		}
 	}
 }
-- 
2.43.0


From ac5a2c7b6402794d8e6f4b1e574c5f73f95ea763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 22/41] fix: requesting blocks from a closed block source
 panicked

---
 blocksources/blocksourcebase.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index cc2d972..35716d4 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -96,7 +96,14 @@ func (s *BlockSourceBase) ReadBytes() int64 {
 	return s.bytesRequested
 }
 
-func (s *BlockSourceBase) RequestBlocks(block patcher.MissingBlockSpan) error {
+func (s *BlockSourceBase) RequestBlocks(block patcher.MissingBlockSpan) (err error) {
+	// the request channel is closed once the source has stopped
+	defer func() {
+		if recover() != nil {
+			err = BlockSourceAlreadyClosedError
+		}
+	}()
+
 	s.requestChannel <- block
 	return nil
 }
-- 
2.43.0


From f7b9972ad03f7e55ccc77647d331e7222587ccfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 23/41] fix: responses were lost or repeated when a lower block
 was requested later

Delivering a response removes the lowest entry of both ordered lists, so it
has to be the lowest request in progress.
---
 blocksources/blocksourcebase.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 35716d4..c1878d2 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -168,6 +168,13 @@ func (s *BlockSourceBase) loop() {
 
 			requestOrdering = append(requestOrdering, nextRequest.StartBlockID)
 			sort.Sort(sort.Reverse(requestOrdering))
+
+			// a response waiting to be delivered is no longer next if
+			// a lower block has been requested since
+			if pendingResponse.sendIfPending() != nil && pendingResponse.Response().StartBlock > nextRequest.StartBlockID {
+				pendingResponse.clear()
+			}
+
 			go func() {
 				resolver := s.BlockSourceResolver
 
-- 
2.43.0


From 1f4bcdd2ced483d209d22e95c177e7e09ed78eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 24/41] fix: responses for a block requested twice could be
 repeated

An unstable sort may exchange the response that is pending with another one
for the same block.
---
 blocksources/blocksourcebase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index c1878d2..01ca9b5 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -251,7 +251,8 @@ func (s *BlockSourceBase) loop() {
 			)
 
 			// sort high to low
-			sort.Sort(sort.Reverse(responseOrdering))
+			// (stable, since the pending response has to stay the last one)
+			sort.Stable(sort.Reverse(responseOrdering))
 
 			// if we just got the lowest requested block, we can set
 			// the response. Otherwise, wait.
-- 
2.43.0


From b292b53ad9c4930fed392ac661dba0a2eaa1f550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 25/41] fix: gosync patch ignored errors loading the index and
 accepted incomplete ones

---
 cmd/gosync/common.go |  2 +-
 cmd/gosync/patch.go  | 24 ++++++++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 8203952..dcc6922 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -173,7 +173,7 @@ func readHeadersAndCheck(
 ) {
 	b := make([]byte, len(magicString))
 
-	if _, err = r.Read(b); err != nil {
+	if _, err = io.ReadFull(r, b); err != nil {
 		return
 	} else if string(b) != magicString {
 		err = errors.New(
diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index 448e689..53d989c 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -70,11 +70,35 @@ func Patch(c *cli.Context) error {
 			majorVersion,
 		)
 
+		if e != nil {
+			return fmt.Errorf("Error loading index: %v", e)
+		}
+
+		if blocksize == 0 || filesize < 0 {
+			return fmt.Errorf(
+				"Error loading index: invalid block size %v or file size %v",
+				blocksize,
+				filesize,
+			)
+		}
+
 		index, checksumLookup, blockCount, err := readIndex(
 			indexReader,
 			uint(blocksize),
 		)
 
+		if err != nil {
+			return fmt.Errorf("Error loading index: %v", err)
+		}
+
+		if blocks := (filesize + int64(blocksize) - 1) / int64(blocksize); int64(blockCount) != blocks {
+			return fmt.Errorf(
+				"Error loading index: it has %v blocks instead of %v",
+				blockCount,
+				blocks,
+			)
+		}
+
 		fs := &gosync_main.BasicSummary{
 			ChecksumIndex:  index,
 			ChecksumLookup: checksumLookup,
-- 
2.43.0


From 65e95d182fc2c129027532a9e2ad08cc19556fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 26/41] fix: gosync patch left its temporary file behind after
 a failure

---
 cmd/gosync/patch.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index 53d989c..fd34d67 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -120,11 +120,11 @@ func Patch(c *cli.Context) error {
 
 		err = rsync.Patch()
 
-		if err != nil {
-			return err
+		if e := rsync.Close(); err == nil {
+			err = e
 		}
 
-		return rsync.Close()
+		return err
 	})
 	return nil
 }
-- 
2.43.0


From 4c104900c2973b47537f53f0f484ead7511ee7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 27/41] fix: gosync exited with status 0 after a usage error

---
 cmd/gosync/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/main.go b/cmd/gosync/main.go
index 4ff5578..c7aa6f6 100644
--- a/cmd/gosync/main.go
+++ b/cmd/gosync/main.go
@@ -61,5 +61,8 @@ func main() {
 		return nil
 	}
 
-	app.Run(os.Args)
+	if err := app.Run(os.Args); err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 163a479af06e26add55700686cf553e5d5140128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 28/41] fix: gosync diff missed matches at the boundaries and
 the end of its sections

---
 cmd/gosync/common.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index dcc6922..bf7f9db 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -254,12 +254,8 @@ func multithreadedMatching(
 		offset := sectionSize * i
 
 		// Sections must overlap by blocksize (strictly blocksize - 1?)
-		if i > 0 {
-			offset -= int64(blocksize)
-		}
-
 		sectionReader := bufio.NewReaderSize(
-			io.NewSectionReader(localFile, offset, sectionSize),
+			io.NewSectionReader(localFile, offset, sectionSize+int64(blocksize)),
 			MB,
 		)
 
-- 
2.43.0


From a642c18ca8278781a6862c07ee9beb677fd0f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 29/41] fix: responses with content encodings other than gzip
 were taken as file data

---
 blocksources/httpblocksource.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/blocksources/httpblocksource.go b/blocksources/httpblocksource.go
index 0e93278..d079dc4 100644
--- a/blocksources/httpblocksource.go
+++ b/blocksources/httpblocksource.go
@@ -72,10 +72,8 @@ func (r *HttpRequester) DoRequest(startOffset int64, endOffset int64) (data []by
 		return nil, URLNotFoundError(r.url)
 	} else if rangedResponse.StatusCode != 206 {
 		return nil, RangedRequestNotSupportedError
-	} else if strings.Contains(
-		rangedResponse.Header.Get("Content-Encoding"),
-		"gzip",
-	) {
+	} else if encoding := rangedResponse.Header.Get("Content-Encoding"); encoding != "" &&
+		!strings.EqualFold(encoding, "identity") {
 		return nil, ResponseFromServerWasGZiped
 	} else {
 		buf := bytes.NewBuffer(make([]byte, 0, endOffset-startOffset))
-- 
2.43.0


From 98369eb29d9475644ace257b362ab7131288332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 30/41] fix: gosync build accepted block sizes that cannot work

---
 cmd/gosync/build.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 9051435..4eb4150 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"time"
@@ -31,6 +32,12 @@ func init() {
 
 func Build(c *cli.Context) error {
 	filename := c.Args().Get(0)
+
+	if b := c.Int("blocksize"); b < 1 || int64(b) > math.MaxUint32 {
+		fmt.Fprintf(os.Stderr, "Invalid block size: %v\n", b)
+		os.Exit(1)
+	}
+
 	blocksize := uint32(c.Int("blocksize"))
 	generator := filechecksum.NewFileChecksumGenerator(uint(blocksize))
 	inputFile, err := os.Open(filename)
-- 
2.43.0


From 897618bd7cda886f889e5d52993324adab50db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 31/41] fix: a truncated input stream was taken for a complete
 one during checksum generation

io.ReadFull reports a short last block with io.ErrUnexpectedEOF, which is also
what truncated gzip streams and HTTP bodies fail with.
---
 filechecksum/filechecksum.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 2589520..67f8cd3 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -189,10 +189,10 @@ func (check *FileChecksumGenerator) generate(
 
 	i := uint(0)
 	for {
-		n, err := io.ReadFull(inputFile, buffer)
+		n, err := readBlock(inputFile, buffer)
 		section := buffer[:n]
 
-		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+		if err != nil && err != io.EOF {
 			finish(ChecksumResults{Err: err})
 			return
 		}
@@ -267,3 +267,15 @@ func (check *FileChecksumGenerator) generate(
 
 	return
 }
+
+// readBlock fills the buffer unless the input ends or fails. Unlike with io.ReadFull, the end of
+// the input is always io.EOF, so that an io.ErrUnexpectedEOF of the input itself (it is a truncated
+// stream) is not mistaken for its end.
+func readBlock(inputFile io.Reader, buffer []byte) (n int, err error) {
+	for n < len(buffer) && err == nil {
+		var nn int
+		nn, err = inputFile.Read(buffer[n:])
+		n += nn
+	}
+	return
+}
-- 
2.43.0


From a38791e5c5a2d7b117de5ca66248cb4372276ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 32/41] fix: a failed read of a seekable block source could be
 answered with short data

The io.ErrUnexpectedEOF of a failing read was taken for the end of the file.
---
 blocksources/readseeker_blocksource.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/blocksources/readseeker_blocksource.go b/blocksources/readseeker_blocksource.go
index 67958f6..6516ef3 100644
--- a/blocksources/readseeker_blocksource.go
+++ b/blocksources/readseeker_blocksource.go
@@ -40,10 +40,19 @@ func (r *ReadSeekerRequester) DoRequest(startOffset int64, endOffset int64) (dat
 		return
 	}
 
-	n, err := io.ReadFull(r.rs, buffer)
+	// not io.ReadFull, which reports the end of the file with an error that
+	// the file itself may return for a failed read
+	n := 0
+
+	for n < len(buffer) && err == nil {
+		var read int
+		read, err = r.rs.Read(buffer[n:])
+		n += read
+	}
 
-	if err != nil && err != io.ErrUnexpectedEOF {
-		return
+	// the file may end within the last block
+	if err != nil && (err != io.EOF || n == 0) {
+		return nil, err
 	}
 
 	return buffer[:n], nil
-- 
2.43.0


From af32b30889bed1f4b5baf1eb332b43591d1d9fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:49 +0000
Subject: [PATCH 33/41] fix: BlockSourceBase.ReadBytes does not race with the
 goroutine that counts

ReadBytes may be called while requests are outstanding, and read the counter
without synchronisation while the loop of the block source added to it.
---
 blocksources/blocksourcebase.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 01ca9b5..534ca5a 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync"
 
 	"github.com/Redundancy/go-sync/patcher"
 )
@@ -84,6 +85,8 @@ type BlockSourceBase struct {
 	responseChannel chan patcher.BlockReponse
 	requestChannel  chan patcher.MissingBlockSpan
 
+	// guards the fields that are used by other goroutines while loop is running
+	lock           sync.Mutex
 	bytesRequested int64
 }
 
@@ -93,6 +96,8 @@ const (
 )
 
 func (s *BlockSourceBase) ReadBytes() int64 {
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	return s.bytesRequested
 }
 
@@ -227,7 +232,9 @@ func (s *BlockSourceBase) loop() {
 				break
 			}
 
+			s.lock.Lock()
 			s.bytesRequested += int64(len(result.data))
+			s.lock.Unlock()
 
 			if s.Verifier != nil && !s.Verifier.VerifyBlockRange(result.startBlockID, result.data) {
 				if state == STATE_RUNNING {
-- 
2.43.0


From 916c293879afa705dda4f5efbe5ffdb8eb3db514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:49 +0000
Subject: [PATCH 34/41] fix: BlockSourceBase.Close does not race with the end
 of its goroutine

Close read hasQuit without synchronisation while the loop of a block source
that ends by itself (after an error, or another Close) set it.
---
 blocksources/blocksourcebase.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 534ca5a..f095c95 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -79,7 +79,6 @@ type BlockSourceBase struct {
 	// (requested + pending delivery)
 	ConcurrentBytes int64
 
-	hasQuit         bool
 	exitChannel     chan bool
 	errorChannel    chan error
 	responseChannel chan patcher.BlockReponse
@@ -87,6 +86,7 @@ type BlockSourceBase struct {
 
 	// guards the fields that are used by other goroutines while loop is running
 	lock           sync.Mutex
+	hasQuit        bool
 	bytesRequested int64
 }
 
@@ -133,7 +133,11 @@ func (s *BlockSourceBase) Close() (err error) {
 		}
 	}()
 
-	if !s.hasQuit {
+	s.lock.Lock()
+	hasQuit := s.hasQuit
+	s.lock.Unlock()
+
+	if !hasQuit {
 		s.exitChannel <- true
 	}
 
@@ -142,7 +146,9 @@ func (s *BlockSourceBase) Close() (err error) {
 
 func (s *BlockSourceBase) loop() {
 	defer func() {
+		s.lock.Lock()
 		s.hasQuit = true
+		s.lock.Unlock()
 		close(s.exitChannel)
 		close(s.errorChannel)
 		close(s.requestChannel)
-- 
2.43.0


From 386dd9ac021031674fa9ff4acd8c108a712904b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 35/41] fix: gosync build exited with status 0 if closing the
 index failed

---
 cmd/gosync/build.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 4eb4150..22300fd 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -100,6 +100,16 @@ func Build(c *cli.Context) error {
 		os.Exit(2)
 	}
 
+	if err = outputFile.Close(); err != nil {
+		fmt.Fprintf(
+			os.Stderr,
+			"Error writing index: %v %v\n",
+			outfilePath,
+			err,
+		)
+		os.Exit(2)
+	}
+
 	inputFileInfo, err := os.Stat(filename)
 	if err != nil {
 		fmt.Fprintf(
-- 
2.43.0


From 013f269a268234ef3254f3e2cd7adbc484da8bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 36/41] fix: HttpRequester read an over-long response body
 without limit

---
 blocksources/httpblocksource.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blocksources/httpblocksource.go b/blocksources/httpblocksource.go
index d079dc4..d6457a4 100644
--- a/blocksources/httpblocksource.go
+++ b/blocksources/httpblocksource.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"net/http"
 	"strings"
 )
@@ -77,7 +78,9 @@ func (r *HttpRequester) DoRequest(startOffset int64, endOffset int64) (data []by
 		return nil, ResponseFromServerWasGZiped
 	} else {
 		buf := bytes.NewBuffer(make([]byte, 0, endOffset-startOffset))
-		_, err = buf.ReadFrom(rangedResponse.Body)
+
+		// One byte more is enough to tell that the body is too long
+		_, err = buf.ReadFrom(io.LimitReader(rangedResponse.Body, endOffset-startOffset+1))
 
 		if err != nil {
 			err = fmt.Errorf(
-- 
2.43.0


From 7183dad4d37ee31676683cd15d490185e68f138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 37/41] fix: an empty read of a uniform reader ended it

---
 util/readers/uniformreader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/readers/uniformreader.go b/util/readers/uniformreader.go
index e6045da..85140c5 100644
--- a/util/readers/uniformreader.go
+++ b/util/readers/uniformreader.go
@@ -20,7 +20,7 @@ func (r *uniformReader) Read(p []byte) (n int, err error) {
 		read = readable
 	}
 
-	if read == 0 {
+	if readable <= 0 {
 		return 0, io.EOF
 	}
 
-- 
2.43.0


From d1be2e15691524ce65e9a4093a964433da5d7a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 38/41] fix: a comparison that failed with io.ErrUnexpectedEOF
 was taken for complete

---
 comparer/comparer.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 140fd1a..a639615 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -102,7 +102,7 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		}
 	}
 
-	_, err = io.ReadFull(comparison, block)
+	_, err = readFull(comparison, block)
 
 	if err != nil {
 		ReportErr(
@@ -172,10 +172,10 @@ func (c *Comparer) startFindMatchingBlocks_int(
 
 		switch next {
 		case READ_NEXT_BYTE:
-			n, err = io.ReadFull(comparison, singleByte)
+			n, err = readFull(comparison, singleByte)
 			readBytes = singleByte
 		case READ_NEXT_BLOCK:
-			n, err = io.ReadFull(comparison, block)
+			n, err = readFull(comparison, block)
 			readBytes = block[:n]
 			next = READ_NEXT_BYTE
 		}
@@ -195,8 +195,7 @@ func (c *Comparer) startFindMatchingBlocks_int(
 			i += int64(n)
 		}
 
-		if next != READ_NONE && (err == io.EOF || err == io.ErrUnexpectedEOF) {
-			err = io.EOF
+		if next != READ_NONE && err == io.EOF {
 			next = READ_NONE
 		}
 
@@ -221,3 +220,20 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		return
 	}
 }
+
+// readFull fills the buffer unless the input ends or fails. Unlike with io.ReadFull, the end of
+// the input is always io.EOF, so that an io.ErrUnexpectedEOF of the input itself (it is a truncated
+// stream) is not mistaken for its end.
+func readFull(input io.Reader, buffer []byte) (n int, err error) {
+	for n < len(buffer) && err == nil {
+		var nn int
+		nn, err = input.Read(buffer[n:])
+		n += nn
+	}
+
+	if n == len(buffer) {
+		err = nil
+	}
+
+	return
+}
-- 
2.43.0


From 3dd13aeee066ad3869d1ec76d5ad49be157725de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:16 +0000
Subject: [PATCH 39/41] fix: gosync diff crashed on or accepted damaged indexes
 and invalid stream counts

---
 cmd/gosync/diff.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cmd/gosync/diff.go b/cmd/gosync/diff.go
index 0d35f77..25cea76 100644
--- a/cmd/gosync/diff.go
+++ b/cmd/gosync/diff.go
@@ -51,7 +51,7 @@ func Diff(c *cli.Context) error {
 
 	defer referenceFile.Close()
 
-	_, _, _, _, blocksize, e := readHeadersAndCheck(
+	_, _, _, filesize, blocksize, e := readHeadersAndCheck(
 		referenceFile,
 		magicString,
 		majorVersion,
@@ -62,15 +62,24 @@ func Diff(c *cli.Context) error {
 		os.Exit(1)
 	}
 
+	if blocksize == 0 || filesize < 0 {
+		fmt.Printf("Error loading index: invalid block size %v or file size %v", blocksize, filesize)
+		os.Exit(1)
+	}
+
 	fmt.Println("Blocksize: ", blocksize)
 
-	index, _, _, err := readIndex(referenceFile, uint(blocksize))
+	index, _, blockCount, err := readIndex(referenceFile, uint(blocksize))
 	referenceFile.Close()
 
 	if err != nil {
 		return err
 	}
 
+	if blocks := (filesize + int64(blocksize) - 1) / int64(blocksize); int64(blockCount) != blocks {
+		return fmt.Errorf("Error loading index: it has %v blocks instead of %v", blockCount, blocks)
+	}
+
 	fmt.Println("Weak hash count:", index.WeakCount())
 
 	fi, err := localFile.Stat()
@@ -82,6 +91,10 @@ func Diff(c *cli.Context) error {
 
 	num_matchers := int64(c.Int("p"))
 
+	if num_matchers < 1 {
+		return fmt.Errorf("Invalid number of streams: %v", num_matchers)
+	}
+
 	localFile_size := fi.Size()
 
 	// Don't split up small files
-- 
2.43.0


From cba19a9bc48e9297f19def1ee09973335efacbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:43 +0000
Subject: [PATCH 40/41] fix: gosync build destroyed a file that has the name of
 its own index

---
 cmd/gosync/build.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 22300fd..da818de 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -61,6 +61,13 @@ func Build(c *cli.Context) error {
 
 	ext := filepath.Ext(filename)
 	outfilePath := filename[:len(filename)-len(ext)] + ".gosync"
+
+	// creating the index would destroy the file that is to be indexed
+	if existing, e := os.Stat(outfilePath); e == nil && os.SameFile(s, existing) {
+		fmt.Fprintf(os.Stderr, "Cannot write the index of %v over the file itself\n", filename)
+		os.Exit(1)
+	}
+
 	outputFile, err := os.Create(outfilePath)
 
 	if err != nil {
-- 
2.43.0


From 4bf64e53ba14923063f1dad36dc741df3fab4ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:49 +0000
Subject: [PATCH 41/41] fix: a summary without a checksum lookup (documented:
 no verification) crashed the patch

---
 rsync.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rsync.go b/rsync.go
index 3b6d902..7ff2adf 100644
--- a/rsync.go
+++ b/rsync.go
@@ -92,6 +92,15 @@ func (fs *BasicSummary) GetFileSize() int64 {
 	return fs.FileSize
 }
 
+// GetStrongChecksumForBlock gets the strong checksum of a block, or nil if
+// there is no ChecksumLookup, so that downloaded data is not verified
+func (fs *BasicSummary) GetStrongChecksumForBlock(blockID int) []byte {
+	if fs.ChecksumLookup == nil {
+		return nil
+	}
+	return fs.ChecksumLookup.GetStrongChecksumForBlock(blockID)
+}
+
 // MakeRSync creates an RSync object using string paths,
 // inferring most of the configuration
 func MakeRSync(
-- 
2.43.0

