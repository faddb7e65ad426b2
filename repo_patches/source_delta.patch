From f1f99d3695e91c9e4484dc4bfe073a8c59452fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:02 +0000
Subject: [PATCH 01/49] fix: free the drive when opening or closing it fails

---
 pkg/tape/manager.go | 21 ++++++++++++++-------
 pkg/tape/write.go   |  6 ++++++
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/pkg/tape/manager.go b/pkg/tape/manager.go
index eb60314..3ac750f 100644
--- a/pkg/tape/manager.go
+++ b/pkg/tape/manager.go
@@ -46,7 +46,6 @@ func (m *TapeManager) GetWriter() (config.DriveWriterConfig, error) {
 	if m.overwrote {
 		overwrite = false
 	}
-	m.overwrote = true
 
 	writer, writerIsRegular, err := OpenTapeWriteOnly(
 		m.drive,
@@ -55,9 +54,12 @@ func (m *TapeManager) GetWriter() (config.DriveWriterConfig, error) {
 		overwrite,
 	)
 	if err != nil {
+		m.physicalLock.Unlock()
+
 		return config.DriveWriterConfig{}, err
 	}
 
+	m.overwrote = true
 	m.closer = writer.Close
 
 	return config.DriveWriterConfig{
@@ -78,15 +80,18 @@ func (m *TapeManager) GetReader() (config.DriveReaderConfig, error) {
 }
 
 func (m *TapeManager) Close() error {
-	if m.closer != nil {
-		if err := m.closer(); err != nil {
-			return err
-		}
+	// Nothing is open, so there is nothing to close or to unlock
+	if m.closer == nil {
+		return nil
 	}
 
-	m.physicalLock.Unlock()
+	closer := m.closer
+	m.closer = nil
 
-	return nil
+	// The drive is free again even if closing it failed
+	defer m.physicalLock.Unlock()
+
+	return closer()
 }
 
 func (m *TapeManager) openOrReuseReader() error {
@@ -106,6 +111,8 @@ func (m *TapeManager) openOrReuseReader() error {
 
 		r, rr, err := OpenTapeReadOnly(m.drive)
 		if err != nil {
+			m.physicalLock.Unlock()
+
 			return err
 		}
 
diff --git a/pkg/tape/write.go b/pkg/tape/write.go
index 0fd031e..d856543 100644
--- a/pkg/tape/write.go
+++ b/pkg/tape/write.go
@@ -32,6 +32,8 @@ func OpenTapeWriteOnly(
 
 			// Clear the file's content
 			if err := f.Truncate(0); err != nil {
+				_ = f.Close()
+
 				return nil, false, err
 			}
 
@@ -46,6 +48,8 @@ func OpenTapeWriteOnly(
 
 			// Seek to the start of the tape
 			if err := mt.SeekToRecordOnTape(f.Fd(), 0); err != nil {
+				_ = f.Close()
+
 				return nil, false, err
 			}
 
@@ -71,6 +75,8 @@ func OpenTapeWriteOnly(
 		if !overwrite {
 			// Go to end of tape
 			if err := mt.GoToEndOfTape(f.Fd()); err != nil {
+				_ = f.Close()
+
 				return nil, false, err
 			}
 		}
-- 
2.43.0


From 8c752e8755ce7a85cd737a7ea679b0d22d825394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:33 +0000
Subject: [PATCH 02/49] fix: free the drive when an operation fails part-way

---
 pkg/operations/archive.go | 13 +++++++++++++
 pkg/operations/delete.go  | 13 +++++++++++++
 pkg/operations/move.go    | 13 +++++++++++++
 pkg/operations/update.go  | 13 +++++++++++++
 4 files changed, 52 insertions(+)

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 5ba63ee..32e9040 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -48,6 +48,14 @@ func (o *Operations) archive(
 		return []*tar.Header{}, err
 	}
 
+	// Free the drive if we return early
+	writing := true
+	defer func() {
+		if writing {
+			_ = o.backend.CloseWriter()
+		}
+	}()
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -261,6 +269,7 @@ func (o *Operations) archive(
 		index = 0 // If we are starting fresh, index from start
 	}
 
+	writing = false
 	if err := o.backend.CloseWriter(); err != nil {
 		return []*tar.Header{}, err
 	}
@@ -298,6 +307,10 @@ func (o *Operations) archive(
 		},
 
 		func(hdr *config.Header) {
+			if o.onHeader == nil {
+				return
+			}
+
 			o.onHeader(&config.HeaderEvent{
 				Type:    config.HeaderEventTypeArchive,
 				Indexed: true,
diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index e45f531..00ad7b1 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -26,6 +26,14 @@ func (o *Operations) Delete(name string) error {
 		return err
 	}
 
+	// Free the drive if we return early
+	writing := true
+	defer func() {
+		if writing {
+			_ = o.backend.CloseWriter()
+		}
+	}()
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -107,6 +115,7 @@ func (o *Operations) Delete(name string) error {
 		return err
 	}
 
+	writing = false
 	if err := o.backend.CloseWriter(); err != nil {
 		return err
 	}
@@ -144,6 +153,10 @@ func (o *Operations) Delete(name string) error {
 		},
 
 		func(hdr *config.Header) {
+			if o.onHeader == nil {
+				return
+			}
+
 			o.onHeader(&config.HeaderEvent{
 				Type:    config.HeaderEventTypeDelete,
 				Indexed: true,
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 3cace4f..38102d9 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -33,6 +33,14 @@ func (o *Operations) Move(from string, to string) error {
 		return err
 	}
 
+	// Free the drive if we return early
+	writing := true
+	defer func() {
+		if writing {
+			_ = o.backend.CloseWriter()
+		}
+	}()
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -126,6 +134,7 @@ func (o *Operations) Move(from string, to string) error {
 		return err
 	}
 
+	writing = false
 	if err := o.backend.CloseWriter(); err != nil {
 		return err
 	}
@@ -163,6 +172,10 @@ func (o *Operations) Move(from string, to string) error {
 		},
 
 		func(hdr *config.Header) {
+			if o.onHeader == nil {
+				return
+			}
+
 			o.onHeader(&config.HeaderEvent{
 				Type:    config.HeaderEventTypeMove,
 				Indexed: true,
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 629cd8e..6b18e54 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -33,6 +33,14 @@ func (o *Operations) Update(
 		return []*tar.Header{}, err
 	}
 
+	// Free the drive if we return early
+	writing := true
+	defer func() {
+		if writing {
+			_ = o.backend.CloseWriter()
+		}
+	}()
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -279,6 +287,7 @@ func (o *Operations) Update(
 		return []*tar.Header{}, err
 	}
 
+	writing = false
 	if err := o.backend.CloseWriter(); err != nil {
 		return []*tar.Header{}, err
 	}
@@ -316,6 +325,10 @@ func (o *Operations) Update(
 		},
 
 		func(hdr *config.Header) {
+			if o.onHeader == nil {
+				return
+			}
+
 			o.onHeader(&config.HeaderEvent{
 				Type:    config.HeaderEventTypeUpdate,
 				Indexed: true,
-- 
2.43.0


From 22fe9db416f47dbc2454be2906223f5fa23e030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:05 +0000
Subject: [PATCH 03/49] fix: index the files already written when a later one
 in the batch fails

---
 pkg/operations/archive.go | 80 +++++++++++++++++++++++++++++----------
 pkg/operations/update.go  | 65 +++++++++++++++++++++++--------
 2 files changed, 111 insertions(+), 34 deletions(-)

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 32e9040..faee076 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -72,6 +72,7 @@ func (o *Operations) archive(
 	}
 
 	hdrs := []*tar.Header{}
+	var writeErr error // Something that went wrong in between two files; the files before it are still indexed
 	for {
 		file, err := getSrc()
 		if err == io.EOF {
@@ -79,7 +80,9 @@ func (o *Operations) archive(
 		}
 
 		if err != nil {
-			return []*tar.Header{}, err
+			writeErr = err
+
+			break
 		}
 
 		hdr, err := tar.FileInfoHeader(file.Info, file.Link)
@@ -89,7 +92,9 @@ func (o *Operations) archive(
 				continue
 			}
 
-			return []*tar.Header{}, err
+			writeErr = err
+
+			break
 		}
 
 		hdr.Name = file.Path
@@ -104,7 +109,9 @@ func (o *Operations) archive(
 
 			encryptor, err := encryption.Encrypt(fileSizeCounter, o.pipes.Encryption, o.crypto.Recipient)
 			if err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 
 			compressor, err := compression.Compress(
@@ -115,40 +122,56 @@ func (o *Operations) archive(
 				o.pipes.RecordSize,
 			)
 			if err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 
 			f, err = file.GetFile()
 			if err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 
 			signer, sign, err := signature.Sign(f, writer.DriveIsRegular, o.pipes.Signature, o.crypto.Identity)
 			if err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 
 			if writer.DriveIsRegular {
 				if _, err := io.Copy(compressor, signer); err != nil {
-					return []*tar.Header{}, err
+					writeErr = err
+
+					break
 				}
 			} else {
 				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
 				if _, err := io.CopyBuffer(compressor, signer, buf); err != nil {
-					return []*tar.Header{}, err
+					writeErr = err
+
+					break
 				}
 			}
 
 			if err := compressor.Flush(); err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 
 			if err := compressor.Close(); err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 
 			if err := encryptor.Close(); err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 
 			if hdr.PAXRecords == nil {
@@ -157,7 +180,9 @@ func (o *Operations) archive(
 			hdr.PAXRecords[records.STFSRecordUncompressedSize] = strconv.Itoa(int(hdr.Size))
 			signature, err := sign()
 			if err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 
 			if signature != "" {
@@ -167,14 +192,18 @@ func (o *Operations) archive(
 
 			hdr.Name, err = suffix.AddSuffix(hdr.Name, o.pipes.Compression, o.pipes.Encryption)
 			if err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 		}
 
 		if o.onHeader != nil {
 			dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
 			if err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 
 			o.onHeader(&config.HeaderEvent{
@@ -185,16 +214,21 @@ func (o *Operations) archive(
 		}
 
 		hdrToAppend := *hdr
-		hdrs = append(hdrs, &hdrToAppend)
 
 		if err := signature.SignHeader(hdr, writer.DriveIsRegular, o.pipes.Signature, o.crypto.Identity); err != nil {
-			return []*tar.Header{}, err
+			writeErr = err
+
+			break
 		}
 
 		if err := encryption.EncryptHeader(hdr, o.pipes.Encryption, o.crypto.Recipient); err != nil {
-			return []*tar.Header{}, err
+			writeErr = err
+
+			break
 		}
 
+		hdrs = append(hdrs, &hdrToAppend)
+
 		if err := tw.WriteHeader(hdr); err != nil {
 			return []*tar.Header{}, err
 		}
@@ -260,6 +294,10 @@ func (o *Operations) archive(
 		}
 	}
 
+	if writeErr != nil && !dirty {
+		return []*tar.Header{}, writeErr
+	}
+
 	if err := cleanup(&dirty); err != nil {
 		return []*tar.Header{}, err
 	}
@@ -280,7 +318,7 @@ func (o *Operations) archive(
 	}
 	defer o.backend.CloseReader()
 
-	return hdrs, recovery.Index(
+	if err := recovery.Index(
 		reader,
 		o.backend.MagneticTapeIO,
 		o.metadata,
@@ -317,5 +355,9 @@ func (o *Operations) archive(
 				Header:  hdr,
 			})
 		},
-	)
+	); err != nil {
+		return hdrs, err
+	}
+
+	return hdrs, writeErr
 }
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 6b18e54..cf9de48 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -53,6 +53,7 @@ func (o *Operations) Update(
 	}
 
 	hdrs := []*tar.Header{}
+	var writeErr error // Something that went wrong in between two files; the files before it are still indexed
 	for {
 		file, err := getSrc()
 		if err == io.EOF {
@@ -60,7 +61,9 @@ func (o *Operations) Update(
 		}
 
 		if err != nil {
-			return []*tar.Header{}, err
+			writeErr = err
+
+			break
 		}
 
 		hdr, err := tar.FileInfoHeader(file.Info, file.Link)
@@ -70,7 +73,9 @@ func (o *Operations) Update(
 				continue
 			}
 
-			return []*tar.Header{}, err
+			writeErr = err
+
+			break
 		}
 
 		hdr.Name = file.Path
@@ -90,7 +95,9 @@ func (o *Operations) Update(
 
 			encryptor, err := encryption.Encrypt(fileSizeCounter, o.pipes.Encryption, o.crypto.Recipient)
 			if err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 
 			compressor, err := compression.Compress(
@@ -101,40 +108,56 @@ func (o *Operations) Update(
 				o.pipes.RecordSize,
 			)
 			if err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 
 			f, err = file.GetFile()
 			if err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 
 			signer, sign, err := signature.Sign(f, writer.DriveIsRegular, o.pipes.Signature, o.crypto.Identity)
 			if err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 
 			if writer.DriveIsRegular {
 				if _, err := io.Copy(compressor, signer); err != nil {
-					return []*tar.Header{}, err
+					writeErr = err
+
+					break
 				}
 			} else {
 				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
 				if _, err := io.CopyBuffer(compressor, signer, buf); err != nil {
-					return []*tar.Header{}, err
+					writeErr = err
+
+					break
 				}
 			}
 
 			if err := compressor.Flush(); err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 
 			if err := compressor.Close(); err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 
 			if err := encryptor.Close(); err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 
 			if hdr.PAXRecords == nil {
@@ -143,7 +166,9 @@ func (o *Operations) Update(
 			hdr.PAXRecords[records.STFSRecordUncompressedSize] = strconv.Itoa(int(hdr.Size))
 			signature, err := sign()
 			if err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 
 			if signature != "" {
@@ -153,7 +178,9 @@ func (o *Operations) Update(
 
 			hdr.Name, err = suffix.AddSuffix(hdr.Name, o.pipes.Compression, o.pipes.Encryption)
 			if err != nil {
-				return []*tar.Header{}, err
+				writeErr = err
+
+				break
 			}
 		}
 
@@ -283,6 +310,10 @@ func (o *Operations) Update(
 		dirty = true
 	}
 
+	if writeErr != nil && !dirty {
+		return []*tar.Header{}, writeErr
+	}
+
 	if err := cleanup(&dirty); err != nil {
 		return []*tar.Header{}, err
 	}
@@ -298,7 +329,7 @@ func (o *Operations) Update(
 	}
 	defer o.backend.CloseReader()
 
-	return hdrs, recovery.Index(
+	if err := recovery.Index(
 		reader,
 		o.backend.MagneticTapeIO,
 		o.metadata,
@@ -335,5 +366,9 @@ func (o *Operations) Update(
 				Header:  hdr,
 			})
 		},
-	)
+	); err != nil {
+		return hdrs, err
+	}
+
+	return hdrs, writeErr
 }
-- 
2.43.0


From d21aa699eeb06b7977c087b3c9a88ff6d79f574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 04/49] fix: recover from torn and damaged records and from any
 amount of trailer blocks when indexing

---
 pkg/recovery/index.go | 108 ++++++++++++++++++++++++++++--------------
 1 file changed, 72 insertions(+), 36 deletions(-)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index faffb60..5933aa1 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -3,6 +3,7 @@ package recovery
 import (
 	"archive/tar"
 	"bufio"
+	"bytes"
 	"context"
 	"database/sql"
 	"io"
@@ -63,57 +64,50 @@ func Index(
 		for {
 			hdr, err := tr.Next()
 			if err != nil {
-				for {
-					curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-					if err != nil {
-						return err
-					}
+				if !isResyncable(err) {
+					return err
+				}
 
-					nextTotalBlocks := math.Ceil(float64((curr)) / float64(config.MagneticTapeBlockSize))
-					record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-					block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
+				// Find the next header; this skips over trailers, so that appending to a tar file created by i.e. GNU tar is possible, and over records which were torn or damaged
+				start := (record*int64(pipes.RecordSize) + block) * config.MagneticTapeBlockSize
+				if err != io.EOF {
+					start += config.MagneticTapeBlockSize // Don't try to read the damaged header again
+				}
 
-					if block < 0 {
-						record--
-						block = int64(pipes.RecordSize) - 1
-					} else if block >= int64(pipes.RecordSize) {
-						record++
-						block = 0
-					}
+				hdr = nil
+				for {
+					start, err = skipZeroBlocks(reader.Drive, start)
+					if err != nil {
+						if err == io.EOF || err == io.ErrUnexpectedEOF {
+							// EOF
+							break
+						}
 
-					// Seek to record and block
-					if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*int(record))+int(block)*config.MagneticTapeBlockSize), io.SeekStart); err != nil {
 						return err
 					}
 
 					tr = tar.NewReader(reader.Drive)
 
 					hdr, err = tr.Next()
-					if err != nil {
-						if err == io.EOF {
-							// EOF
-							break
-						}
+					if err == nil {
+						break
+					}
 
-						continue
+					if !isResyncable(err) {
+						return err
 					}
 
-					break
+					hdr = nil
+					start += config.MagneticTapeBlockSize
 				}
-			}
 
-			if hdr == nil {
-				// Try to skip over the next file mark; this makes it possible to append to a tar file created by i.e. GNU tar
-				if _, err := reader.Drive.Read(make([]byte, config.MagneticTapeBlockSize*2)); err != nil {
-					if err == io.EOF {
-						// EOF
-						break
-					}
-
-					return err
+				if hdr == nil {
+					// EOF
+					break
 				}
 
-				continue
+				record = start / config.MagneticTapeBlockSize / int64(pipes.RecordSize)
+				block = start/config.MagneticTapeBlockSize - record*int64(pipes.RecordSize)
 			}
 
 			if i >= offset {
@@ -136,6 +130,11 @@ func Index(
 			}
 
 			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+				if err == io.ErrUnexpectedEOF {
+					// The content of the last record has been torn, so there is nothing after it
+					break
+				}
+
 				return err
 			}
 
@@ -178,7 +177,7 @@ func Index(
 		for {
 			hdr, err := tr.Next()
 			if err != nil {
-				if err == io.EOF {
+				if isResyncable(err) {
 					if err := mt.GoToNextFileOnTape(reader.Drive.Fd()); err != nil {
 						// EOD
 
@@ -219,6 +218,13 @@ func Index(
 			curr = int64(counter.BytesRead)
 
 			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+				if err == io.ErrUnexpectedEOF {
+					// The content of the record has been torn; continue with the next file
+					i++
+
+					continue
+				}
+
 				return err
 			}
 
@@ -240,6 +246,36 @@ func Index(
 	return nil
 }
 
+// isResyncable returns true if it might be possible to find another header after getting this error while reading one
+func isResyncable(err error) bool {
+	return err == io.EOF || err == io.ErrUnexpectedEOF || err == tar.ErrHeader || err == tar.ErrFieldTooLong
+}
+
+// skipZeroBlocks seeks to the first block starting from `start` which contains anything but zeros
+func skipZeroBlocks(drive io.ReadSeeker, start int64) (int64, error) {
+	if _, err := drive.Seek(start, io.SeekStart); err != nil {
+		return start, err
+	}
+
+	zero := make([]byte, config.MagneticTapeBlockSize)
+	block := make([]byte, config.MagneticTapeBlockSize)
+	for {
+		if _, err := io.ReadFull(drive, block); err != nil {
+			return start, err
+		}
+
+		if !bytes.Equal(block, zero) {
+			break
+		}
+
+		start += config.MagneticTapeBlockSize
+	}
+
+	_, err := drive.Seek(start, io.SeekStart)
+
+	return start, err
+}
+
 func indexHeader(
 	record, block int64,
 	hdr *tar.Header,
-- 
2.43.0


From ec6ac4bd5c50ced265ca1faa58134e61edb98adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 05/49] fix: make indexing moved, deleted and re-created
 headers idempotent

---
 pkg/persisters/metadata.go | 116 +++++++++++++++++++++++++++----------
 pkg/recovery/index.go      |  35 ++++-------
 2 files changed, 96 insertions(+), 55 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index ac26102..b4820bd 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -107,10 +107,11 @@ func (p *MetadataPersister) UpsertHeader(ctx context.Context, dbhdr *config.Head
 		hdr.Name = p.getSanitizedPath(ctx, idbhdr.Name)
 	}
 
-	if _, err := models.Headers(
+	existing, err := models.Headers(
 		qm.Where(models.HeaderColumns.Name+" = ?", hdr.Name),
 		qm.Where(models.HeaderColumns.Linkname+" = ?", hdr.Linkname),
-	).One(ctx, p.sqlite.DB); err != nil {
+	).One(ctx, p.sqlite.DB)
+	if err != nil {
 		if err == sql.ErrNoRows {
 			if err := hdr.Insert(ctx, p.sqlite.DB, boil.Infer()); err != nil {
 				return err
@@ -118,6 +119,8 @@ func (p *MetadataPersister) UpsertHeader(ctx context.Context, dbhdr *config.Head
 		} else {
 			return err
 		}
+	} else if isNewer(existing, hdr.Lastknownrecord, hdr.Lastknownblock) {
+		return nil // Already indexed
 	}
 
 	if _, err := hdr.Update(ctx, p.sqlite.DB, boil.Infer()); err != nil {
@@ -133,6 +136,18 @@ func (p *MetadataPersister) UpdateHeaderMetadata(ctx context.Context, dbhdr *con
 	hdr := *idbhdr
 	hdr.Name = p.getSanitizedPath(ctx, idbhdr.Name)
 
+	existing, err := models.Headers(
+		qm.Where(models.HeaderColumns.Name+" = ?", hdr.Name),
+		qm.Where(models.HeaderColumns.Linkname+" = ?", hdr.Linkname),
+	).One(ctx, p.sqlite.DB)
+	if err == nil && isNewer(existing, hdr.Lastknownrecord, hdr.Lastknownblock) {
+		return nil // Already indexed
+	}
+
+	if err != nil && err != sql.ErrNoRows {
+		return err
+	}
+
 	if _, err := hdr.Update(ctx, p.sqlite.DB, boil.Infer()); err != nil {
 		return err
 	}
@@ -144,49 +159,76 @@ func (p *MetadataPersister) MoveHeader(ctx context.Context, oldName string, newN
 	newName = p.getSanitizedPath(ctx, newName)
 	oldName = p.getSanitizedPath(ctx, oldName)
 
+	if oldName == newName {
+		return nil
+	}
+
+	// Only touch headers which have last been changed before this move
+	before := fmt.Sprintf(
+		`%v = ? and %v = '' and (%v < ? or (%v = ? and %v < ?))`,
+		models.HeaderColumns.Name,
+		models.HeaderColumns.Linkname,
+		models.HeaderColumns.Lastknownrecord,
+		models.HeaderColumns.Lastknownrecord,
+		models.HeaderColumns.Lastknownblock,
+	)
+
+	// If this move is already known, then the header with the old name (if there is one) exists because it has been indexed again
+	moved, err := models.Headers(
+		qm.Where(models.HeaderColumns.Name+" = ?", newName),
+		qm.Where(models.HeaderColumns.Linkname+" = ?", ""),
+		qm.Where(
+			fmt.Sprintf("(%v > ? or (%v = ? and %v >= ?))", models.HeaderColumns.Lastknownrecord, models.HeaderColumns.Lastknownrecord, models.HeaderColumns.Lastknownblock),
+			lastknownrecord,
+			lastknownrecord,
+			lastknownblock,
+		),
+	).Exists(ctx, p.sqlite.DB)
+	if err != nil {
+		return err
+	}
+
+	// Otherwise, the header replaces the one which had the new name before
+	replaced := newName
+	if moved {
+		replaced = oldName
+	}
+
+	if _, err := queries.Raw(
+		fmt.Sprintf(`delete from %v where %v;`, models.TableNames.Headers, before),
+		replaced,
+		lastknownrecord,
+		lastknownrecord,
+		lastknownblock,
+	).ExecContext(ctx, p.sqlite.DB); err != nil {
+		return err
+	}
+
+	if moved {
+		return nil
+	}
+
 	// We can't do this with `dbhdr.Update` because we are renaming the primary key
-	n, err := queries.Raw(
+	if _, err := queries.Raw(
 		fmt.Sprintf(
-			`update %v set %v = ?, %v = ?, %v = ? where %v = ?;`,
+			`update %v set %v = ?, %v = ?, %v = ? where %v;`,
 			models.TableNames.Headers,
 			models.HeaderColumns.Name,
 			models.HeaderColumns.Lastknownrecord,
 			models.HeaderColumns.Lastknownblock,
-			models.HeaderColumns.Name,
+			before,
 		),
 		newName,
 		lastknownrecord,
 		lastknownblock,
 		oldName,
-	).ExecContext(ctx, p.sqlite.DB)
-	if err != nil {
-		return err
-	}
-
-	written, err := n.RowsAffected()
-	if err != nil {
+		lastknownrecord,
+		lastknownrecord,
+		lastknownblock,
+	).ExecContext(ctx, p.sqlite.DB); err != nil {
 		return err
 	}
 
-	if written < 1 {
-		if _, err := queries.Raw(
-			fmt.Sprintf(
-				`update %v set %v = ?, %v = ?, %v = ? where %v = ?;`,
-				models.TableNames.Headers,
-				models.HeaderColumns.Name,
-				models.HeaderColumns.Lastknownrecord,
-				models.HeaderColumns.Lastknownblock,
-				models.HeaderColumns.Name,
-			),
-			newName,
-			lastknownrecord,
-			lastknownblock,
-			oldName,
-		).ExecContext(ctx, p.sqlite.DB); err != nil {
-			return err
-		}
-	}
-
 	return nil
 }
 
@@ -212,6 +254,7 @@ func (p *MetadataPersister) GetHeader(ctx context.Context, name string) (*config
 	hdr, err := models.Headers(
 		qm.Where(models.HeaderColumns.Name+" = ?", name),
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
+		qm.OrderBy(models.HeaderColumns.Linkname), // Prefer the actual header over links to it
 	).One(ctx, p.sqlite.DB)
 	if err != nil {
 		return nil, err
@@ -441,12 +484,16 @@ func (p *MetadataPersister) DeleteHeader(ctx context.Context, name string, lastk
 
 	hdr, err := models.Headers(
 		qm.Where(models.HeaderColumns.Name+" = ?", name),
-		qm.Where(models.HeaderColumns.Deleted+" != 1"),
+		qm.OrderBy(models.HeaderColumns.Linkname),
 	).One(ctx, p.sqlite.DB)
 	if err != nil {
 		return nil, err
 	}
 
+	if isNewer(hdr, lastknownrecord, lastknownblock) {
+		return converters.DBHeaderToConfigHeader(hdr), nil // Already indexed
+	}
+
 	hdr.Deleted = 1
 	hdr.Lastknownrecord = lastknownrecord
 	hdr.Lastknownblock = lastknownblock
@@ -492,6 +539,11 @@ func (p *MetadataPersister) PurgeAllHeaders(ctx context.Context) error {
 	return nil
 }
 
+// isNewer returns true if the header has last been changed by a record which comes after `record` and `block`
+func isNewer(hdr *models.Header, record, block int64) bool {
+	return hdr.Lastknownrecord > record || (hdr.Lastknownrecord == record && hdr.Lastknownblock > block)
+}
+
 func (p *MetadataPersister) headerExistsExact(ctx context.Context, name string) error {
 	exists, err := models.Headers(
 		qm.Where(models.HeaderColumns.Name+" = ?", name),
diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index 5933aa1..7e0df3b 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -12,7 +12,6 @@ import (
 	"strconv"
 
 	"github.com/pojntfx/stfs/internal/converters"
-	models "github.com/pojntfx/stfs/internal/db/sqlite/models/metadata"
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/internal/suffix"
@@ -339,55 +338,45 @@ func indexHeader(
 				return err
 			}
 		case records.STFSRecordActionUpdate:
-			moveAfterEdits := false
-			oldName := hdr.Name
-			if _, ok := hdr.PAXRecords[records.STFSRecordReplacesName]; ok {
-				moveAfterEdits = true
-				oldName = hdr.PAXRecords[records.STFSRecordReplacesName]
+			if oldName, ok := hdr.PAXRecords[records.STFSRecordReplacesName]; ok {
+				// Move header (will be a no-op if the header has been moved before)
+				if err := metadataPersister.MoveHeader(context.Background(), oldName, hdr.Name, record, block); err != nil {
+					return err
+				}
+
+				break
 			}
 
-			var newHdr *models.Header
 			if replacesContent, ok := hdr.PAXRecords[records.STFSRecordReplacesContent]; ok && replacesContent == records.STFSRecordReplacesContentTrue {
 				// Content & metadata update; use the new record & block
-				h, err := converters.TarHeaderToDBHeader(record, record, block, block, hdr)
+				newHdr, err := converters.TarHeaderToDBHeader(record, record, block, block, hdr)
 				if err != nil {
 					return err
 				}
 
-				newHdr = h
-
-				if err := metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(newHdr)); err != nil {
+				if err := metadataPersister.UpsertHeader(context.Background(), converters.DBHeaderToConfigHeader(newHdr), initializing); err != nil {
 					return err
 				}
 			} else {
 				// Metadata-only update; use the old record & block
-				oldHdr, err := metadataPersister.GetHeader(context.Background(), oldName)
+				oldHdr, err := metadataPersister.GetHeader(context.Background(), hdr.Name)
 				if err == nil {
-					h, err := converters.TarHeaderToDBHeader(oldHdr.Record, record, oldHdr.Block, block, hdr)
+					newHdr, err := converters.TarHeaderToDBHeader(oldHdr.Record, record, oldHdr.Block, block, hdr)
 					if err != nil {
 						return err
 					}
 
-					newHdr = h
-
 					if err := metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(newHdr)); err != nil {
 						return err
 					}
 				}
 
-				// To support ignoring previous `Move` operations, we need to ignore non-existent headers here, as moving changes the primary keys
+				// To support ignoring previous `Move` and `Delete` operations, we need to ignore non-existent headers here
 				if err != nil && err != sql.ErrNoRows {
 					return err
 				}
 			}
 
-			if moveAfterEdits {
-				// Move header (will be a no-op if the header has been moved before)
-				if err := metadataPersister.MoveHeader(context.Background(), oldName, hdr.Name, record, block); err != nil {
-					return err
-				}
-			}
-
 		default:
 			return config.ErrSTFSActionUnsupported
 		}
-- 
2.43.0


From af7440f562b162e27ed91412690b2c77b41bcd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:30 +0000
Subject: [PATCH 06/49] fix: only strip suffixes from records which have
 content

---
 pkg/recovery/index.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index 7e0df3b..fa3b15b 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -275,6 +275,20 @@ func skipZeroBlocks(drive io.ReadSeeker, start int64) (int64, error) {
 	return start, err
 }
 
+// recordHasContent returns true if the header is not just an update to, or the deletion of, an earlier header
+func recordHasContent(hdr *tar.Header) bool {
+	action, ok := hdr.PAXRecords[records.STFSRecordAction]
+	if !ok || action == records.STFSRecordActionCreate {
+		return true
+	}
+
+	if _, ok := hdr.PAXRecords[records.STFSRecordReplacesName]; ok {
+		return false
+	}
+
+	return action == records.STFSRecordActionUpdate && hdr.PAXRecords[records.STFSRecordReplacesContent] == records.STFSRecordReplacesContentTrue
+}
+
 func indexHeader(
 	record, block int64,
 	hdr *tar.Header,
@@ -294,7 +308,8 @@ func indexHeader(
 		hdr.Size = int64(size)
 	}
 
-	if hdr.FileInfo().Mode().IsRegular() {
+	// Only records with content get a suffix; the names in all others might end with one on their own
+	if ok && hdr.FileInfo().Mode().IsRegular() && recordHasContent(hdr) {
 		newName, err := suffix.RemoveSuffix(hdr.Name, compressionFormat, encryptionFormat)
 		if err != nil {
 			return err
-- 
2.43.0


From 6e4ad89b80e269a9ce3da97f99cac861ab864de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:30 +0000
Subject: [PATCH 07/49] fix: match the children of a directory by exact prefix

---
 pkg/persisters/metadata.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index b4820bd..adf0a5c 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -279,9 +279,10 @@ func (p *MetadataPersister) GetHeaderByLinkname(ctx context.Context, linkname st
 
 func (p *MetadataPersister) GetHeaderChildren(ctx context.Context, name string) ([]*config.Header, error) {
 	name = p.getSanitizedPath(ctx, name)
+	prefix := strings.TrimSuffix(name, "/") + "/" // Prevent double trailing slashes
 
 	headers, err := models.Headers(
-		qm.Where(models.HeaderColumns.Name+" like ?", strings.TrimSuffix(name, "/")+"/%"), // Prevent double trailing slashes
+		qm.Where(fmt.Sprintf("substr(%v, 1, length(?)) = ?", models.HeaderColumns.Name), prefix, prefix), // `like` ignores case and has wildcards
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
 	).All(ctx, p.sqlite.DB)
 	if err != nil {
@@ -344,9 +345,9 @@ func (p *MetadataPersister) GetHeaderDirectChildren(ctx context.Context, name st
 
 		query := fmt.Sprintf(
 			`select %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v,
-    length(replace(%v, ?, '')) - length(replace(replace(%v, ?, ''), '/', '')) as depth
+    length(substr(%v, length(?) + 1)) - length(replace(substr(%v, length(?) + 1), '/', '')) as depth
 from %v
-where %v like ?
+where substr(%v, 1, length(?)) = ?
     and (
         depth = ?
         or (
@@ -393,7 +394,8 @@ where %v like ?
 				query+`limit ?`,
 				prefix,
 				prefix,
-				prefix+"%",
+				prefix,
+				prefix,
 				rootDepth,
 				rootDepth+1,
 				limit+1, // +1 to accomodate the parent directory if it exists
@@ -409,7 +411,8 @@ where %v like ?
 				query,
 				prefix,
 				prefix,
-				prefix+"%",
+				prefix,
+				prefix,
 				rootDepth,
 				rootDepth+1,
 			).Bind(ctx, p.sqlite.DB, &headers); err != nil {
-- 
2.43.0


From 65bcee6774e61bc5c3239742a73ca9a71a19f8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 08/49] fix: delete, move and restore links and directories
 with a trailing slash, and move children by their actual prefix

---
 pkg/operations/delete.go     | 12 +----
 pkg/operations/move.go       | 88 ++++++++++++++++++++++--------------
 pkg/operations/operations.go | 20 ++++++++
 pkg/operations/restore.go    | 23 ++++------
 pkg/persisters/metadata.go   |  9 +++-
 pkg/recovery/index.go        | 18 +++++++-
 6 files changed, 108 insertions(+), 62 deletions(-)

diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index 00ad7b1..6791e45 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -3,7 +3,6 @@ package operations
 import (
 	"archive/tar"
 	"context"
-	"database/sql"
 	"path/filepath"
 
 	"github.com/pojntfx/stfs/internal/converters"
@@ -46,16 +45,9 @@ func (o *Operations) Delete(name string) error {
 	}
 
 	headersToDelete := []*config.Header{}
-	dbhdr, err := o.metadata.Metadata.GetHeader(context.Background(), name)
+	dbhdr, err := o.getHeader(name)
 	if err != nil {
-		if err == sql.ErrNoRows {
-			dbhdr, err = o.metadata.Metadata.GetHeaderByLinkname(context.Background(), name)
-			if err != nil {
-				return err
-			}
-		} else {
-			return err
-		}
+		return err
 	}
 	headersToDelete = append(headersToDelete, dbhdr)
 
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 38102d9..8c98333 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -3,7 +3,6 @@ package operations
 import (
 	"archive/tar"
 	"context"
-	"database/sql"
 	"path"
 	"path/filepath"
 	"strings"
@@ -53,31 +52,29 @@ func (o *Operations) Move(from string, to string) error {
 	}
 
 	headersToMove := []*config.Header{}
-	dbhdr, err := o.metadata.Metadata.GetHeader(context.Background(), from)
+	dbhdr, err := o.getHeader(from)
 	if err != nil {
-		if err == sql.ErrNoRows {
-			dbhdr, err = o.metadata.Metadata.GetHeaderByLinkname(context.Background(), from)
-			if err != nil {
-				return err
-			}
-		} else {
-			return err
-		}
+		return err
 	}
 	headersToMove = append(headersToMove, dbhdr)
 
+	source := strings.TrimSuffix(dbhdr.Name, "/")
+	if dbhdr.Linkname != "" {
+		source = dbhdr.Linkname
+	}
+
 	// Prevent moving from relative to absolute path
-	if path.IsAbs(to) && !path.IsAbs(dbhdr.Name) {
+	if path.IsAbs(to) && !path.IsAbs(source) {
 		to = strings.TrimPrefix(to, "/")
 	}
 
 	// Ignore no-op move operation
-	if from == to {
+	if path.Clean(source) == path.Clean(to) {
 		return nil
 	}
 
 	// If the header refers to a directory, get it's children
-	if dbhdr.Typeflag == tar.TypeDir {
+	if dbhdr.Typeflag == tar.TypeDir && dbhdr.Linkname == "" {
 		dbhdrs, err := o.metadata.Metadata.GetHeaderChildren(context.Background(), from)
 		if err != nil {
 			return err
@@ -95,39 +92,60 @@ func (o *Operations) Move(from string, to string) error {
 		}
 
 		hdr.Size = 0 // Don't try to seek after the record
-		hdr.Name = path.Join(to, strings.TrimPrefix(strings.TrimPrefix(dbhdr.Name, "/"), strings.TrimPrefix(from, "/")))
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
-		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
-		hdr.PAXRecords[records.STFSRecordReplacesName] = dbhdr.Name
-
-		hdrs = append(hdrs, *hdr)
 
-		if o.onHeader != nil {
-			dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
+		hdrsToAppend := []*tar.Header{hdr}
+		if dbhdr.Linkname == "" {
+			hdr.Name = path.Join(to, strings.TrimPrefix(dbhdr.Name, source))
+			hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
+			hdr.PAXRecords[records.STFSRecordReplacesName] = dbhdr.Name
+		} else {
+			// Links are identified by both their target and their own name, so delete the old link and create a new one
+			newHdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
 			if err != nil {
 				return err
 			}
 
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeMove,
-				Indexed: false,
-				Header:  converters.DBHeaderToConfigHeader(dbhdr),
-			})
-		}
+			newHdr.Size = 0
+			newHdr.Linkname = path.Join(to, strings.TrimPrefix(dbhdr.Linkname, source))
+			newHdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
+			newHdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionCreate
 
-		if err := signature.SignHeader(hdr, writer.DriveIsRegular, o.pipes.Signature, o.crypto.Identity); err != nil {
-			return err
-		}
+			hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionDelete
 
-		if err := encryption.EncryptHeader(hdr, o.pipes.Encryption, o.crypto.Recipient); err != nil {
-			return err
+			hdrsToAppend = append(hdrsToAppend, newHdr)
 		}
 
-		if err := tw.WriteHeader(hdr); err != nil {
-			return err
-		}
+		for _, hdr := range hdrsToAppend {
+			hdrs = append(hdrs, *hdr)
+
+			if o.onHeader != nil {
+				dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
+				if err != nil {
+					return err
+				}
 
-		dirty = true
+				o.onHeader(&config.HeaderEvent{
+					Type:    config.HeaderEventTypeMove,
+					Indexed: false,
+					Header:  converters.DBHeaderToConfigHeader(dbhdr),
+				})
+			}
+
+			if err := signature.SignHeader(hdr, writer.DriveIsRegular, o.pipes.Signature, o.crypto.Identity); err != nil {
+				return err
+			}
+
+			if err := encryption.EncryptHeader(hdr, o.pipes.Encryption, o.crypto.Recipient); err != nil {
+				return err
+			}
+
+			if err := tw.WriteHeader(hdr); err != nil {
+				return err
+			}
+
+			dirty = true
+		}
 	}
 
 	if err := cleanup(&dirty); err != nil {
diff --git a/pkg/operations/operations.go b/pkg/operations/operations.go
index c34b464..3d1b041 100644
--- a/pkg/operations/operations.go
+++ b/pkg/operations/operations.go
@@ -1,6 +1,9 @@
 package operations
 
 import (
+	"context"
+	"database/sql"
+	"strings"
 	"sync"
 
 	"github.com/pojntfx/stfs/pkg/config"
@@ -53,3 +56,20 @@ func (o *Operations) GetPipes() config.PipeConfig {
 func (o *Operations) GetCrypto() config.CryptoConfig {
 	return o.crypto
 }
+
+// getHeader gets the header, or, if there is none, the link with the name
+func (o *Operations) getHeader(name string) (*config.Header, error) {
+	// Directories in archives which were not written by STFS might have a trailing slash
+	for _, candidate := range []string{name, strings.TrimSuffix(name, "/") + "/"} {
+		dbhdr, err := o.metadata.Metadata.GetHeader(context.Background(), candidate)
+		if err == nil && dbhdr.Linkname == "" {
+			return dbhdr, nil
+		}
+
+		if err != nil && err != sql.ErrNoRows {
+			return nil, err
+		}
+	}
+
+	return o.metadata.Metadata.GetHeaderByLinkname(context.Background(), name)
+}
diff --git a/pkg/operations/restore.go b/pkg/operations/restore.go
index 65c8ebd..b0779b8 100644
--- a/pkg/operations/restore.go
+++ b/pkg/operations/restore.go
@@ -3,7 +3,6 @@ package operations
 import (
 	"archive/tar"
 	"context"
-	"database/sql"
 	"io"
 	"io/fs"
 	"path"
@@ -28,25 +27,15 @@ func (o *Operations) Restore(
 	defer o.diskOperationLock.Unlock()
 
 	headersToRestore := []*config.Header{}
-	src := strings.TrimSuffix(from, "/")
-	dbhdr, err := o.metadata.Metadata.GetHeader(context.Background(), src)
+	dbhdr, err := o.getHeader(strings.TrimSuffix(from, "/"))
 	if err != nil {
-		if err == sql.ErrNoRows {
-			src = src + "/"
-
-			dbhdr, err = o.metadata.Metadata.GetHeader(context.Background(), src)
-			if err != nil {
-				return err
-			}
-		} else {
-			return err
-		}
+		return err
 	}
 	headersToRestore = append(headersToRestore, dbhdr)
 
 	// If the header refers to a directory, get it's children
-	if dbhdr.Typeflag == tar.TypeDir {
-		dbhdrs, err := o.metadata.Metadata.GetHeaderChildren(context.Background(), src)
+	if dbhdr.Typeflag == tar.TypeDir && dbhdr.Linkname == "" {
+		dbhdrs, err := o.metadata.Metadata.GetHeaderChildren(context.Background(), dbhdr.Name)
 		if err != nil {
 			return err
 		}
@@ -70,6 +59,10 @@ func (o *Operations) Restore(
 		}
 
 		dst := dbhdr.Name
+		if dbhdr.Linkname != "" {
+			dst = dbhdr.Linkname
+		}
+
 		if to != "" {
 			if flatten {
 				dst = to
diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index adf0a5c..6ba7601 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -280,9 +280,16 @@ func (p *MetadataPersister) GetHeaderByLinkname(ctx context.Context, linkname st
 func (p *MetadataPersister) GetHeaderChildren(ctx context.Context, name string) ([]*config.Header, error) {
 	name = p.getSanitizedPath(ctx, name)
 	prefix := strings.TrimSuffix(name, "/") + "/" // Prevent double trailing slashes
+	if pathext.IsRoot(name, false) {
+		prefix = ""
+	}
 
 	headers, err := models.Headers(
-		qm.Where(fmt.Sprintf("substr(%v, 1, length(?)) = ?", models.HeaderColumns.Name), prefix, prefix), // `like` ignores case and has wildcards
+		qm.Where(
+			fmt.Sprintf("substr(case when %v = '' then %v else %v end, 1, length(?)) = ?", models.HeaderColumns.Linkname, models.HeaderColumns.Name, models.HeaderColumns.Linkname), // `like` ignores case and has wildcards
+			prefix,
+			prefix,
+		),
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
 	).All(ctx, p.sqlite.DB)
 	if err != nil {
diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index fa3b15b..580ae26 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -349,7 +349,23 @@ func indexHeader(
 				return err
 			}
 		case records.STFSRecordActionDelete:
-			if _, err := metadataPersister.DeleteHeader(context.Background(), hdr.Name, record, block); err != nil {
+			// Links are identified by both their target and their own name
+			if hdr.Linkname != "" {
+				dbhdr, err := converters.TarHeaderToDBHeader(record, record, block, block, hdr)
+				if err != nil {
+					return err
+				}
+				dbhdr.Deleted = 1
+
+				if err := metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(dbhdr)); err != nil {
+					return err
+				}
+
+				break
+			}
+
+			// If the header does not exist, there is nothing to delete
+			if _, err := metadataPersister.DeleteHeader(context.Background(), hdr.Name, record, block); err != nil && err != sql.ErrNoRows {
 				return err
 			}
 		case records.STFSRecordActionUpdate:
-- 
2.43.0


From 3325449981d46118664833129b2d73b049945195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:07 +0000
Subject: [PATCH 09/49] fix: only create entries in existing directories and
 create all missing parents

---
 pkg/fs/filesystem.go | 88 +++++++++++++++-----------------------------
 1 file changed, 29 insertions(+), 59 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 62e2382..57f55b7 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -11,6 +11,7 @@ import (
 	"path"
 	"path/filepath"
 	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -96,22 +97,32 @@ func (f *STFS) Create(name string) (afero.File, error) {
 
 	name = cleanName(name)
 
-	if _, err := inventory.Stat(
+	return f.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
+}
+
+// checkParent returns an error if there is no directory which can contain the entry
+func (f *STFS) checkParent(name string) error {
+	parent, err := inventory.Stat(
 		f.metadata,
 
 		filepath.Dir(name),
 		false,
 
 		f.onHeader,
-	); err != nil {
+	)
+	if err != nil {
 		if err == sql.ErrNoRows {
-			return nil, os.ErrNotExist
+			return os.ErrNotExist
 		}
 
-		return nil, err
+		return err
 	}
 
-	return f.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
+	if parent.Typeflag != tar.TypeDir {
+		return config.ErrIsFile
+	}
+
+	return nil
 }
 
 func (f *STFS) mknodeWithoutLocking(dir bool, name string, perm os.FileMode, overwrite bool, linkname string, initializing bool) error {
@@ -288,18 +299,7 @@ func (f *STFS) Mkdir(name string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(name),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
-
+	if err := f.checkParent(name); err != nil {
 		return err
 	}
 
@@ -343,15 +343,14 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	parts := filepath.SplitList(path)
+	parts := strings.Split(strings.TrimPrefix(filepath.ToSlash(path), "/"), "/")
 	currentPath := ""
+	if filepath.IsAbs(path) {
+		currentPath = "/"
+	}
 
 	for _, part := range parts {
-		if currentPath == "" {
-			currentPath = part
-		} else {
-			currentPath = filepath.Join(currentPath, part)
-		}
+		currentPath = filepath.Join(currentPath, part)
 
 		if hdr, err := inventory.Stat(
 			f.metadata,
@@ -371,6 +370,10 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 					f.onHeader,
 				); err != nil {
 					if err == sql.ErrNoRows {
+						if err := f.checkParent(currentPath); err != nil {
+							return err
+						}
+
 						if err := f.mknodeWithoutLocking(true, currentPath, perm, false, "", false); err != nil {
 							return err
 						}
@@ -466,18 +469,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 			createFile := func() error {
 				if !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL == 0 {
-					if _, err := inventory.Stat(
-						f.metadata,
-
-						filepath.Dir(name),
-						false,
-
-						f.onHeader,
-					); err != nil {
-						if err == sql.ErrNoRows {
-							return os.ErrNotExist
-						}
-
+					if err := f.checkParent(name); err != nil {
 						return err
 					}
 
@@ -752,18 +744,7 @@ func (f *STFS) Rename(oldname, newname string) error {
 		}
 	}
 
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(newname),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
-
+	if err := f.checkParent(newname); err != nil {
 		return err
 	}
 
@@ -1155,18 +1136,7 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(newname),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
-
+	if err := f.checkParent(newname); err != nil {
 		return err
 	}
 
-- 
2.43.0


From d66c6039fd17aee7a7398fddbf1b2eaee86d8dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:08 +0000
Subject: [PATCH 10/49] fix: lock when resolving the root for a link and do not
 link twice from the same name

---
 pkg/fs/filesystem.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 57f55b7..0338428 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -1120,6 +1120,9 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 		return os.ErrInvalid
 	}
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	var err error
 	rawOldName := oldname
 	oldname, err = f.resolveCleanName(oldname, true)
@@ -1133,9 +1136,6 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 		return err
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
 	if err := f.checkParent(newname); err != nil {
 		return err
 	}
@@ -1155,6 +1155,17 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 		); err == nil {
 			return os.ErrExist
 		}
+
+		if _, err := inventory.Stat(
+			f.metadata,
+
+			newname,
+			true,
+
+			f.onHeader,
+		); err == nil {
+			return os.ErrExist
+		}
 	}
 
 	return f.mknodeWithoutLocking(false, oldname, os.ModePerm, false, newname, false)
-- 
2.43.0


From 56e76a4b889801a4faba34d50cb7aa8b3996f424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:10 +0000
Subject: [PATCH 11/49] fix: rename onto existing entries and refuse to move
 the root or a directory into itself

---
 pkg/fs/filesystem.go | 45 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 0338428..ab1ac5d 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -710,7 +710,7 @@ func (f *STFS) Rename(oldname, newname string) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if root, err := f.metadata.Metadata.GetRootPath(context.Background()); err != nil || root == oldname {
+	if root, err := f.metadata.Metadata.GetRootPath(context.Background()); err != nil || root == oldname || pathext.IsRoot(oldname, false) {
 		return os.ErrInvalid
 	}
 
@@ -744,10 +744,21 @@ func (f *STFS) Rename(oldname, newname string) error {
 		}
 	}
 
+	// Prevent moving a directory into itself
+	from, to := path.Join("/", filepath.ToSlash(oldname)), path.Join("/", filepath.ToSlash(newname))
+	if source.Typeflag == tar.TypeDir && source.Linkname == "" && strings.HasPrefix(to, from+"/") {
+		return os.ErrInvalid
+	}
+
 	if err := f.checkParent(newname); err != nil {
 		return err
 	}
 
+	// Ignore no-op rename operation
+	if from == to {
+		return nil
+	}
+
 	target, err := inventory.Stat(
 		f.metadata,
 
@@ -761,11 +772,39 @@ func (f *STFS) Rename(oldname, newname string) error {
 			return os.ErrExist
 		}
 
-		if err := f.removeWithoutLocking(newname); err != nil {
-			return err
+		if target.Typeflag == tar.TypeDir {
+			children, err := inventory.List(
+				f.metadata,
+
+				newname,
+				-1,
+
+				f.onHeader,
+			)
+			if err != nil {
+				return err
+			}
+
+			if len(children) > 0 {
+				return config.ErrDirectoryNotEmpty
+			}
 		}
 
+		// The target is replaced by the move
+	} else if err != sql.ErrNoRows {
 		return err
+	} else if _, err := inventory.Stat(
+		f.metadata,
+
+		newname,
+		true,
+
+		f.onHeader,
+	); err == nil {
+		// Links are not replaced by the move
+		if err := f.removeWithoutLocking(newname); err != nil {
+			return err
+		}
 	}
 
 	return f.writeOps.Move(oldname, newname)
-- 
2.43.0


From 1e4c193c90e40e6011e48475c117fa6006950b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 12/49] fix: create files exclusively with O_EXCL, refuse
 creating in read-only file systems

---
 pkg/fs/filesystem.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index ab1ac5d..7630deb 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -448,6 +448,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		}
 	}
 
+	exists := true
 	hdr, err := inventory.Stat(
 		f.metadata,
 
@@ -468,7 +469,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 			)
 
 			createFile := func() error {
-				if !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL == 0 {
+				if !f.readOnly && flag&os.O_CREATE != 0 {
 					if err := f.checkParent(name); err != nil {
 						return err
 					}
@@ -505,6 +506,10 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 						return err
 					}
+
+					exists = false
+				} else if f.readOnly && flag&os.O_CREATE != 0 {
+					return os.ErrPermission
 				} else {
 					return os.ErrNotExist
 				}
@@ -532,7 +537,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 					f.onHeader,
 				)
 
-				if err == nil && !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL == 0 {
+				if err == nil && !f.readOnly && flag&os.O_CREATE != 0 {
 					hdr, err = inventory.Stat(
 						f.metadata,
 
@@ -560,6 +565,10 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		}
 	}
 
+	if exists && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
+		return nil, os.ErrExist
+	}
+
 	// Prevent opening a directory as writable
 	if hdr.Typeflag == tar.TypeDir && (flags.Write || flags.Append || flags.Truncate) {
 		return nil, config.ErrIsDirectory
-- 
2.43.0


From 83265b57b28639208400bd2c858c4331c154deb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:13 +0000
Subject: [PATCH 13/49] fix: keep the setuid, setgid and sticky bits

---
 pkg/fs/filesystem.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 7630deb..33a2bea 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -178,7 +178,7 @@ func (f *STFS) mknodeWithoutLocking(dir bool, name string, perm os.FileMode, ove
 		Name:     name,
 		Linkname: linkname,
 
-		Mode:  int64(perm),
+		Mode:  tarMode(perm),
 		Uid:   uid,
 		Gid:   gid,
 		Uname: usr.Username,
@@ -958,7 +958,7 @@ func (f *STFS) Chmod(name string, mode os.FileMode) error {
 		}
 	}
 
-	hdr.Mode = int64(mode)
+	hdr.Mode = tarMode(mode)
 
 	return f.updateMetadata(hdr)
 }
@@ -1260,3 +1260,19 @@ func (f *STFS) resolveCleanName(name string, aliasRoot bool) (string, error) {
 func cleanName(name string) string {
 	return filepath.Clean(name)
 }
+
+// tarMode converts the permission bits from Go's to tar's representation
+func tarMode(mode os.FileMode) int64 {
+	raw := int64(mode.Perm())
+	if mode&os.ModeSetuid != 0 {
+		raw |= 04000
+	}
+	if mode&os.ModeSetgid != 0 {
+		raw |= 02000
+	}
+	if mode&os.ModeSticky != 0 {
+		raw |= 01000
+	}
+
+	return raw
+}
-- 
2.43.0


From a2df2221e384c2695562dbfb119a7c15aee6a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 14/49] fix: keep the content after the cursor when writing to
 the memory write cache

---
 pkg/cache/write.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pkg/cache/write.go b/pkg/cache/write.go
index b67c230..7318984 100644
--- a/pkg/cache/write.go
+++ b/pkg/cache/write.go
@@ -37,11 +37,35 @@ func (f filebufferWithSize) Sync() error {
 }
 
 func (f filebufferWithSize) Truncate(size int64) error {
+	if size < 0 {
+		return os.ErrInvalid
+	}
+
+	if grow := size - int64(f.Buff.Len()); grow > 0 {
+		_, err := f.Buff.Write(make([]byte, grow))
+
+		return err
+	}
+
 	f.Buff.Truncate(int(size))
 
 	return nil
 }
 
+// Write overwrites the content at the cursor; in contrast to `filebuffer`'s `Write` it keeps the content after it and fills gaps with zeros
+func (f filebufferWithSize) Write(p []byte) (n int, err error) {
+	if end := f.Index + int64(len(p)); end > int64(f.Buff.Len()) {
+		if err := f.Truncate(end); err != nil {
+			return 0, err
+		}
+	}
+
+	n = copy(f.Buff.Bytes()[f.Index:], p)
+	f.Index += int64(n)
+
+	return n, nil
+}
+
 func NewCacheWrite(
 	root string,
 	cacheType string,
-- 
2.43.0


From d95de2b49998a3ec40b77ece8c978d623fc1e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 15/49] fix: buffer open files so that they behave like a byte
 array, follow renames and never keep the drive busy between calls

---
 pkg/fs/file.go       | 652 ++++++++++++++++++++-----------------------
 pkg/fs/filesystem.go |  81 +++++-
 2 files changed, 380 insertions(+), 353 deletions(-)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 6e6b400..02de8af 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -1,12 +1,13 @@
 package fs
 
 import (
-	"bytes"
+	"archive/tar"
 	"database/sql"
 	"io"
 	"io/fs"
 	"os"
 	"path"
+	"path/filepath"
 	"sync"
 	"time"
 
@@ -20,6 +21,15 @@ import (
 	"github.com/spf13/afero"
 )
 
+// readSeekNopCloser adds a no-op `Close` so that the underlying file can be re-used
+type readSeekNopCloser struct {
+	io.ReadSeeker
+}
+
+func (readSeekNopCloser) Close() error {
+	return nil
+}
+
 type FileFlags struct {
 	Read  bool
 	Write bool
@@ -48,11 +58,16 @@ type File struct {
 
 	ioLock *sync.Mutex
 
-	readOpReader *ioext.CounterReadCloser
-	readOpWriter io.WriteCloser
+	cursor   int64
+	modified time.Time
+
+	buf      cache.WriteCache
+	cleanBuf func() error
+	dirty    bool
 
-	writeBuf      cache.WriteCache
-	cleanWriteBuf func() error
+	closed   bool
+	unlinked bool
+	onClose  func()
 
 	onHeader func(hdr *config.Header)
 	log      logging.StructuredLogger
@@ -100,78 +115,156 @@ func NewFile(
 	}
 }
 
-func (f *File) syncWithoutLocking() error {
-	f.log.Trace("File.syncWithoutLocking", map[string]interface{}{
+// loadWithoutLocking reads the existing content into the buffer, which all other calls then use
+func (f *File) loadWithoutLocking() error {
+	f.log.Trace("File.loadWithoutLocking", map[string]interface{}{
 		"name": f.name,
 	})
 
-	if f.info.IsDir() {
-		return config.ErrIsDirectory
+	if f.buf != nil {
+		return nil
+	}
+
+	size := int64(0)
+	if !f.flags.Truncate {
+		hdr, err := f.statWithoutLocking()
+		if err != nil {
+			return err
+		}
+
+		size = hdr.Size
+	}
+
+	getFileBuffer := f.getFileBuffer
+	if getFileBuffer == nil {
+		// Without a write cache the file can't be written to, so it only needs to be kept until it is closed
+		getFileBuffer = func() (cache.WriteCache, func() error, error) {
+			return cache.NewCacheWrite("", config.WriteCacheTypeMemory)
+		}
 	}
 
-	if f.writeBuf != nil {
-		done := false
-		if _, err := f.writeOps.Update(
-			func() (config.FileConfig, error) {
-				// Exit after the first write
-				if done {
-					return config.FileConfig{}, io.EOF
-				}
-				done = true
-
-				size, err := f.writeBuf.Size()
-				if err != nil {
-					return config.FileConfig{}, err
-				}
-
-				// Some OSes like i.e. Windows don't support numeric GIDs and UIDs, so use 0 instead
-				gid := 0
-				uid := 0
-				modTime := f.info.ModTime()
-				accessTime := f.info.ModTime()
-				changeTime := f.info.ModTime()
-				sys, ok := f.info.Sys().(*Stat)
-				if ok {
-					gid = int(sys.Gid)
-					uid = int(sys.Uid)
-					accessTime = time.Unix(0, sys.Atim.Nano())
-					changeTime = time.Unix(0, sys.Ctim.Nano())
-				}
-
-				f.info = NewFileInfo(
-					f.info.Name(),
-					size,
-					f.info.Mode(),
-					modTime,
-					accessTime,
-					changeTime,
-					gid,
-					uid,
-					f.info.IsDir(),
-					f.log,
-				)
-
-				return config.FileConfig{
-					GetFile: func() (io.ReadSeekCloser, error) {
-						if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
-							return nil, err
-						}
-
-						return f.writeBuf, nil
-					},
-					Info: f.info,
-					Path: f.path,
-					Link: f.link,
-				}, nil
+	buf, cleanBuf, err := getFileBuffer()
+	if err != nil {
+		return err
+	}
+
+	if size > 0 {
+		if err := f.readOps.Restore(
+			func(path string, mode fs.FileMode) (io.WriteCloser, error) {
+				// Don't close the buffer here, we want to re-use it!
+				return ioext.AddCloseNopToWriter(buf), nil
 			},
-			f.compressionLevel,
-			true,
+			func(path string, mode fs.FileMode) error {
+				// Not necessary; can't read on a directory
+				return nil
+			},
+
+			f.path,
+			"",
 			true,
 		); err != nil {
+			_ = buf.Close()
+			_ = cleanBuf()
+
 			return err
 		}
 	}
 
+	f.buf = buf
+	f.cleanBuf = cleanBuf
+
+	return nil
+}
+
+// statWithoutLocking gets the current header of the file
+func (f *File) statWithoutLocking() (*tar.Header, error) {
+	if f.unlinked {
+		return nil, os.ErrNotExist
+	}
+
+	hdr, err := inventory.Stat(
+		f.metadata,
+
+		f.path,
+		false,
+
+		f.onHeader,
+	)
+	if err == sql.ErrNoRows {
+		return nil, os.ErrNotExist
+	}
+
+	return hdr, err
+}
+
+func (f *File) syncWithoutLocking() error {
+	f.log.Trace("File.syncWithoutLocking", map[string]interface{}{
+		"name": f.name,
+	})
+
+	if f.info.IsDir() {
+		return config.ErrIsDirectory
+	}
+
+	// There is nothing to write to if the file has been removed
+	if !f.dirty || f.unlinked {
+		return nil
+	}
+
+	if err := f.loadWithoutLocking(); err != nil {
+		return err
+	}
+
+	hdr, err := f.statWithoutLocking()
+	if err != nil {
+		return err
+	}
+
+	size, err := f.buf.Size()
+	if err != nil {
+		return err
+	}
+
+	// Use the current attributes, as they might have been changed since the file has been opened
+	hdr.Size = size
+	if hdr.ModTime.Equal(f.info.ModTime()) {
+		hdr.ModTime = f.modified
+	}
+
+	done := false
+	if _, err := f.writeOps.Update(
+		func() (config.FileConfig, error) {
+			// Exit after the first write
+			if done {
+				return config.FileConfig{}, io.EOF
+			}
+			done = true
+
+			return config.FileConfig{
+				GetFile: func() (io.ReadSeekCloser, error) {
+					if _, err := f.buf.Seek(0, io.SeekStart); err != nil {
+						return nil, err
+					}
+
+					// Don't close the buffer here, we want to re-use it!
+					return readSeekNopCloser{f.buf}, nil
+				},
+				Info: hdr.FileInfo(),
+				Path: filepath.ToSlash(hdr.Name),
+				Link: filepath.ToSlash(hdr.Linkname),
+			}, nil
+		},
+		f.compressionLevel,
+		true,
+		true,
+	); err != nil {
+		return err
+	}
+
+	f.dirty = false
+	f.info.size = size
+	f.info.modTime = hdr.ModTime
+
 	return nil
 }
 
@@ -180,109 +273,119 @@ func (f *File) closeWithoutLocking() error {
 		"name": f.name,
 	})
 
-	if f.readOpReader != nil {
-		if err := f.readOpReader.Close(); err != nil {
-			return err
-		}
+	if f.closed {
+		return os.ErrClosed
 	}
 
-	if f.readOpWriter != nil {
-		if err := f.readOpWriter.Close(); err != nil {
+	if f.dirty {
+		if err := f.syncWithoutLocking(); err != nil {
 			return err
 		}
 	}
 
-	if f.writeBuf != nil {
-		// No need to close write buffer, the `update` operation closes it itself
-		if err := f.syncWithoutLocking(); err != nil {
-			return err
-		}
+	f.closed = true
+	if f.onClose != nil {
+		f.onClose()
+	}
 
-		if err := f.cleanWriteBuf(); err != nil {
+	if f.buf != nil {
+		closeErr := f.buf.Close()
+		if err := f.cleanBuf(); err != nil {
 			return err
 		}
-	}
 
-	f.readOpReader = nil
-	f.readOpWriter = nil
-	f.writeBuf = nil
+		return closeErr
+	}
 
 	return nil
 }
 
-func (f *File) enterWriteMode() error {
-	f.log.Trace("File.enterWriteMode", map[string]interface{}{
-		"name": f.name,
-	})
+func (f *File) readAtWithoutLocking(p []byte, off int64) (n int, err error) {
+	if err := f.loadWithoutLocking(); err != nil {
+		return 0, err
+	}
 
-	if f.readOpReader != nil || f.readOpWriter != nil {
-		if err := f.closeWithoutLocking(); err != nil {
-			return err
-		}
+	if _, err := f.buf.Seek(off, io.SeekStart); err != nil {
+		return 0, err
 	}
 
-	if f.writeBuf == nil {
-		exists := false
-		existingFile, err := inventory.Stat(
-			f.metadata,
+	n, err = io.ReadFull(f.buf, p)
+	if err == io.ErrUnexpectedEOF {
+		err = io.EOF
+	}
 
-			f.path,
-			false,
+	return n, err
+}
 
-			f.onHeader,
-		)
-		if err == nil {
-			if existingFile.Size != 0 {
-				exists = true
-			}
-		} else {
-			if err != sql.ErrNoRows {
-				return err
-			}
-		}
+func (f *File) writeAtWithoutLocking(p []byte, off int64) (n int, err error) {
+	if err := f.loadWithoutLocking(); err != nil {
+		return 0, err
+	}
 
-		// Create new buffer
-		writeBuf, cleanWriteBuf, err := f.getFileBuffer()
-		if err != nil {
-			return err
-		}
+	if len(p) <= 0 {
+		return 0, nil
+	}
 
-		f.writeBuf = writeBuf
-		f.cleanWriteBuf = cleanWriteBuf
+	if _, err := f.buf.Seek(off, io.SeekStart); err != nil {
+		return 0, err
+	}
 
-		// Read existing file into buffer
-		if exists {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					// Don't close the file here, we want to re-use it!
-					return ioext.AddCloseNopToWriter(f.writeBuf), nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
+	f.dirty = true
+	f.modified = time.Now()
 
-				f.path,
-				"",
-				true,
-			); err != nil {
-				return err
-			}
-		}
+	return f.buf.Write(p)
+}
 
-		if f.flags.Truncate {
-			if err := f.writeBuf.Truncate(0); err != nil {
-				return err
-			}
-		}
+func (f *File) writeWithoutLocking(p []byte) (n int, err error) {
+	if err := f.checkWriteWithoutLocking(); err != nil {
+		return 0, err
+	}
 
-		if !f.flags.Append {
-			if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
-				return err
-			}
+	if f.flags.Append {
+		if f.cursor, err = f.sizeWithoutLocking(); err != nil {
+			return 0, err
 		}
 	}
 
+	n, err = f.writeAtWithoutLocking(p, f.cursor)
+	f.cursor += int64(n)
+
+	return n, err
+}
+
+func (f *File) sizeWithoutLocking() (int64, error) {
+	if err := f.loadWithoutLocking(); err != nil {
+		return 0, err
+	}
+
+	return f.buf.Size()
+}
+
+func (f *File) checkReadWithoutLocking() error {
+	if f.closed {
+		return os.ErrClosed
+	}
+
+	if !f.flags.Read {
+		return os.ErrPermission
+	}
+
+	return nil
+}
+
+func (f *File) checkWriteWithoutLocking() error {
+	if f.closed {
+		return os.ErrClosed
+	}
+
+	if f.info.IsDir() {
+		return config.ErrIsDirectory
+	}
+
+	if !f.flags.Write {
+		return os.ErrPermission
+	}
+
 	return nil
 }
 
@@ -293,87 +396,38 @@ func (f *File) seekWithoutLocking(offset int64, whence int) (int64, error) {
 		"whence": whence,
 	})
 
+	if f.closed {
+		return 0, os.ErrClosed
+	}
+
 	if f.info.IsDir() {
 		// Noop
 		return 0, nil
 	}
 
-	if f.writeBuf != nil {
-		return f.writeBuf.Seek(offset, whence)
-	}
-
-	dst := int64(0)
+	dst := offset
 	switch whence {
 	case io.SeekStart:
-		dst = offset
 	case io.SeekCurrent:
-		curr := 0
-		if f.readOpReader != nil {
-			curr = f.readOpReader.BytesRead
-		}
-		dst = int64(curr) + offset
+		dst += f.cursor
 	case io.SeekEnd:
-		dst = f.info.Size() - offset
-	default:
-		return -1, config.ErrNotImplemented
-	}
-
-	if f.readOpReader == nil || f.readOpWriter == nil || dst < int64(f.readOpReader.BytesRead) { // We have to re-open as we can't seek backwards
-		_ = f.closeWithoutLocking() // Ignore errors here as it might not be opened
-
-		r, writer := io.Pipe()
-		reader := &ioext.CounterReadCloser{
-			Reader:    r,
-			BytesRead: 0,
+		size, err := f.sizeWithoutLocking()
+		if err != nil {
+			return 0, err
 		}
 
-		go func() {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					return writer, nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
-
-				f.path,
-				"",
-				true,
-			); err != nil {
-				if err == io.ErrClosedPipe {
-					return
-				}
-
-				// TODO: Handle error
-				panic(err)
-			}
-		}()
-
-		f.readOpReader = reader
-		f.readOpWriter = writer
+		dst += size
+	default:
+		return 0, config.ErrNotImplemented
 	}
 
-	written, err := io.CopyN(io.Discard, f.readOpReader, dst-int64(f.readOpReader.BytesRead))
-	if err == io.EOF {
-		// Noop
-		switch whence {
-		case io.SeekStart:
-			return offset, nil
-		case io.SeekCurrent:
-			return int64(f.readOpReader.BytesRead) + offset, nil
-		case io.SeekEnd:
-			return int64(f.info.Size()) - offset, nil
-		default:
-			return -1, config.ErrNotImplemented
-		}
+	if dst < 0 {
+		return 0, os.ErrInvalid
 	}
 
-	if err != nil {
-		return -1, err
-	}
+	f.cursor = dst
 
-	return written, nil
+	return dst, nil
 }
 
 // Inventory
@@ -408,24 +462,30 @@ func (f *File) Stat() (os.FileInfo, error) {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if f.writeBuf != nil {
-		size, err := f.writeBuf.Size()
+	info := *f.info
+	if hdr, err := f.statWithoutLocking(); err == nil {
+		info = *NewFileInfoFromTarHeader(hdr, f.log)
+		info.name = f.info.name
+	} else if err != os.ErrNotExist {
+		return nil, err
+	}
+
+	if f.buf != nil {
+		size, err := f.buf.Size()
 		if err != nil {
 			return nil, err
 		}
 
-		f.info.size = size
+		info.size = size
+	} else if f.dirty {
+		info.size = 0 // The file has been truncated when it was opened
 	}
 
 	if f.link != "" {
-		info := f.info
-
 		info.name = path.Base(f.link)
-
-		return info, nil
 	}
 
-	return f.info, nil
+	return &info, nil
 }
 
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
@@ -490,70 +550,28 @@ func (f *File) Read(p []byte) (n int, err error) {
 		"p":    len(p),
 	})
 
-	if !f.flags.Read {
-		return -1, os.ErrPermission
-	}
-
-	if len(p) <= 0 {
-		return 0, nil
-	}
-
-	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
-	}
-
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if f.writeBuf != nil {
-		return f.writeBuf.Read(p)
+	if err := f.checkReadWithoutLocking(); err != nil {
+		return 0, err
 	}
 
-	if f.readOpReader == nil || f.readOpWriter == nil {
-		r, writer := io.Pipe()
-		reader := &ioext.CounterReadCloser{
-			Reader:    r,
-			BytesRead: 0,
-		}
-
-		go func() {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					return writer, nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
-
-				f.path,
-				"",
-				true,
-			); err != nil {
-				if err == io.ErrClosedPipe {
-					return
-				}
-
-				// TODO: Handle error
-				panic(err)
-			}
-		}()
-
-		f.readOpReader = reader
-		f.readOpWriter = writer
+	if len(p) <= 0 {
+		return 0, nil
 	}
 
-	w := &bytes.Buffer{}
-	_, err = io.CopyN(w, f.readOpReader, int64(len(p)))
-	if err == io.EOF {
-		return copy(p, w.Bytes()), io.EOF
+	if f.info.IsDir() {
+		return 0, config.ErrIsDirectory
 	}
 
-	if err != nil {
-		return -1, err
+	n, err = f.readAtWithoutLocking(p, f.cursor)
+	f.cursor += int64(n)
+	if n > 0 && err == io.EOF {
+		err = nil // The next read returns it
 	}
 
-	return copy(p, w.Bytes()), nil
+	return n, err
 }
 
 func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
@@ -563,8 +581,11 @@ func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
 		"off":  off,
 	})
 
-	if !f.flags.Read {
-		return -1, os.ErrPermission
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
+	if err := f.checkReadWithoutLocking(); err != nil {
+		return 0, err
 	}
 
 	if len(p) <= 0 {
@@ -572,14 +593,14 @@ func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
 	}
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
-	if _, err := f.Seek(off, io.SeekStart); err != nil {
-		return -1, err
+	if off < 0 {
+		return 0, os.ErrInvalid
 	}
 
-	return f.Read(p)
+	return f.readAtWithoutLocking(p, off)
 }
 
 // Read/write operations
@@ -603,27 +624,10 @@ func (f *File) Write(p []byte) (n int, err error) {
 		"p":    len(p),
 	})
 
-	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
-	}
-
-	if !f.flags.Write {
-		return -1, os.ErrPermission
-	}
-
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
-		return -1, err
-	}
-
-	n, err = f.writeBuf.Write(p)
-	if err != nil {
-		return -1, err
-	}
-
-	return n, nil
+	return f.writeWithoutLocking(p)
 }
 
 func (f *File) WriteAt(p []byte, off int64) (n int, err error) {
@@ -633,26 +637,18 @@ func (f *File) WriteAt(p []byte, off int64) (n int, err error) {
 		"off":  off,
 	})
 
-	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
-	}
-
-	if !f.flags.Write {
-		return -1, os.ErrPermission
-	}
-
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
-		return -1, err
+	if err := f.checkWriteWithoutLocking(); err != nil {
+		return 0, err
 	}
 
-	if _, err := f.seekWithoutLocking(off, io.SeekStart); err != nil {
-		return -1, err
+	if off < 0 {
+		return 0, os.ErrInvalid
 	}
 
-	return f.writeBuf.Write(p)
+	return f.writeAtWithoutLocking(p, off)
 }
 
 func (f *File) WriteString(s string) (ret int, err error) {
@@ -661,22 +657,10 @@ func (f *File) WriteString(s string) (ret int, err error) {
 		"s":    len(s),
 	})
 
-	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
-	}
-
-	if !f.flags.Write {
-		return -1, os.ErrPermission
-	}
-
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
-		return -1, err
-	}
-
-	return f.writeBuf.Write([]byte(s))
+	return f.writeWithoutLocking([]byte(s))
 }
 
 func (f *File) Truncate(size int64) error {
@@ -685,45 +669,25 @@ func (f *File) Truncate(size int64) error {
 		"size": size,
 	})
 
-	if f.info.IsDir() {
-		return config.ErrIsDirectory
-	}
-
-	if !f.flags.Write {
-		return os.ErrPermission
-	}
-
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
+	if err := f.checkWriteWithoutLocking(); err != nil {
 		return err
 	}
 
-	oldSize, err := f.writeBuf.Size()
-	if err != nil {
-		return err
-	}
-
-	if size > oldSize {
-		if err := f.writeBuf.Truncate(0); err != nil {
-			return err
-		}
-
-		for i := int64(0); i < size; i++ {
-			if _, err := f.writeBuf.Write(make([]byte, 1)); err != nil {
-				return err
-			}
-		}
-
-		return nil
+	if size < 0 {
+		return os.ErrInvalid
 	}
 
-	if err := f.writeBuf.Truncate(size); err != nil {
+	if err := f.loadWithoutLocking(); err != nil {
 		return err
 	}
 
-	return nil
+	f.dirty = true
+	f.modified = time.Now()
+
+	return f.buf.Truncate(size)
 }
 
 // Cleanup operations
diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 33a2bea..17eb6cb 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -38,7 +38,8 @@ type STFS struct {
 	readOnly                 bool
 	writePermImpliesReadPerm bool
 
-	ioLock sync.Mutex
+	ioLock    sync.Mutex
+	openFiles map[*File]struct{}
 
 	onHeader func(hdr *config.Header)
 	log      logging.StructuredLogger
@@ -69,6 +70,8 @@ func NewSTFS(
 		readOnly:                 readOnly,
 		writePermImpliesReadPerm: writePermImpliesReadPerm,
 
+		openFiles: map[*File]struct{}{},
+
 		onHeader: onHeader,
 		log:      log,
 	}
@@ -526,6 +529,10 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 					return nil, err
 				}
 			} else {
+				if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
+					return nil, os.ErrExist
+				}
+
 				linkname := hdr.Name
 
 				hdr, err = inventory.Stat(
@@ -574,7 +581,12 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		return nil, config.ErrIsDirectory
 	}
 
-	return NewFile(
+	// Truncating requires being able to write
+	if !flags.Write {
+		flags.Truncate = false
+	}
+
+	file := NewFile(
 		f.readOps,
 		f.writeOps,
 
@@ -593,7 +605,36 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 		f.onHeader,
 		f.log,
-	), nil
+	)
+
+	if flags.Truncate && hdr.Size > 0 {
+		file.dirty = true
+		file.modified = time.Now()
+	}
+
+	f.openFiles[file] = struct{}{}
+	file.onClose = func() {
+		delete(f.openFiles, file)
+	}
+
+	return file, nil
+}
+
+// moveOpenFiles makes open files follow the move of an entry; if there is no new name, the entry has been removed
+func (f *STFS) moveOpenFiles(oldname, newname string) {
+	from := path.Join("/", filepath.ToSlash(oldname))
+	for file := range f.openFiles {
+		current := path.Join("/", file.path)
+		if current != from && !strings.HasPrefix(current, strings.TrimSuffix(from, "/")+"/") {
+			continue
+		}
+
+		if newname == "" {
+			file.unlinked = true
+		} else {
+			file.path = path.Join(filepath.ToSlash(newname), strings.TrimPrefix(current, from))
+		}
+	}
 }
 
 func (f *STFS) Remove(name string) error {
@@ -670,7 +711,15 @@ func (f *STFS) removeWithoutLocking(name string) error {
 		}
 	}
 
-	return f.writeOps.Delete(name)
+	if err := f.writeOps.Delete(name); err != nil {
+		return err
+	}
+
+	if hdr.Linkname == "" {
+		f.moveOpenFiles(name, "")
+	}
+
+	return nil
 }
 
 func (f *STFS) RemoveAll(path string) error {
@@ -687,12 +736,17 @@ func (f *STFS) RemoveAll(path string) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	err := f.writeOps.Delete(path)
-	if errors.Is(err, sql.ErrNoRows) {
-		return nil
+	if err := f.writeOps.Delete(path); err != nil {
+		if errors.Is(err, sql.ErrNoRows) {
+			return nil
+		}
+
+		return err
 	}
 
-	return err
+	f.moveOpenFiles(path, "")
+
+	return nil
 }
 
 func (f *STFS) Rename(oldname, newname string) error {
@@ -816,7 +870,16 @@ func (f *STFS) Rename(oldname, newname string) error {
 		}
 	}
 
-	return f.writeOps.Move(oldname, newname)
+	if err := f.writeOps.Move(oldname, newname); err != nil {
+		return err
+	}
+
+	if source.Linkname == "" {
+		f.moveOpenFiles(newname, "")
+		f.moveOpenFiles(oldname, newname)
+	}
+
+	return nil
 }
 
 func (f *STFS) Stat(name string) (os.FileInfo, error) {
-- 
2.43.0


From 70b6da4c813b59a7a993a52437ba8ff1e1817281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 16/49] fix: complete a torn tail before appending to it, don't
 leave torn records behind and index exactly what has been written

---
 pkg/operations/archive.go    |  75 +++---------
 pkg/operations/delete.go     |  66 ++---------
 pkg/operations/move.go       |  66 ++---------
 pkg/operations/operations.go | 181 ++++++++++++++++++++++++++++
 pkg/operations/update.go     |  61 ++--------
 pkg/recovery/index.go        | 224 ++++++++++++++++++++---------------
 6 files changed, 357 insertions(+), 316 deletions(-)

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index faee076..f71d404 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -16,7 +16,6 @@ import (
 	"github.com/pojntfx/stfs/pkg/compression"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/pojntfx/stfs/pkg/encryption"
-	"github.com/pojntfx/stfs/pkg/recovery"
 	"github.com/pojntfx/stfs/pkg/signature"
 )
 
@@ -43,7 +42,17 @@ func (o *Operations) archive(
 	initializing bool,
 ) ([]*tar.Header, error) {
 
-	writer, err := o.backend.GetWriter()
+	lastIndexedRecord := int64(0)
+	lastIndexedBlock := int64(0)
+	var err error
+	if !overwrite {
+		lastIndexedRecord, lastIndexedBlock, err = o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+		if err != nil {
+			return []*tar.Header{}, err
+		}
+	}
+
+	writer, start, abort, err := o.getWriter(lastIndexedRecord, lastIndexedBlock, overwrite)
 	if err != nil {
 		return []*tar.Header{}, err
 	}
@@ -52,6 +61,7 @@ func (o *Operations) archive(
 	writing := true
 	defer func() {
 		if writing {
+			abort()
 			_ = o.backend.CloseWriter()
 		}
 	}()
@@ -62,15 +72,6 @@ func (o *Operations) archive(
 		return []*tar.Header{}, err
 	}
 
-	lastIndexedRecord := int64(0)
-	lastIndexedBlock := int64(0)
-	if !overwrite {
-		lastIndexedRecord, lastIndexedBlock, err = o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
-		if err != nil {
-			return []*tar.Header{}, err
-		}
-	}
-
 	hdrs := []*tar.Header{}
 	var writeErr error // Something that went wrong in between two files; the files before it are still indexed
 	for {
@@ -302,60 +303,12 @@ func (o *Operations) archive(
 		return []*tar.Header{}, err
 	}
 
-	index := 1 // Ignore the first header, which is the last header which we already indexed
-	if overwrite {
-		index = 0 // If we are starting fresh, index from start
-	}
-
 	writing = false
-	if err := o.backend.CloseWriter(); err != nil {
-		return []*tar.Header{}, err
-	}
-
-	reader, err := o.backend.GetReader()
-	if err != nil {
+	if err := o.closeWriter(start, hdrs, overwrite); err != nil {
 		return []*tar.Header{}, err
 	}
-	defer o.backend.CloseReader()
-
-	if err := recovery.Index(
-		reader,
-		o.backend.MagneticTapeIO,
-		o.metadata,
-		o.pipes,
-		o.crypto,
-
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
-		overwrite,
-		initializing,
-		index,
-
-		func(hdr *tar.Header, i int) error {
-			if len(hdrs) <= i {
-				return config.ErrTarHeaderMissing
-			}
-
-			*hdr = *hdrs[i]
-
-			return nil
-		},
-		func(hdr *tar.Header, isRegular bool) error {
-			return nil // We sign above, no need to verify
-		},
-
-		func(hdr *config.Header) {
-			if o.onHeader == nil {
-				return
-			}
 
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeArchive,
-				Indexed: true,
-				Header:  hdr,
-			})
-		},
-	); err != nil {
+	if err := o.indexWritten(lastIndexedRecord, lastIndexedBlock, overwrite, initializing, config.HeaderEventTypeArchive); err != nil {
 		return hdrs, err
 	}
 
diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index 6791e45..f8f037c 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -10,7 +10,6 @@ import (
 	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/pojntfx/stfs/pkg/encryption"
-	"github.com/pojntfx/stfs/pkg/recovery"
 	"github.com/pojntfx/stfs/pkg/signature"
 )
 
@@ -20,7 +19,12 @@ func (o *Operations) Delete(name string) error {
 	o.diskOperationLock.Lock()
 	defer o.diskOperationLock.Unlock()
 
-	writer, err := o.backend.GetWriter()
+	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+	if err != nil {
+		return err
+	}
+
+	writer, start, abort, err := o.getWriter(lastIndexedRecord, lastIndexedBlock, false)
 	if err != nil {
 		return err
 	}
@@ -29,6 +33,7 @@ func (o *Operations) Delete(name string) error {
 	writing := true
 	defer func() {
 		if writing {
+			abort()
 			_ = o.backend.CloseWriter()
 		}
 	}()
@@ -39,11 +44,6 @@ func (o *Operations) Delete(name string) error {
 		return err
 	}
 
-	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
-	if err != nil {
-		return err
-	}
-
 	headersToDelete := []*config.Header{}
 	dbhdr, err := o.getHeader(name)
 	if err != nil {
@@ -62,7 +62,7 @@ func (o *Operations) Delete(name string) error {
 	}
 
 	// Append deletion hdrs to the tape or tar file
-	hdrs := []tar.Header{}
+	hdrs := []*tar.Header{}
 	for _, dbhdr := range headersToDelete {
 		hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
 		if err != nil {
@@ -73,7 +73,8 @@ func (o *Operations) Delete(name string) error {
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionDelete
 
-		hdrs = append(hdrs, *hdr)
+		hdrToAppend := *hdr
+		hdrs = append(hdrs, &hdrToAppend)
 
 		if o.onHeader != nil {
 			dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
@@ -108,52 +109,9 @@ func (o *Operations) Delete(name string) error {
 	}
 
 	writing = false
-	if err := o.backend.CloseWriter(); err != nil {
-		return err
-	}
-
-	reader, err := o.backend.GetReader()
-	if err != nil {
+	if err := o.closeWriter(start, hdrs, false); err != nil {
 		return err
 	}
-	defer o.backend.CloseReader()
-
-	return recovery.Index(
-		reader,
-		o.backend.MagneticTapeIO,
-		o.metadata,
-		o.pipes,
-		o.crypto,
-
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
-		false,
-		false,
-		1, // Ignore the first header, which is the last header which we already indexed
-
-		func(hdr *tar.Header, i int) error {
-			if len(hdrs) <= i {
-				return config.ErrTarHeaderMissing
-			}
-
-			*hdr = hdrs[i]
-
-			return nil
-		},
-		func(hdr *tar.Header, isRegular bool) error {
-			return nil // We sign above, no need to verify
-		},
 
-		func(hdr *config.Header) {
-			if o.onHeader == nil {
-				return
-			}
-
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeDelete,
-				Indexed: true,
-				Header:  hdr,
-			})
-		},
-	)
+	return o.indexWritten(lastIndexedRecord, lastIndexedBlock, false, false, config.HeaderEventTypeDelete)
 }
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 8c98333..a73bc29 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -12,7 +12,6 @@ import (
 	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/pojntfx/stfs/pkg/encryption"
-	"github.com/pojntfx/stfs/pkg/recovery"
 	"github.com/pojntfx/stfs/pkg/signature"
 )
 
@@ -27,7 +26,12 @@ func (o *Operations) Move(from string, to string) error {
 	o.diskOperationLock.Lock()
 	defer o.diskOperationLock.Unlock()
 
-	writer, err := o.backend.GetWriter()
+	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+	if err != nil {
+		return err
+	}
+
+	writer, start, abort, err := o.getWriter(lastIndexedRecord, lastIndexedBlock, false)
 	if err != nil {
 		return err
 	}
@@ -36,6 +40,7 @@ func (o *Operations) Move(from string, to string) error {
 	writing := true
 	defer func() {
 		if writing {
+			abort()
 			_ = o.backend.CloseWriter()
 		}
 	}()
@@ -46,11 +51,6 @@ func (o *Operations) Move(from string, to string) error {
 		return err
 	}
 
-	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
-	if err != nil {
-		return err
-	}
-
 	headersToMove := []*config.Header{}
 	dbhdr, err := o.getHeader(from)
 	if err != nil {
@@ -84,7 +84,7 @@ func (o *Operations) Move(from string, to string) error {
 	}
 
 	// Append move headers to the tape or tar file
-	hdrs := []tar.Header{}
+	hdrs := []*tar.Header{}
 	for _, dbhdr := range headersToMove {
 		hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
 		if err != nil {
@@ -117,7 +117,8 @@ func (o *Operations) Move(from string, to string) error {
 		}
 
 		for _, hdr := range hdrsToAppend {
-			hdrs = append(hdrs, *hdr)
+			hdrToAppend := *hdr
+			hdrs = append(hdrs, &hdrToAppend)
 
 			if o.onHeader != nil {
 				dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
@@ -153,52 +154,9 @@ func (o *Operations) Move(from string, to string) error {
 	}
 
 	writing = false
-	if err := o.backend.CloseWriter(); err != nil {
+	if err := o.closeWriter(start, hdrs, false); err != nil {
 		return err
 	}
 
-	reader, err := o.backend.GetReader()
-	if err != nil {
-		return err
-	}
-	defer o.backend.CloseReader()
-
-	return recovery.Index(
-		reader,
-		o.backend.MagneticTapeIO,
-		o.metadata,
-		o.pipes,
-		o.crypto,
-
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
-		false,
-		false,
-		1, // Ignore the first header, which is the last header which we already indexed
-
-		func(hdr *tar.Header, i int) error {
-			if len(hdrs) <= i {
-				return config.ErrTarHeaderMissing
-			}
-
-			*hdr = hdrs[i]
-
-			return nil
-		},
-		func(hdr *tar.Header, isRegular bool) error {
-			return nil // We sign above, no need to verify
-		},
-
-		func(hdr *config.Header) {
-			if o.onHeader == nil {
-				return
-			}
-
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeMove,
-				Indexed: true,
-				Header:  hdr,
-			})
-		},
-	)
+	return o.indexWritten(lastIndexedRecord, lastIndexedBlock, false, false, config.HeaderEventTypeMove)
 }
diff --git a/pkg/operations/operations.go b/pkg/operations/operations.go
index 3d1b041..862503c 100644
--- a/pkg/operations/operations.go
+++ b/pkg/operations/operations.go
@@ -1,12 +1,16 @@
 package operations
 
 import (
+	"archive/tar"
 	"context"
 	"database/sql"
+	"io"
+	"os"
 	"strings"
 	"sync"
 
 	"github.com/pojntfx/stfs/pkg/config"
+	"github.com/pojntfx/stfs/pkg/recovery"
 )
 
 type Operations struct {
@@ -19,6 +23,30 @@ type Operations struct {
 	onHeader func(event *config.HeaderEvent)
 
 	diskOperationLock sync.Mutex
+
+	// Headers which have been written but not been indexed yet, and where they start
+	unindexed     []*tar.Header
+	unindexedFrom int64
+
+	tailIsComplete bool
+}
+
+// tailWriter completes what is at the end of the drive before appending to it
+type tailWriter struct {
+	io.Writer
+	padding int64
+}
+
+func (w *tailWriter) Write(p []byte) (n int, err error) {
+	if w.padding > 0 {
+		if _, err := w.Writer.Write(make([]byte, w.padding)); err != nil {
+			return 0, err
+		}
+
+		w.padding = 0
+	}
+
+	return w.Writer.Write(p)
 }
 
 func NewOperations(
@@ -57,6 +85,159 @@ func (o *Operations) GetCrypto() config.CryptoConfig {
 	return o.crypto
 }
 
+// getWriter opens the drive for writing and returns where what will be written to it starts (or -1 if this is unknown)
+func (o *Operations) getWriter(lastIndexedRecord, lastIndexedBlock int64, overwrite bool) (writer config.DriveWriterConfig, start int64, abort func(), err error) {
+	end := int64(0)
+	if !overwrite && !o.tailIsComplete {
+		// If there is nothing to read from yet, then there is no tail
+		if reader, err := o.backend.GetReader(); err == nil {
+			if reader.DriveIsRegular {
+				end, err = recovery.FindEnd(reader, o.pipes, int(lastIndexedRecord), int(lastIndexedBlock))
+			}
+
+			if closeErr := o.backend.CloseReader(); err == nil {
+				err = closeErr
+			}
+
+			if err != nil {
+				return config.DriveWriterConfig{}, -1, nil, err
+			}
+		}
+	}
+
+	writer, err = o.backend.GetWriter()
+	if err != nil {
+		return config.DriveWriterConfig{}, -1, nil, err
+	}
+
+	abort = func() {
+		o.tailIsComplete = false
+	}
+
+	drive, ok := writer.Drive.(interface {
+		Stat() (os.FileInfo, error)
+		Truncate(size int64) error
+	})
+	if !ok || !writer.DriveIsRegular {
+		return writer, -1, abort, nil
+	}
+
+	info, err := drive.Stat()
+	if err != nil {
+		_ = o.backend.CloseWriter()
+
+		return config.DriveWriterConfig{}, -1, nil, err
+	}
+	size := info.Size()
+
+	if end < size {
+		end = size
+	}
+	start = (end + config.MagneticTapeBlockSize - 1) / config.MagneticTapeBlockSize * config.MagneticTapeBlockSize
+
+	writer.Drive = &tailWriter{
+		Writer:  writer.Drive,
+		padding: start - size,
+	}
+
+	return writer, start, func() {
+		o.tailIsComplete = false
+
+		// Don't leave a torn record behind
+		if info, err := drive.Stat(); err == nil && info.Size() > size {
+			_ = drive.Truncate(size)
+		}
+	}, nil
+}
+
+// closeWriter closes the drive after everything has been written to it; the headers are then waiting to be indexed
+func (o *Operations) closeWriter(start int64, hdrs []*tar.Header, overwrite bool) error {
+	if overwrite {
+		o.unindexed = nil
+	}
+
+	if len(o.unindexed) == 0 {
+		o.unindexedFrom = start
+	}
+	o.unindexed = append(o.unindexed, hdrs...)
+
+	err := o.backend.CloseWriter()
+	o.tailIsComplete = err == nil
+
+	return err
+}
+
+// indexWritten indexes what has been written, but not been indexed yet
+func (o *Operations) indexWritten(
+	lastIndexedRecord int64,
+	lastIndexedBlock int64,
+
+	overwrite bool,
+	initializing bool,
+
+	eventType string,
+) error {
+	offset := 1 // Ignore the first header, which is the last header which we already indexed
+	if overwrite {
+		offset = 0 // If we are starting fresh, index from start
+	} else if o.unindexedFrom >= 0 {
+		offset = 0
+		lastIndexedRecord = o.unindexedFrom / config.MagneticTapeBlockSize / int64(o.pipes.RecordSize)
+		lastIndexedBlock = o.unindexedFrom/config.MagneticTapeBlockSize - lastIndexedRecord*int64(o.pipes.RecordSize)
+	}
+
+	reader, err := o.backend.GetReader()
+	if err != nil {
+		return err
+	}
+	defer o.backend.CloseReader()
+
+	if err := recovery.Index(
+		reader,
+		o.backend.MagneticTapeIO,
+		o.metadata,
+		o.pipes,
+		o.crypto,
+
+		int(lastIndexedRecord),
+		int(lastIndexedBlock),
+		overwrite,
+		initializing,
+		offset,
+
+		func(hdr *tar.Header, i int) error {
+			if len(o.unindexed) <= i {
+				return config.ErrTarHeaderMissing
+			}
+
+			*hdr = *o.unindexed[i]
+
+			return nil
+		},
+		func(hdr *tar.Header, isRegular bool) error {
+			return nil // We signed them, no need to verify
+		},
+
+		func(hdr *config.Header) {
+			if o.onHeader == nil {
+				return
+			}
+
+			o.onHeader(&config.HeaderEvent{
+				Type:    eventType,
+				Indexed: true,
+				Header:  hdr,
+			})
+		},
+	); err != nil {
+		return err
+	}
+
+	o.unindexed = nil
+
+	return nil
+}
+
 // getHeader gets the header, or, if there is none, the link with the name
 func (o *Operations) getHeader(name string) (*config.Header, error) {
 	// Directories in archives which were not written by STFS might have a trailing slash
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index cf9de48..19d3736 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -15,7 +15,6 @@ import (
 	"github.com/pojntfx/stfs/pkg/compression"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/pojntfx/stfs/pkg/encryption"
-	"github.com/pojntfx/stfs/pkg/recovery"
 	"github.com/pojntfx/stfs/pkg/signature"
 )
 
@@ -28,7 +27,12 @@ func (o *Operations) Update(
 	o.diskOperationLock.Lock()
 	defer o.diskOperationLock.Unlock()
 
-	writer, err := o.backend.GetWriter()
+	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+	if err != nil {
+		return []*tar.Header{}, err
+	}
+
+	writer, start, abort, err := o.getWriter(lastIndexedRecord, lastIndexedBlock, false)
 	if err != nil {
 		return []*tar.Header{}, err
 	}
@@ -37,6 +41,7 @@ func (o *Operations) Update(
 	writing := true
 	defer func() {
 		if writing {
+			abort()
 			_ = o.backend.CloseWriter()
 		}
 	}()
@@ -47,11 +52,6 @@ func (o *Operations) Update(
 		return []*tar.Header{}, err
 	}
 
-	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
-	if err != nil {
-		return []*tar.Header{}, err
-	}
-
 	hdrs := []*tar.Header{}
 	var writeErr error // Something that went wrong in between two files; the files before it are still indexed
 	for {
@@ -319,54 +319,11 @@ func (o *Operations) Update(
 	}
 
 	writing = false
-	if err := o.backend.CloseWriter(); err != nil {
+	if err := o.closeWriter(start, hdrs, false); err != nil {
 		return []*tar.Header{}, err
 	}
 
-	reader, err := o.backend.GetReader()
-	if err != nil {
-		return []*tar.Header{}, err
-	}
-	defer o.backend.CloseReader()
-
-	if err := recovery.Index(
-		reader,
-		o.backend.MagneticTapeIO,
-		o.metadata,
-		o.pipes,
-		o.crypto,
-
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
-		false,
-		false,
-		1, // Ignore the first header, which is the last header which we already indexed
-
-		func(hdr *tar.Header, i int) error {
-			if len(hdrs) <= i {
-				return config.ErrTarHeaderMissing
-			}
-
-			*hdr = *hdrs[i]
-
-			return nil
-		},
-		func(hdr *tar.Header, isRegular bool) error {
-			return nil // We sign above, no need to verify
-		},
-
-		func(hdr *config.Header) {
-			if o.onHeader == nil {
-				return
-			}
-
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeUpdate,
-				Indexed: true,
-				Header:  hdr,
-			})
-		},
-	); err != nil {
+	if err := o.indexWritten(lastIndexedRecord, lastIndexedBlock, false, false, config.HeaderEventTypeUpdate); err != nil {
 		return hdrs, err
 	}
 
diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index 580ae26..0c6153a 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -49,110 +49,23 @@ func Index(
 	}
 
 	if reader.DriveIsRegular {
-		// Seek to record and block
-		if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*record)+block*config.MagneticTapeBlockSize), 0); err != nil {
-			return err
-		}
-
-		tr := tar.NewReader(reader.Drive)
-
-		record := int64(record)
-		block := int64(block)
-		i := 0
-
-		for {
-			hdr, err := tr.Next()
-			if err != nil {
-				if !isResyncable(err) {
-					return err
-				}
-
-				// Find the next header; this skips over trailers, so that appending to a tar file created by i.e. GNU tar is possible, and over records which were torn or damaged
-				start := (record*int64(pipes.RecordSize) + block) * config.MagneticTapeBlockSize
-				if err != io.EOF {
-					start += config.MagneticTapeBlockSize // Don't try to read the damaged header again
-				}
-
-				hdr = nil
-				for {
-					start, err = skipZeroBlocks(reader.Drive, start)
-					if err != nil {
-						if err == io.EOF || err == io.ErrUnexpectedEOF {
-							// EOF
-							break
-						}
-
-						return err
-					}
-
-					tr = tar.NewReader(reader.Drive)
-
-					hdr, err = tr.Next()
-					if err == nil {
-						break
-					}
-
-					if !isResyncable(err) {
-						return err
-					}
-
-					hdr = nil
-					start += config.MagneticTapeBlockSize
-				}
-
-				if hdr == nil {
-					// EOF
-					break
-				}
-
-				record = start / config.MagneticTapeBlockSize / int64(pipes.RecordSize)
-				block = start/config.MagneticTapeBlockSize - record*int64(pipes.RecordSize)
-			}
-
-			if i >= offset {
-				if err := decryptHeader(hdr, i-offset); err != nil {
-					return err
-				}
-
-				if err := verifyHeader(hdr, reader.DriveIsRegular); err != nil {
-					return err
-				}
-
-				if err := indexHeader(record, block, hdr, metadata.Metadata, pipes.Compression, pipes.Encryption, initializing, onHeader); err != nil {
-					return err
-				}
-			}
-
-			curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-			if err != nil {
-				return err
+		_, err := scan(reader.Drive, pipes, record, block, func(record, block int64, hdr *tar.Header, i int) error {
+			if i < offset {
+				return nil
 			}
 
-			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
-				if err == io.ErrUnexpectedEOF {
-					// The content of the last record has been torn, so there is nothing after it
-					break
-				}
-
+			if err := decryptHeader(hdr, i-offset); err != nil {
 				return err
 			}
 
-			currAndSize, err := reader.Drive.Seek(0, io.SeekCurrent)
-			if err != nil {
+			if err := verifyHeader(hdr, reader.DriveIsRegular); err != nil {
 				return err
 			}
 
-			nextTotalBlocks := math.Ceil(float64(curr+(currAndSize-curr)) / float64(config.MagneticTapeBlockSize))
-			record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-			block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-			if block > int64(pipes.RecordSize) {
-				record++
-				block = 0
-			}
+			return indexHeader(record, block, hdr, metadata.Metadata, pipes.Compression, pipes.Encryption, initializing, onHeader)
+		})
 
-			i++
-		}
+		return err
 	} else {
 		// Seek to record
 		if err := mt.SeekToRecordOnTape(reader.Drive.Fd(), int32(record)); err != nil {
@@ -245,6 +158,127 @@ func Index(
 	return nil
 }
 
+// FindEnd returns where the last record, including its content, ends if it is complete
+func FindEnd(
+	reader config.DriveReaderConfig,
+	pipes config.PipeConfig,
+
+	record int,
+	block int,
+) (int64, error) {
+	return scan(reader.Drive, pipes, record, block, func(record, block int64, hdr *tar.Header, i int) error {
+		return nil
+	})
+}
+
+// scan calls `onRecord` for each record on a regular drive and returns where the last record, including its content, ends if it is complete
+func scan(
+	drive io.ReadSeeker,
+	pipes config.PipeConfig,
+
+	startRecord int,
+	startBlock int,
+
+	onRecord func(record, block int64, hdr *tar.Header, i int) error,
+) (end int64, err error) {
+	// Seek to record and block
+	if _, err := drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*startRecord)+startBlock*config.MagneticTapeBlockSize), io.SeekStart); err != nil {
+		return 0, err
+	}
+
+	tr := tar.NewReader(drive)
+
+	record := int64(startRecord)
+	block := int64(startBlock)
+	i := 0
+
+	for {
+		hdr, err := tr.Next()
+		if err != nil {
+			if !isResyncable(err) {
+				return 0, err
+			}
+
+			// Find the next header; this skips over trailers, so that appending to a tar file created by i.e. GNU tar is possible, and over records which were torn or damaged
+			start := (record*int64(pipes.RecordSize) + block) * config.MagneticTapeBlockSize
+			if err != io.EOF {
+				start += config.MagneticTapeBlockSize // Don't try to read the damaged header again
+			}
+
+			hdr = nil
+			for {
+				start, err = skipZeroBlocks(drive, start)
+				if err != nil {
+					if err == io.EOF || err == io.ErrUnexpectedEOF {
+						// EOF
+						break
+					}
+
+					return 0, err
+				}
+
+				tr = tar.NewReader(drive)
+
+				hdr, err = tr.Next()
+				if err == nil {
+					break
+				}
+
+				if !isResyncable(err) {
+					return 0, err
+				}
+
+				hdr = nil
+				start += config.MagneticTapeBlockSize
+			}
+
+			if hdr == nil {
+				// EOF
+				return end, nil
+			}
+
+			record = start / config.MagneticTapeBlockSize / int64(pipes.RecordSize)
+			block = start/config.MagneticTapeBlockSize - record*int64(pipes.RecordSize)
+		}
+
+		size := hdr.Size // `onRecord` might change the header
+		if err := onRecord(record, block, hdr, i); err != nil {
+			return 0, err
+		}
+
+		curr, err := drive.Seek(0, io.SeekCurrent)
+		if err != nil {
+			return 0, err
+		}
+
+		if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+			if err == io.ErrUnexpectedEOF {
+				// The content of the last record has been torn, so there is nothing after it
+				return curr + size, nil
+			}
+
+			return 0, err
+		}
+
+		currAndSize, err := drive.Seek(0, io.SeekCurrent)
+		if err != nil {
+			return 0, err
+		}
+		end = currAndSize
+
+		nextTotalBlocks := math.Ceil(float64(curr+(currAndSize-curr)) / float64(config.MagneticTapeBlockSize))
+		record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
+		block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
+
+		if block > int64(pipes.RecordSize) {
+			record++
+			block = 0
+		}
+
+		i++
+	}
+}
+
 // isResyncable returns true if it might be possible to find another header after getting this error while reading one
 func isResyncable(err error) bool {
 	return err == io.EOF || err == io.ErrUnexpectedEOF || err == tar.ErrHeader || err == tar.ErrFieldTooLong
-- 
2.43.0


From 30a43cdf017fbc56326f7f67e6758d8f746ddada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 17/49] fix: refuse to update the metadata of entries which do
 not exist and keep the size of their content

---
 pkg/operations/update.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 19d3736..65d623c 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -275,6 +275,19 @@ func (o *Operations) Update(
 				return []*tar.Header{}, err
 			}
 		} else {
+			// There has to be something to update
+			dbhdr, err := o.getHeader(hdr.Name)
+			if err != nil {
+				writeErr = err
+
+				break
+			}
+
+			// The content stays the same, and so does its size
+			if dbhdr.Size > 0 {
+				hdr.PAXRecords[records.STFSRecordUncompressedSize] = strconv.Itoa(int(dbhdr.Size))
+			}
+
 			hdr.PAXRecords[records.STFSRecordReplacesContent] = records.STFSRecordReplacesContentFalse
 			hdr.Size = 0 // Don't try to seek after the record
 
-- 
2.43.0


From 607ea9dde57bc68d4d2439b3789b07e08cf54927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 18/49] fix: don't restore content for entries which have none

---
 pkg/recovery/fetch.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index 1ae1c15..d0061ff 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -93,13 +93,10 @@ func Fetch(
 			return err
 		}
 
-		// Don't decompress non-regular files
-		if !hdr.FileInfo().Mode().IsRegular() {
-			if _, err := io.Copy(dstFile, tr); err != nil {
-				return err
-			}
-
-			return nil
+		// Only regular files have content, and empty ones might have been written without passing them through the pipes
+		_, encoded := hdr.PAXRecords[records.STFSRecordUncompressedSize]
+		if !hdr.FileInfo().Mode().IsRegular() || (hdr.Size <= 0 && !encoded) {
+			return dstFile.Close()
 		}
 
 		decryptor, err := encryption.Decrypt(tr, pipes.Encryption, crypto.Identity)
-- 
2.43.0


From c3c938b6b7391ae7187b9d5244c8ea7cc6d23c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 19/49] fix: reject records with missing, malformed or
 non-signature PGP signatures

---
 pkg/signature/verify.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/signature/verify.go b/pkg/signature/verify.go
index 02adde6..2b6acdd 100644
--- a/pkg/signature/verify.go
+++ b/pkg/signature/verify.go
@@ -68,7 +68,7 @@ func Verify(
 		}
 
 		sig, ok := pkt.(*packet.Signature)
-		if !ok {
+		if !ok || !sig.Hash.Available() {
 			return nil, nil, config.ErrSignatureInvalid
 		}
 
@@ -157,27 +157,27 @@ func VerifyString(
 	case config.SignatureFormatPGPKey:
 		recipients, ok := recipient.(openpgp.EntityList)
 		if !ok {
-			return nil
+			return config.ErrRecipientUnparsable
 		}
 
 		if len(recipients) < 1 {
-			return nil
+			return config.ErrRecipientUnparsable
 		}
 
 		decodedSignature, err := base64.StdEncoding.DecodeString(signature)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		reader := packet.NewReader(bytes.NewBuffer(decodedSignature))
 		pkt, err := reader.Next()
 		if err != nil {
-			return nil
+			return err
 		}
 
 		sig, ok := pkt.(*packet.Signature)
-		if !ok {
-			return nil
+		if !ok || !sig.Hash.Available() {
+			return config.ErrSignatureInvalid
 		}
 
 		hash := sig.Hash.New()
-- 
2.43.0


From 7a85207715a448d8d58b1e14d6fbdfbcda8951bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 20/49] fix: decrypt PGP identities with empty passwords too

---
 pkg/keys/identity.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pkg/keys/identity.go b/pkg/keys/identity.go
index 116a022..464f25b 100644
--- a/pkg/keys/identity.go
+++ b/pkg/keys/identity.go
@@ -43,21 +43,24 @@ func ParseIdentity(
 			return nil, err
 		}
 
-		if password != "" {
-			for _, identity := range identities {
-				if identity.PrivateKey == nil {
+		// Keys which have been generated with an empty password are encrypted too
+		for _, identity := range identities {
+			if identity.PrivateKey == nil {
+				return nil, config.ErrIdentityUnparsable
+			}
+
+			if err := identity.PrivateKey.Decrypt([]byte(password)); err != nil {
+				return nil, err
+			}
+
+			for _, subkey := range identity.Subkeys {
+				if subkey.PrivateKey == nil {
 					return nil, config.ErrIdentityUnparsable
 				}
 
-				if err := identity.PrivateKey.Decrypt([]byte(password)); err != nil {
+				if err := subkey.PrivateKey.Decrypt([]byte(password)); err != nil {
 					return nil, err
 				}
-
-				for _, subkey := range identity.Subkeys {
-					if err := subkey.PrivateKey.Decrypt([]byte(password)); err != nil {
-						return nil, err
-					}
-				}
 			}
 		}
 
-- 
2.43.0


From 04053cb2555a21411d747eb134d3c4a77a8a6e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 21/49] fix: never overwrite a tape which can't be indexed, and
 catch up with the tape when initializing with an existing index

---
 pkg/fs/filesystem.go | 141 +++++++++++++++++++++++++++++--------------
 1 file changed, 96 insertions(+), 45 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 17eb6cb..77d730b 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -226,65 +226,116 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 	defer f.ioLock.Unlock()
 
 	existingRoot, err := f.metadata.Metadata.GetRootPath(context.Background())
-	if err == config.ErrNoRootDirectory {
-		mkdirRoot := func() (string, error) {
-			if err := f.readOps.GetBackend().CloseReader(); err != nil {
-				return "", err
-			}
-
-			if f.readOnly {
-				return "", os.ErrPermission
-			}
+	if err != nil && err != config.ErrNoRootDirectory {
+		return "", err
+	}
 
-			if err := f.mknodeWithoutLocking(true, rootProposal, rootPerm, true, "", true); err != nil {
-				return "", err
-			}
+	if err == nil {
+		if f.readOnly {
+			return existingRoot, nil
+		}
 
-			// Ensure that the new root path is being used
-			return f.metadata.Metadata.GetRootPath(context.Background())
+		// The tape might have been written to (or have been cut off) since it was last indexed
+		if err := f.updateIndex(); err != nil && !os.IsNotExist(err) {
+			return "", err
 		}
 
-		reader, err := f.readOps.GetBackend().GetReader()
-		if err != nil {
-			return mkdirRoot()
+		return f.metadata.Metadata.GetRootPath(context.Background())
+	}
+
+	tapeIsEmpty := true
+	if err := f.index(0, 0, true, func(hdr *config.Header) {
+		tapeIsEmpty = false
+
+		if f.onHeader != nil {
+			f.onHeader(hdr)
 		}
+	}); err != nil && !os.IsNotExist(err) {
+		// There is a tape, but it can't be indexed; don't write to it
+		return "", err
+	}
 
-		if err := recovery.Index(
-			reader,
-			f.readOps.GetBackend().MagneticTapeIO,
-			f.readOps.GetMetadata(),
-			f.readOps.GetPipes(),
-			f.readOps.GetCrypto(),
+	existingRoot, err = f.metadata.Metadata.GetRootPath(context.Background())
+	if err != config.ErrNoRootDirectory {
+		return existingRoot, err
+	}
 
-			0,
-			0,
-			true,
-			false,
-			0,
+	if f.readOnly {
+		return "", os.ErrPermission
+	}
 
-			func(hdr *tar.Header, i int) error {
-				return encryption.DecryptHeader(hdr, f.readOps.GetPipes().Encryption, f.readOps.GetCrypto().Identity)
-			},
-			func(hdr *tar.Header, isRegular bool) error {
-				return signature.VerifyHeader(hdr, isRegular, f.readOps.GetPipes().Signature, f.readOps.GetCrypto().Recipient)
-			},
+	if err := f.mknodeWithoutLocking(true, rootProposal, rootPerm, tapeIsEmpty, "", true); err != nil {
+		return "", err
+	}
 
-			f.onHeader,
-		); err != nil {
-			return mkdirRoot()
-		}
+	// Ensure that the new root path is being used
+	return f.metadata.Metadata.GetRootPath(context.Background())
+}
 
-		if err := f.readOps.GetBackend().CloseReader(); err != nil {
-			return "", err
+// index indexes the tape from a record and block
+func (f *STFS) index(record, block int, overwrite bool, onHeader func(hdr *config.Header)) error {
+	reader, err := f.readOps.GetBackend().GetReader()
+	if err != nil {
+		return err
+	}
+
+	if err := recovery.Index(
+		reader,
+		f.readOps.GetBackend().MagneticTapeIO,
+		f.readOps.GetMetadata(),
+		f.readOps.GetPipes(),
+		f.readOps.GetCrypto(),
+
+		record,
+		block,
+		overwrite,
+		false,
+		0,
+
+		func(hdr *tar.Header, i int) error {
+			return encryption.DecryptHeader(hdr, f.readOps.GetPipes().Encryption, f.readOps.GetCrypto().Identity)
+		},
+		func(hdr *tar.Header, isRegular bool) error {
+			return signature.VerifyHeader(hdr, isRegular, f.readOps.GetPipes().Signature, f.readOps.GetCrypto().Recipient)
+		},
+
+		onHeader,
+	); err != nil {
+		_ = f.readOps.GetBackend().CloseReader()
+
+		return err
+	}
+
+	return f.readOps.GetBackend().CloseReader()
+}
+
+// updateIndex indexes what is on the tape, but not in the index yet
+func (f *STFS) updateIndex() error {
+	record, block, err := f.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), f.readOps.GetPipes().RecordSize)
+	if err != nil {
+		return err
+	}
+
+	i := 0
+	lastIndexedExists := false
+	if err := f.index(int(record), int(block), false, func(hdr *config.Header) {
+		if i == 0 {
+			lastIndexedExists = hdr.Record == record && hdr.Block == block
+		} else if f.onHeader != nil {
+			f.onHeader(hdr)
 		}
 
-		// Ensure that the new root path is being used
-		return f.metadata.Metadata.GetRootPath(context.Background())
-	} else if err != nil {
-		return "", err
+		i++
+	}); err != nil {
+		return err
+	}
+
+	if lastIndexedExists {
+		return nil
 	}
 
-	return existingRoot, nil
+	// The index has records which are not on the tape
+	return f.index(0, 0, true, f.onHeader)
 }
 
 func (f *STFS) Mkdir(name string, perm os.FileMode) error {
-- 
2.43.0


From d8252f50f2d4eba5759189318658ae56c5c1d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 22/49] fix: find all records when querying, also after any
 amount of trailer blocks

---
 pkg/recovery/query.go | 100 ++++++------------------------------------
 1 file changed, 14 insertions(+), 86 deletions(-)

diff --git a/pkg/recovery/query.go b/pkg/recovery/query.go
index f2c1b02..66d3fbc 100644
--- a/pkg/recovery/query.go
+++ b/pkg/recovery/query.go
@@ -28,77 +28,19 @@ func Query(
 	headers := []*tar.Header{}
 
 	if reader.DriveIsRegular {
-		// Seek to record and block
-		if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*record)+block*config.MagneticTapeBlockSize), 0); err != nil {
-			return []*tar.Header{}, err
-		}
-
-		tr := tar.NewReader(reader.Drive)
-
-		record := int64(record)
-		block := int64(block)
-
-		for {
-			hdr, err := tr.Next()
-			if err != nil {
-				for {
-					curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-					if err != nil {
-						return []*tar.Header{}, err
-					}
-
-					nextTotalBlocks := math.Ceil(float64((curr)) / float64(config.MagneticTapeBlockSize))
-					record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-					block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-					if block < 0 {
-						record--
-						block = int64(pipes.RecordSize) - 1
-					} else if block >= int64(pipes.RecordSize) {
-						record++
-						block = 0
-					}
-
-					// Seek to record and block
-					if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*int(record))+int(block)*config.MagneticTapeBlockSize), io.SeekStart); err != nil {
-						return []*tar.Header{}, err
-					}
-
-					tr = tar.NewReader(reader.Drive)
-
-					hdr, err = tr.Next()
-					if err != nil {
-						if err == io.EOF {
-							// EOF
-
-							break
-						}
-
-						continue
-					}
-
-					break
-				}
-			}
-
-			if hdr == nil {
-				// EOF
-
-				break
-			}
-
+		if _, err := scan(reader.Drive, pipes, record, block, func(record, block int64, hdr *tar.Header, i int) error {
 			if err := encryption.DecryptHeader(hdr, pipes.Encryption, crypto.Identity); err != nil {
-				return []*tar.Header{}, err
+				return err
 			}
 
 			if err := signature.VerifyHeader(hdr, reader.DriveIsRegular, pipes.Signature, crypto.Recipient); err != nil {
-				return []*tar.Header{}, err
+				return err
 			}
 
 			if onHeader != nil {
 				dbhdr, err := converters.TarHeaderToDBHeader(record, -1, block, -1, hdr)
 				if err != nil {
-					return []*tar.Header{}, err
+					return err
 				}
 
 				onHeader(converters.DBHeaderToConfigHeader(dbhdr))
@@ -106,28 +48,9 @@ func Query(
 
 			headers = append(headers, hdr)
 
-			curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-			if err != nil {
-				return []*tar.Header{}, err
-			}
-
-			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
-				return []*tar.Header{}, err
-			}
-
-			currAndSize, err := reader.Drive.Seek(0, io.SeekCurrent)
-			if err != nil {
-				return []*tar.Header{}, err
-			}
-
-			nextTotalBlocks := math.Ceil(float64(curr+(currAndSize-curr)) / float64(config.MagneticTapeBlockSize))
-			record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-			block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-			if block > int64(pipes.RecordSize) {
-				record++
-				block = 0
-			}
+			return nil
+		}); err != nil {
+			return []*tar.Header{}, err
 		}
 	} else {
 		// Seek to record
@@ -151,7 +74,7 @@ func Query(
 		for {
 			hdr, err := tr.Next()
 			if err != nil {
-				if err == io.EOF {
+				if isResyncable(err) {
 					if err := mt.GoToNextFileOnTape(reader.Drive.Fd()); err != nil {
 						// EOD
 
@@ -166,7 +89,7 @@ func Query(
 
 					br = bufio.NewReaderSize(reader.Drive, config.MagneticTapeBlockSize*pipes.RecordSize)
 					curr := int64(int64(pipes.RecordSize) * config.MagneticTapeBlockSize * record)
-					counter := &ioext.CounterReader{Reader: br, BytesRead: int(curr)}
+					counter = &ioext.CounterReader{Reader: br, BytesRead: int(curr)}
 					tr = tar.NewReader(counter)
 
 					continue
@@ -195,6 +118,11 @@ func Query(
 			headers = append(headers, hdr)
 
 			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+				if err == io.ErrUnexpectedEOF {
+					// The content of the record has been torn; continue with the next file
+					continue
+				}
+
 				return []*tar.Header{}, err
 			}
 
-- 
2.43.0


From b8f876a9f9217f58a3d9f36b3499e8db1ebf6359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 23/49] fix: only write whole records to tapes

---
 internal/tarext/write.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/internal/tarext/write.go b/internal/tarext/write.go
index af6a251..b6e5ace 100644
--- a/internal/tarext/write.go
+++ b/internal/tarext/write.go
@@ -9,6 +9,35 @@ import (
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
+// recordWriter only ever writes whole records to a tape
+type recordWriter struct {
+	*bufio.Writer
+}
+
+func (w recordWriter) Write(p []byte) (n int, err error) {
+	for n < len(p) {
+		// `bufio.Writer` passes writes which are larger than its buffer on as they are
+		chunk := p[n:]
+		if len(chunk) > w.Available() {
+			chunk = chunk[:w.Available()]
+		}
+
+		written, err := w.Writer.Write(chunk)
+		n += written
+		if err != nil {
+			return n, err
+		}
+
+		if w.Available() <= 0 {
+			if err := w.Flush(); err != nil {
+				return n, err
+			}
+		}
+	}
+
+	return n, nil
+}
+
 func NewTapeWriter(f io.Writer, isRegular bool, recordSize int) (tw *tar.Writer, cleanup func(dirty *bool) error, err error) {
 	var bw *bufio.Writer
 	var counter *ioext.CounterWriter
@@ -16,7 +45,7 @@ func NewTapeWriter(f io.Writer, isRegular bool, recordSize int) (tw *tar.Writer,
 		tw = tar.NewWriter(f)
 	} else {
 		bw = bufio.NewWriterSize(f, config.MagneticTapeBlockSize*recordSize)
-		counter = &ioext.CounterWriter{Writer: bw, BytesRead: 0}
+		counter = &ioext.CounterWriter{Writer: recordWriter{bw}, BytesRead: 0}
 		tw = tar.NewWriter(counter)
 	}
 
@@ -28,9 +57,9 @@ func NewTapeWriter(f io.Writer, isRegular bool, recordSize int) (tw *tar.Writer,
 			}
 
 			if !isRegular {
-				if config.MagneticTapeBlockSize*recordSize-counter.BytesRead > 0 {
+				if rest := counter.BytesRead % (config.MagneticTapeBlockSize * recordSize); rest > 0 {
 					// Fill the rest of the record with zeros
-					if _, err := bw.Write(make([]byte, config.MagneticTapeBlockSize*recordSize-counter.BytesRead)); err != nil {
+					if _, err := bw.Write(make([]byte, config.MagneticTapeBlockSize*recordSize-rest)); err != nil {
 						return err
 					}
 				}
-- 
2.43.0


From 6dd7a306867279922eefe0e498771c001f667848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:23 +0000
Subject: [PATCH 24/49] fix: treat the parent of the root as the root itself

---
 pkg/fs/filesystem.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 77d730b..52e89e3 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -1368,11 +1368,22 @@ func (f *STFS) resolveCleanName(name string, aliasRoot bool) (string, error) {
 		}
 	}
 
-	return filepath.Clean(name), nil
+	return cleanName(name), nil
 }
 
 func cleanName(name string) string {
-	return filepath.Clean(name)
+	name = filepath.ToSlash(filepath.Clean(name))
+
+	// The parent of the root is the root itself
+	for strings.HasPrefix(name, "../") {
+		name = strings.TrimPrefix(name, "../")
+	}
+
+	if name == ".." {
+		return "."
+	}
+
+	return name
 }
 
 // tarMode converts the permission bits from Go's to tar's representation
-- 
2.43.0


From 92d4a9125803e27c431227abd42cb691b5a09cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 25/49] fix: index unset modification times as they are written
 to the tape

---
 pkg/operations/archive.go | 4 ++++
 pkg/operations/update.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index f71d404..4e2e1de 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"time"
 
 	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/ioext"
@@ -100,6 +101,9 @@ func (o *Operations) archive(
 
 		hdr.Name = file.Path
 		hdr.Format = tar.FormatPAX
+		if hdr.ModTime.IsZero() {
+			hdr.ModTime = time.Unix(0, 0) // This is what ends up on the tape
+		}
 
 		var f io.ReadSeekCloser
 		if file.Info.Mode().IsRegular() && file.Info.Size() > 0 {
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 65d623c..ba259ca 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"time"
 
 	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/ioext"
@@ -80,6 +81,9 @@ func (o *Operations) Update(
 
 		hdr.Name = file.Path
 		hdr.Format = tar.FormatPAX
+		if hdr.ModTime.IsZero() {
+			hdr.ModTime = time.Unix(0, 0) // This is what ends up on the tape
+		}
 		if hdr.PAXRecords == nil {
 			hdr.PAXRecords = map[string]string{}
 		}
-- 
2.43.0


From 9fc5c041d44d9f2c600bb76f698a685b83d83d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 26/49] fix: sanitize the names of links like all other names
 when indexing

---
 pkg/persisters/metadata.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 6ba7601..e210859 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -105,6 +105,7 @@ func (p *MetadataPersister) UpsertHeader(ctx context.Context, dbhdr *config.Head
 	hdr := *idbhdr
 	if !initializing {
 		hdr.Name = p.getSanitizedPath(ctx, idbhdr.Name)
+		hdr.Linkname = p.getSanitizedLinkname(ctx, idbhdr.Linkname)
 	}
 
 	existing, err := models.Headers(
@@ -135,6 +136,7 @@ func (p *MetadataPersister) UpdateHeaderMetadata(ctx context.Context, dbhdr *con
 
 	hdr := *idbhdr
 	hdr.Name = p.getSanitizedPath(ctx, idbhdr.Name)
+	hdr.Linkname = p.getSanitizedLinkname(ctx, idbhdr.Linkname)
 
 	existing, err := models.Headers(
 		qm.Where(models.HeaderColumns.Name+" = ?", hdr.Name),
@@ -570,6 +572,15 @@ func (p *MetadataPersister) headerExistsExact(ctx context.Context, name string)
 	return nil
 }
 
+// getSanitizedLinkname keeps empty linknames, which headers that aren't links have
+func (p *MetadataPersister) getSanitizedLinkname(ctx context.Context, linkname string) string {
+	if linkname == "" {
+		return ""
+	}
+
+	return p.getSanitizedPath(ctx, linkname)
+}
+
 func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) string {
 	// If root is queried, return actual root
 	if pathext.IsRoot(name, false) || name == p.root {
-- 
2.43.0


From 2197af6e6937329619eb69f0c28c7a89f7ff2fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 27/49] fix: read the data in the same chunks when measuring
 and when writing it, its compressed size depends on them

---
 pkg/operations/archive.go | 8 ++++----
 pkg/operations/update.go  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 4e2e1de..5c729a1 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -147,14 +147,14 @@ func (o *Operations) archive(
 			}
 
 			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, signer); err != nil {
+				if _, err := io.Copy(compressor, struct{ io.Reader }{signer}); err != nil {
 					writeErr = err
 
 					break
 				}
 			} else {
 				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, signer, buf); err != nil {
+				if _, err := io.CopyBuffer(compressor, struct{ io.Reader }{signer}, buf); err != nil {
 					writeErr = err
 
 					break
@@ -272,12 +272,12 @@ func (o *Operations) archive(
 		}
 
 		if writer.DriveIsRegular {
-			if _, err := io.Copy(compressor, f); err != nil {
+			if _, err := io.Copy(compressor, struct{ io.Reader }{f}); err != nil {
 				return []*tar.Header{}, err
 			}
 		} else {
 			buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-			if _, err := io.CopyBuffer(compressor, f, buf); err != nil {
+			if _, err := io.CopyBuffer(compressor, struct{ io.Reader }{f}, buf); err != nil {
 				return []*tar.Header{}, err
 			}
 		}
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index ba259ca..b7f135d 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -132,14 +132,14 @@ func (o *Operations) Update(
 			}
 
 			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, signer); err != nil {
+				if _, err := io.Copy(compressor, struct{ io.Reader }{signer}); err != nil {
 					writeErr = err
 
 					break
 				}
 			} else {
 				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, signer, buf); err != nil {
+				if _, err := io.CopyBuffer(compressor, struct{ io.Reader }{signer}, buf); err != nil {
 					writeErr = err
 
 					break
@@ -253,12 +253,12 @@ func (o *Operations) Update(
 			}
 
 			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, f); err != nil {
+				if _, err := io.Copy(compressor, struct{ io.Reader }{f}); err != nil {
 					return []*tar.Header{}, err
 				}
 			} else {
 				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, f, buf); err != nil {
+				if _, err := io.CopyBuffer(compressor, struct{ io.Reader }{f}, buf); err != nil {
 					return []*tar.Header{}, err
 				}
 			}
-- 
2.43.0


From 3418b8abc55cd79ec2f47472723b3b11570b1d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:59 +0000
Subject: [PATCH 28/49] fix: don't read past the end of PGP-encrypted data,
 which can only be verified once

---
 internal/ioext/sticky.go  | 24 ++++++++++++++++++++++++
 pkg/encryption/decrypt.go |  4 +++-
 2 files changed, 27 insertions(+), 1 deletion(-)
 create mode 100644 internal/ioext/sticky.go

diff --git a/internal/ioext/sticky.go b/internal/ioext/sticky.go
new file mode 100644
index 0000000..9116dbc
--- /dev/null
+++ b/internal/ioext/sticky.go
@@ -0,0 +1,24 @@
+package ioext
+
+import "io"
+
+type stickyErrorReader struct {
+	r   io.Reader
+	err error
+}
+
+// AddStickyError returns a reader which keeps returning the first error, without reading again
+func AddStickyError(r io.Reader) io.Reader {
+	return &stickyErrorReader{r: r}
+}
+
+func (r *stickyErrorReader) Read(p []byte) (int, error) {
+	if r.err != nil {
+		return 0, r.err
+	}
+
+	n, err := r.r.Read(p)
+	r.err = err
+
+	return n, err
+}
diff --git a/pkg/encryption/decrypt.go b/pkg/encryption/decrypt.go
index fcc6517..48f1db9 100644
--- a/pkg/encryption/decrypt.go
+++ b/pkg/encryption/decrypt.go
@@ -9,6 +9,7 @@ import (
 
 	"filippo.io/age"
 	"github.com/ProtonMail/go-crypto/openpgp"
+	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/pkg/config"
 )
@@ -42,7 +43,8 @@ func Decrypt(
 			return nil, err
 		}
 
-		return io.NopCloser(r.UnverifiedBody), nil
+		// The integrity can only be checked once, but readers may try to read past the end
+		return io.NopCloser(ioext.AddStickyError(r.UnverifiedBody)), nil
 	case config.NoneKey:
 		return io.NopCloser(src), nil
 	default:
-- 
2.43.0


From ad6958300d9936465982e36c9b033d11354cbbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 29/49] fix: don't complete torn headers when appending to a
 torn tail

---
 pkg/operations/operations.go | 38 ++++++++++++++++++++++++++----------
 pkg/recovery/index.go        | 19 ++++++++++++++++++
 2 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/pkg/operations/operations.go b/pkg/operations/operations.go
index 862503c..8c63394 100644
--- a/pkg/operations/operations.go
+++ b/pkg/operations/operations.go
@@ -2,6 +2,7 @@ package operations
 
 import (
 	"archive/tar"
+	"bytes"
 	"context"
 	"database/sql"
 	"io"
@@ -34,16 +35,16 @@ type Operations struct {
 // tailWriter completes what is at the end of the drive before appending to it
 type tailWriter struct {
 	io.Writer
-	padding int64
+	padding []byte
 }
 
 func (w *tailWriter) Write(p []byte) (n int, err error) {
-	if w.padding > 0 {
-		if _, err := w.Writer.Write(make([]byte, w.padding)); err != nil {
+	if len(w.padding) > 0 {
+		if _, err := w.Writer.Write(w.padding); err != nil {
 			return 0, err
 		}
 
-		w.padding = 0
+		w.padding = nil
 	}
 
 	return w.Writer.Write(p)
@@ -88,11 +89,18 @@ func (o *Operations) GetCrypto() config.CryptoConfig {
 // getWriter opens the drive for writing and returns where what will be written to it starts (or -1 if this is unknown)
 func (o *Operations) getWriter(lastIndexedRecord, lastIndexedBlock int64, overwrite bool) (writer config.DriveWriterConfig, start int64, abort func(), err error) {
 	end := int64(0)
-	if !overwrite && !o.tailIsComplete {
+	torn := false
+	if !o.tailIsComplete {
 		// If there is nothing to read from yet, then there is no tail
 		if reader, err := o.backend.GetReader(); err == nil {
 			if reader.DriveIsRegular {
-				end, err = recovery.FindEnd(reader, o.pipes, int(lastIndexedRecord), int(lastIndexedBlock))
+				if !overwrite {
+					end, err = recovery.FindEnd(reader, o.pipes, int(lastIndexedRecord), int(lastIndexedBlock))
+				}
+
+				if err == nil {
+					torn, err = recovery.HasTornBlock(reader)
+				}
 			}
 
 			if closeErr := o.backend.CloseReader(); err == nil {
@@ -130,14 +138,19 @@ func (o *Operations) getWriter(lastIndexedRecord, lastIndexedBlock int64, overwr
 	}
 	size := info.Size()
 
-	if end < size {
-		end = size
+	filler := byte(0)
+	start = roundUpToBlock(end)
+	if start < size {
+		start = roundUpToBlock(size)
+
+		if torn {
+			filler = 0xff // Filling up a torn header with zeros could complete it
+		}
 	}
-	start = (end + config.MagneticTapeBlockSize - 1) / config.MagneticTapeBlockSize * config.MagneticTapeBlockSize
 
 	writer.Drive = &tailWriter{
 		Writer:  writer.Drive,
-		padding: start - size,
+		padding: bytes.Repeat([]byte{filler}, int(start-size)),
 	}
 
 	return writer, start, func() {
@@ -150,6 +163,11 @@ func (o *Operations) getWriter(lastIndexedRecord, lastIndexedBlock int64, overwr
 	}, nil
 }
 
+// roundUpToBlock returns where the first block after the offset starts
+func roundUpToBlock(offset int64) int64 {
+	return (offset + config.MagneticTapeBlockSize - 1) / config.MagneticTapeBlockSize * config.MagneticTapeBlockSize
+}
+
 // closeWriter closes the drive after everything has been written to it; the headers are then waiting to be indexed
 func (o *Operations) closeWriter(start int64, hdrs []*tar.Header, overwrite bool) error {
 	if overwrite {
diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index 0c6153a..275e0bb 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -171,6 +171,25 @@ func FindEnd(
 	})
 }
 
+// HasTornBlock returns true if there is a part of a block, which contains anything but zeros, at the end of a regular drive
+func HasTornBlock(reader config.DriveReaderConfig) (bool, error) {
+	size, err := reader.Drive.Seek(0, io.SeekEnd)
+	if err != nil {
+		return false, err
+	}
+
+	block := make([]byte, size%config.MagneticTapeBlockSize)
+	if _, err := reader.Drive.Seek(-int64(len(block)), io.SeekEnd); err != nil {
+		return false, err
+	}
+
+	if _, err := io.ReadFull(reader.Drive, block); err != nil {
+		return false, err
+	}
+
+	return len(bytes.Trim(block, "\x00")) > 0, nil
+}
+
 // scan calls `onRecord` for each record on a regular drive and returns where the last record, including its content, ends if it is complete
 func scan(
 	drive io.ReadSeeker,
-- 
2.43.0


From 483a8c320303c8b9b68c12ac93f7b770482cd440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:02 +0000
Subject: [PATCH 30/49] fix: open the target when opening links with O_CREATE
 instead of creating a second entry with the name of the link

---
 pkg/fs/filesystem.go | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 52e89e3..e5b4cd3 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -522,13 +522,14 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 				f.onHeader,
 			)
 
-			createFile := func() error {
+			createFile := func(name string) error {
 				if !f.readOnly && flag&os.O_CREATE != 0 {
 					if err := f.checkParent(name); err != nil {
 						return err
 					}
 
-					if target, err := inventory.Stat(
+					// Links to links are not followed
+					if _, err := inventory.Stat(
 						f.metadata,
 
 						name,
@@ -536,9 +537,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 						f.onHeader,
 					); err == nil {
-						if target.Typeflag == tar.TypeDir {
-							return config.ErrIsDirectory
-						}
+						return os.ErrNotExist
 					}
 
 					if err := f.mknodeWithoutLocking(false, name, perm, false, "", false); err != nil {
@@ -573,7 +572,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 			if err != nil {
 				if err == sql.ErrNoRows {
-					if err := createFile(); err != nil {
+					if err := createFile(name); err != nil {
 						return nil, err
 					}
 				} else {
@@ -584,31 +583,20 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 					return nil, os.ErrExist
 				}
 
-				linkname := hdr.Name
+				linkname, target := hdr.Name, hdr.Linkname
 
 				hdr, err = inventory.Stat(
 					f.metadata,
 
-					hdr.Linkname,
+					target,
 					false,
 
 					f.onHeader,
 				)
-
-				if err == nil && !f.readOnly && flag&os.O_CREATE != 0 {
-					hdr, err = inventory.Stat(
-						f.metadata,
-
-						hdr.Linkname,
-						true,
-
-						f.onHeader,
-					)
-				}
-
 				if err != nil {
 					if err == sql.ErrNoRows {
-						if err := createFile(); err != nil {
+						// The target of a broken link is created
+						if err := createFile(target); err != nil {
 							return nil, err
 						}
 					} else {
-- 
2.43.0


From 99a8b1816cf048f5168a9a33ce299d9aafbb5f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:18 +0000
Subject: [PATCH 31/49] fix: return an error instead of panicking when
 searching the index with an invalid expression

---
 pkg/inventory/find.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/inventory/find.go b/pkg/inventory/find.go
index ebfaea7..5e7034c 100644
--- a/pkg/inventory/find.go
+++ b/pkg/inventory/find.go
@@ -16,6 +16,11 @@ func Find(
 
 	onHeader func(hdr *config.Header),
 ) ([]*tar.Header, error) {
+	re, err := regexp.Compile(expression)
+	if err != nil {
+		return []*tar.Header{}, err
+	}
+
 	dbHdrs, err := metadata.Metadata.GetHeaders(context.Background())
 	if err != nil {
 		return []*tar.Header{}, err
@@ -23,7 +28,7 @@ func Find(
 
 	headers := []*tar.Header{}
 	for _, dbhdr := range dbHdrs {
-		if regexp.MustCompile(expression).Match([]byte(dbhdr.Name)) {
+		if re.MatchString(dbhdr.Name) {
 			hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
 			if err != nil {
 				return []*tar.Header{}, err
-- 
2.43.0


From aa68db0d50b8e11c649ca97ccd23506cfc6d8dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:15 +0000
Subject: [PATCH 32/49] fix: delete and move links to a directory which are in
 this directory

---
 pkg/persisters/metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index e210859..5db6412 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -301,7 +301,7 @@ func (p *MetadataPersister) GetHeaderChildren(ctx context.Context, name string)
 	outhdrs := []*config.Header{}
 	for _, hdr := range headers {
 		prefix := strings.TrimSuffix(hdr.Name, "/")
-		if name != prefix && name != prefix+"/" {
+		if hdr.Linkname != "" || (name != prefix && name != prefix+"/") { // Links to the directory can be its children
 			outhdrs = append(outhdrs, converters.DBHeaderToConfigHeader(hdr))
 		}
 	}
-- 
2.43.0


From 77cbdccec667f42a02cc918a1a2ff8306bb78529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 33/49] fix: list links with the kind and the size of their
 target instead of those of the root

---
 pkg/persisters/metadata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 5db6412..a32cb59 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -373,8 +373,8 @@ where substr(%v, 1, length(?)) = ?
 			models.HeaderColumns.Lastknownblock,
 			models.HeaderColumns.Deleted,
 			models.HeaderColumns.Typeflag,
-			pk,
-			exclude,
+			models.HeaderColumns.Name,
+			models.HeaderColumns.Linkname,
 			models.HeaderColumns.Size,
 			models.HeaderColumns.Mode,
 			models.HeaderColumns.UID,
-- 
2.43.0


From f6314a7a840c7a6d515209bae0aab830a9c37512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:30 +0000
Subject: [PATCH 34/49] fix: report the target of links to the root after
 rebuilding the index

---
 pkg/fs/filesystem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index e5b4cd3..db3163e 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -1230,7 +1230,7 @@ func (f *STFS) lstatIfPossibleWithoutLocking(name string) (info os.FileInfo, lin
 		return nil, "", true, err
 	}
 
-	return NewFileInfoFromTarHeader(hdr, f.log), path.Base(hdr.Linkname), true, nil
+	return NewFileInfoFromTarHeader(hdr, f.log), path.Base("/" + hdr.Linkname), true, nil // The root can be an empty string
 }
 
 func (f *STFS) LstatIfPossible(name string) (os.FileInfo, bool, error) {
-- 
2.43.0


From 90b77c29c9e284097d883fa40566e7ca25b6f05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:46 +0000
Subject: [PATCH 35/49] fix: don't take paths which were looked up before
 initializing for the root directory

---
 pkg/persisters/metadata.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index a32cb59..054b003 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -31,6 +31,7 @@ type MetadataPersister struct {
 	sqlite *ipersisters.SQLite
 
 	root              string
+	rootIsAssumed     bool
 	rootIsEmptyString bool
 }
 
@@ -46,6 +47,7 @@ func NewMetadataPersister(dbPath string) *MetadataPersister {
 		},
 		"",
 		false,
+		false,
 	}
 }
 
@@ -72,7 +74,7 @@ func (p *MetadataPersister) Open() error {
 
 func (p *MetadataPersister) GetRootPath(ctx context.Context) (string, error) {
 	// Cache the root directory
-	if p.root != "" {
+	if p.root != "" && !p.rootIsAssumed {
 		return p.root, nil
 	}
 
@@ -95,6 +97,7 @@ func (p *MetadataPersister) GetRootPath(ctx context.Context) (string, error) {
 	}
 
 	p.root = root.Name
+	p.rootIsAssumed = false
 
 	return root.Name, nil
 }
@@ -546,6 +549,7 @@ func (p *MetadataPersister) PurgeAllHeaders(ctx context.Context) error {
 	}
 
 	p.root = ""
+	p.rootIsAssumed = false
 	p.rootIsEmptyString = false
 
 	return nil
@@ -591,6 +595,7 @@ func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) s
 	if p.root == "" && strings.HasPrefix(name, "/") && !p.rootIsEmptyString {
 		if err := p.headerExistsExact(ctx, ""); err != nil {
 			p.root = name
+			p.rootIsAssumed = true // It could also just have been looked up
 
 			return p.root
 		} else {
-- 
2.43.0


From b1402a349926b70b99add1aa3c751442bd6b20da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:58 +0000
Subject: [PATCH 36/49] fix: replace files when renaming links to their name
 instead of listing both

---
 pkg/fs/filesystem.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index db3163e..5d61163 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -870,11 +870,18 @@ func (f *STFS) Rename(oldname, newname string) error {
 		f.onHeader,
 	)
 	if err == nil {
-		if target.Typeflag != source.Typeflag {
-			return os.ErrExist
-		}
+		if source.Linkname != "" {
+			if target.Typeflag == tar.TypeDir {
+				return os.ErrExist
+			}
 
-		if target.Typeflag == tar.TypeDir {
+			// Moving a link does not replace the target
+			if err := f.removeWithoutLocking(newname); err != nil {
+				return err
+			}
+		} else if target.Typeflag != source.Typeflag {
+			return os.ErrExist
+		} else if target.Typeflag == tar.TypeDir {
 			children, err := inventory.List(
 				f.metadata,
 
-- 
2.43.0


From 276c6111b05a326a2aade160b49782b017768fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 37/49] fix: delete and move entries whose records have no PAX
 headers

Headers without PAX records are read back as USTAR (or GNU) ones, to which no
records could be added.
---
 pkg/operations/delete.go | 1 +
 pkg/operations/move.go   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index f8f037c..9180596 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -69,6 +69,7 @@ func (o *Operations) Delete(name string) error {
 			return err
 		}
 
+		hdr.Format = tar.FormatPAX
 		hdr.Size = 0 // Don't try to seek after the record
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionDelete
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index a73bc29..9a33355 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -91,6 +91,7 @@ func (o *Operations) Move(from string, to string) error {
 			return err
 		}
 
+		hdr.Format = tar.FormatPAX
 		hdr.Size = 0 // Don't try to seek after the record
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 
@@ -106,6 +107,7 @@ func (o *Operations) Move(from string, to string) error {
 				return err
 			}
 
+			newHdr.Format = tar.FormatPAX
 			newHdr.Size = 0
 			newHdr.Linkname = path.Join(to, strings.TrimPrefix(dbhdr.Linkname, source))
 			newHdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
-- 
2.43.0


From 2c3deccf99ed7bf6b6ee9d32097bee54a3c07270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 38/49] fix: prefer actual roots when several names have the
 same number of slashes

"/" and "/a" or "top/" and "top/a" have as many slashes as each other, so
which one was the root depended on their order on the tape.
---
 pkg/persisters/metadata.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 054b003..0cd4b33 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -80,16 +80,24 @@ func (p *MetadataPersister) GetRootPath(ctx context.Context) (string, error) {
 
 	root := models.Header{}
 
+	// Prefer spellings of the root, then the shallowest name (not counting trailing slashes), then the shortest one
 	if err := queries.Raw(
 		fmt.Sprintf(
-			`select min(length(%v) - length(replace(%v, "/", ""))) as depth, name from %v where %v != 1`,
-			models.HeaderColumns.Name,
+			`select %v from %v where %v != 1
+order by %v in ('', '.', '/', './') desc,
+    length(rtrim(%v, '/')) - length(replace(%v, '/', '')),
+    length(%v)
+limit 1`,
 			models.HeaderColumns.Name,
 			models.TableNames.Headers,
 			models.HeaderColumns.Deleted,
+			models.HeaderColumns.Name,
+			models.HeaderColumns.Name,
+			models.HeaderColumns.Name,
+			models.HeaderColumns.Name,
 		),
 	).Bind(ctx, p.sqlite.DB, &root); err != nil {
-		if strings.Contains(err.Error(), "converting NULL to string is unsupported") {
+		if err == sql.ErrNoRows {
 			return "", config.ErrNoRootDirectory
 		}
 
-- 
2.43.0


From 43dd8b4eeb1a745e5a37a9334b8da39bc8fbb62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 39/49] fix: index members of archives with a relative root
 once

Names below roots like "top" were kept as they are, so directories which end
with a slash on the tape were listed twice once they had been indexed again.
---
 pkg/persisters/metadata.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 0cd4b33..7b85abd 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -602,7 +602,7 @@ func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) s
 	// If root has not been set, the incoming path is absolute and no header with the exact name "" (empty string) exists, assume it is root
 	if p.root == "" && strings.HasPrefix(name, "/") && !p.rootIsEmptyString {
 		if err := p.headerExistsExact(ctx, ""); err != nil {
-			p.root = name
+			p.root = path.Clean(name)
 			p.rootIsAssumed = true // It could also just have been looked up
 
 			return p.root
@@ -613,7 +613,7 @@ func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) s
 
 	// Keep absolute paths untouched if root is also absolute
 	if strings.HasPrefix(p.root, "/") && strings.HasPrefix(name, "/") {
-		return name
+		return path.Clean(name)
 	}
 
 	// Get correct root prefix
@@ -627,7 +627,7 @@ func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) s
 	} else if p.root == "/" {
 		prefix = "/"
 	} else if !(strings.HasPrefix(p.root, "/") || strings.HasPrefix(p.root, "./")) { // If the root path is relative, but does not start with "./"; this is `tar`s default behaviour if ${PWD} is the source
-		return name
+		return path.Clean(name)
 	} else {
 		return "./" + filepath.Clean(strings.TrimPrefix(name, "/")) // Special case: There is no root directory, only files, and the files start with `./`
 	}
-- 
2.43.0


From 4aa6e0345efb4d87614c45f5522b6d6da3963fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 40/49] fix: don't index global PAX headers as members

Archives like the ones of "git archive" start with one.
---
 pkg/recovery/index.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index 275e0bb..9cc40d5 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -351,6 +351,11 @@ func indexHeader(
 	initializing bool,
 	onHeader func(hdr *config.Header),
 ) error {
+	// Global PAX headers aren't members of the archive
+	if hdr.Typeflag == tar.TypeXGlobalHeader {
+		return nil
+	}
+
 	uncompressedSize, ok := hdr.PAXRecords[records.STFSRecordUncompressedSize]
 	if ok {
 		size, err := strconv.Atoi(uncompressedSize)
-- 
2.43.0


From a82e17596cff956ac3fd201333a6aa1633239466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 41/49] fix: recognize absolute roots which come after some of
 their members

What came first was taken for the root and replaced by the actual one.
---
 pkg/persisters/metadata.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 7b85abd..d7d3944 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -113,6 +113,12 @@ limit 1`,
 func (p *MetadataPersister) UpsertHeader(ctx context.Context, dbhdr *config.Header, initializing bool) error {
 	idbhdr := converters.ConfigHeaderToDBHeader(dbhdr)
 
+	if idbhdr.Name == "/" && p.rootIsAssumed {
+		// There is an actual root, so what has been assumed to be it is one of its members
+		p.root = "/"
+		p.rootIsAssumed = false
+	}
+
 	hdr := *idbhdr
 	if !initializing {
 		hdr.Name = p.getSanitizedPath(ctx, idbhdr.Name)
-- 
2.43.0


From 3f65cdf53ae98071c6a418f0e433d2942247ac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 42/49] fix: read hard links of other archivers with the right
 roles

STFS identifies links by their target, others identify them by their name.
---
 pkg/recovery/index.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index 9cc40d5..01e7bb2 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -398,6 +398,11 @@ func indexHeader(
 
 		switch stfsAction {
 		case records.STFSRecordActionCreate:
+			if !ok && hdr.Typeflag == tar.TypeLink {
+				// Links are identified by their target, but other archivers identify hard links by their own name
+				hdr.Name, hdr.Linkname = hdr.Linkname, hdr.Name
+			}
+
 			dbhdr, err := converters.TarHeaderToDBHeader(record, record, block, block, hdr)
 			if err != nil {
 				return err
-- 
2.43.0


From cb6e980aa700bf1313fb0a6cfe10da0fb737649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 43/49] fix: don't create the parents of the root directory in
 MkdirAll

They became the root directory themselves once the index was rebuilt.
---
 pkg/fs/filesystem.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 5d61163..d4753df 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -397,6 +397,11 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
+	root, err := f.metadata.Metadata.GetRootPath(context.Background())
+	if err != nil && err != config.ErrNoRootDirectory {
+		return err
+	}
+
 	parts := strings.Split(strings.TrimPrefix(filepath.ToSlash(path), "/"), "/")
 	currentPath := ""
 	if filepath.IsAbs(path) {
@@ -406,6 +411,11 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 	for _, part := range parts {
 		currentPath = filepath.Join(currentPath, part)
 
+		// The parents of the root directory don't have to exist
+		if strings.HasPrefix(root, currentPath+"/") {
+			continue
+		}
+
 		if hdr, err := inventory.Stat(
 			f.metadata,
 
-- 
2.43.0


From c560e2d7f13f50f8dedb7cd2eb2a3f951fe4fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 44/49] fix: Refuse to replace symbolic links by renaming
 directories onto them

---
 pkg/fs/filesystem.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index d4753df..0ee45a5 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -920,6 +920,10 @@ func (f *STFS) Rename(oldname, newname string) error {
 
 		f.onHeader,
 	); err == nil {
+		if source.Typeflag == tar.TypeDir && source.Linkname == "" {
+			return os.ErrExist
+		}
+
 		// Links are not replaced by the move
 		if err := f.removeWithoutLocking(newname); err != nil {
 			return err
-- 
2.43.0


From a148bf1784186aeb3b51a1825333df5540ffa79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 45/49] fix: let writes to open files change a time which has
 been set before

---
 pkg/fs/file.go       |  4 +---
 pkg/fs/filesystem.go | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 02de8af..ed995e2 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -227,9 +227,7 @@ func (f *File) syncWithoutLocking() error {
 
 	// Use the current attributes, as they might have been changed since the file has been opened
 	hdr.Size = size
-	if hdr.ModTime.Equal(f.info.ModTime()) {
-		hdr.ModTime = f.modified
-	}
+	hdr.ModTime = f.modified
 
 	done := false
 	if _, err := f.writeOps.Update(
diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 0ee45a5..181ea79 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -1227,7 +1227,18 @@ func (f *STFS) Chtimes(name string, atime time.Time, mtime time.Time) error {
 	hdr.AccessTime = atime
 	hdr.ModTime = mtime
 
-	return f.updateMetadata(hdr)
+	if err := f.updateMetadata(hdr); err != nil {
+		return err
+	}
+
+	// What has been written to open files before this call doesn't change their time anymore
+	for file := range f.openFiles {
+		if path.Join("/", file.path) == path.Join("/", filepath.ToSlash(hdr.Name)) {
+			file.modified = mtime
+		}
+	}
+
+	return nil
 }
 
 func (f *STFS) lstatIfPossibleWithoutLocking(name string) (info os.FileInfo, linkname string, possible bool, err error) {
-- 
2.43.0


From 42fb9f80d438a779051af4254794096095f4768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 46/49] fix: keep names which aren't valid UTF-8 in signed and
 encrypted headers

---
 internal/tarext/json.go   | 87 +++++++++++++++++++++++++++++++++++++++
 pkg/encryption/decrypt.go |  4 +-
 pkg/encryption/encrypt.go |  4 +-
 pkg/signature/sign.go     |  4 +-
 pkg/signature/verify.go   |  4 +-
 5 files changed, 95 insertions(+), 8 deletions(-)
 create mode 100644 internal/tarext/json.go

diff --git a/internal/tarext/json.go b/internal/tarext/json.go
new file mode 100644
index 0000000..d1302b5
--- /dev/null
+++ b/internal/tarext/json.go
@@ -0,0 +1,87 @@
+package tarext
+
+import (
+	"archive/tar"
+	"encoding/json"
+	"unicode/utf8"
+)
+
+// embeddedHeader is a header which can be marshalled to JSON without losing bytes
+type embeddedHeader struct {
+	tar.Header
+
+	// Strings which aren't valid UTF-8, for which JSON has no representation
+	RawName       []byte            `json:",omitempty"`
+	RawLinkname   []byte            `json:",omitempty"`
+	RawUname      []byte            `json:",omitempty"`
+	RawGname      []byte            `json:",omitempty"`
+	RawPAXRecords map[string][]byte `json:",omitempty"`
+}
+
+func MarshalHeader(hdr *tar.Header) ([]byte, error) {
+	wrapped := embeddedHeader{
+		Header:      *hdr,
+		RawName:     rawString(hdr.Name),
+		RawLinkname: rawString(hdr.Linkname),
+		RawUname:    rawString(hdr.Uname),
+		RawGname:    rawString(hdr.Gname),
+	}
+
+	for key, value := range hdr.PAXRecords {
+		raw := rawString(value)
+		if raw == nil {
+			continue
+		}
+
+		if wrapped.RawPAXRecords == nil {
+			wrapped.RawPAXRecords = map[string][]byte{}
+		}
+
+		wrapped.RawPAXRecords[key] = raw
+	}
+
+	return json.Marshal(wrapped)
+}
+
+func UnmarshalHeader(data []byte, hdr *tar.Header) error {
+	var wrapped embeddedHeader
+	if err := json.Unmarshal(data, &wrapped); err != nil {
+		return err
+	}
+
+	if wrapped.RawName != nil {
+		wrapped.Name = string(wrapped.RawName)
+	}
+
+	if wrapped.RawLinkname != nil {
+		wrapped.Linkname = string(wrapped.RawLinkname)
+	}
+
+	if wrapped.RawUname != nil {
+		wrapped.Uname = string(wrapped.RawUname)
+	}
+
+	if wrapped.RawGname != nil {
+		wrapped.Gname = string(wrapped.RawGname)
+	}
+
+	for key, value := range wrapped.RawPAXRecords {
+		if wrapped.PAXRecords == nil {
+			wrapped.PAXRecords = map[string]string{}
+		}
+
+		wrapped.PAXRecords[key] = string(value)
+	}
+
+	*hdr = wrapped.Header
+
+	return nil
+}
+
+func rawString(s string) []byte {
+	if utf8.ValidString(s) {
+		return nil
+	}
+
+	return []byte(s)
+}
diff --git a/pkg/encryption/decrypt.go b/pkg/encryption/decrypt.go
index 48f1db9..c78005c 100644
--- a/pkg/encryption/decrypt.go
+++ b/pkg/encryption/decrypt.go
@@ -4,13 +4,13 @@ import (
 	"archive/tar"
 	"bytes"
 	"encoding/base64"
-	"encoding/json"
 	"io"
 
 	"filippo.io/age"
 	"github.com/ProtonMail/go-crypto/openpgp"
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
+	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
@@ -76,7 +76,7 @@ func DecryptHeader(
 	}
 
 	var newHdr tar.Header
-	if err := json.Unmarshal([]byte(embeddedHeader), &newHdr); err != nil {
+	if err := tarext.UnmarshalHeader([]byte(embeddedHeader), &newHdr); err != nil {
 		return err
 	}
 
diff --git a/pkg/encryption/encrypt.go b/pkg/encryption/encrypt.go
index dca3a09..08c05c8 100644
--- a/pkg/encryption/encrypt.go
+++ b/pkg/encryption/encrypt.go
@@ -4,13 +4,13 @@ import (
 	"archive/tar"
 	"bytes"
 	"encoding/base64"
-	"encoding/json"
 	"io"
 
 	"filippo.io/age"
 	"github.com/ProtonMail/go-crypto/openpgp"
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
+	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
@@ -56,7 +56,7 @@ func EncryptHeader(
 		PAXRecords: map[string]string{},
 	}
 
-	wrappedHeader, err := json.Marshal(hdr)
+	wrappedHeader, err := tarext.MarshalHeader(hdr)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/signature/sign.go b/pkg/signature/sign.go
index 6aa2e65..e460878 100644
--- a/pkg/signature/sign.go
+++ b/pkg/signature/sign.go
@@ -4,13 +4,13 @@ import (
 	"archive/tar"
 	"bytes"
 	"encoding/base64"
-	"encoding/json"
 	"io"
 
 	"aead.dev/minisign"
 	"github.com/ProtonMail/go-crypto/openpgp"
 	"github.com/ProtonMail/go-crypto/openpgp/packet"
 	"github.com/pojntfx/stfs/internal/records"
+	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
@@ -101,7 +101,7 @@ func SignHeader(
 		PAXRecords: map[string]string{},
 	}
 
-	wrappedHeader, err := json.Marshal(hdr)
+	wrappedHeader, err := tarext.MarshalHeader(hdr)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/signature/verify.go b/pkg/signature/verify.go
index 2b6acdd..d4964c7 100644
--- a/pkg/signature/verify.go
+++ b/pkg/signature/verify.go
@@ -4,13 +4,13 @@ import (
 	"archive/tar"
 	"bytes"
 	"encoding/base64"
-	"encoding/json"
 	"io"
 
 	"aead.dev/minisign"
 	"github.com/ProtonMail/go-crypto/openpgp"
 	"github.com/ProtonMail/go-crypto/openpgp/packet"
 	"github.com/pojntfx/stfs/internal/records"
+	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
@@ -117,7 +117,7 @@ func VerifyHeader(
 	}
 
 	var newHdr tar.Header
-	if err := json.Unmarshal([]byte(embeddedHeader), &newHdr); err != nil {
+	if err := tarext.UnmarshalHeader([]byte(embeddedHeader), &newHdr); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 6e6f4eba9a8f9630f77235b57ab2f8774e68b42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 47/49] fix: complete a torn tail before the first write even
 if an operation before it wrote nothing

---
 pkg/operations/operations.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/operations/operations.go b/pkg/operations/operations.go
index 8c63394..47ba6ef 100644
--- a/pkg/operations/operations.go
+++ b/pkg/operations/operations.go
@@ -180,7 +180,11 @@ func (o *Operations) closeWriter(start int64, hdrs []*tar.Header, overwrite bool
 	o.unindexed = append(o.unindexed, hdrs...)
 
 	err := o.backend.CloseWriter()
-	o.tailIsComplete = err == nil
+	if err != nil {
+		o.tailIsComplete = false
+	} else if len(hdrs) > 0 {
+		o.tailIsComplete = true // If nothing has been written, then nothing has been completed either
+	}
 
 	return err
 }
-- 
2.43.0


From c267c6d275d3d285b14c0ed159423bcadaa553dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:57 +0000
Subject: [PATCH 48/49] fix: don't let complete PAX headers of torn records
 apply to what is appended next

---
 pkg/operations/operations.go |  8 ++++++--
 pkg/recovery/index.go        | 35 ++++++++++++++++++++++++-----------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/pkg/operations/operations.go b/pkg/operations/operations.go
index 47ba6ef..c98810e 100644
--- a/pkg/operations/operations.go
+++ b/pkg/operations/operations.go
@@ -94,12 +94,14 @@ func (o *Operations) getWriter(lastIndexedRecord, lastIndexedBlock int64, overwr
 		// If there is nothing to read from yet, then there is no tail
 		if reader, err := o.backend.GetReader(); err == nil {
 			if reader.DriveIsRegular {
+				tail := int64(-1)
 				if !overwrite {
 					end, err = recovery.FindEnd(reader, o.pipes, int(lastIndexedRecord), int(lastIndexedBlock))
+					tail = roundUpToBlock(end)
 				}
 
 				if err == nil {
-					torn, err = recovery.HasTornBlock(reader)
+					torn, err = recovery.HasTornTail(reader, tail)
 				}
 			}
 
@@ -144,7 +146,9 @@ func (o *Operations) getWriter(lastIndexedRecord, lastIndexedBlock int64, overwr
 		start = roundUpToBlock(size)
 
 		if torn {
-			filler = 0xff // Filling up a torn header with zeros could complete it
+			// Filling up a torn header with zeros could complete it, and if a PAX header is complete, but what it belongs to is missing, then it would apply to what comes next
+			filler = 0xff
+			start += config.MagneticTapeBlockSize
 		}
 	}
 
diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index 01e7bb2..e60e557 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -171,23 +171,36 @@ func FindEnd(
 	})
 }
 
-// HasTornBlock returns true if there is a part of a block, which contains anything but zeros, at the end of a regular drive
-func HasTornBlock(reader config.DriveReaderConfig) (bool, error) {
-	size, err := reader.Drive.Seek(0, io.SeekEnd)
-	if err != nil {
-		return false, err
-	}
+// HasTornTail returns true if there is anything but zeros at the end of a regular drive, after `end` or, if it is -1, in the last, incomplete block
+func HasTornTail(reader config.DriveReaderConfig, end int64) (bool, error) {
+	if end < 0 {
+		size, err := reader.Drive.Seek(0, io.SeekEnd)
+		if err != nil {
+			return false, err
+		}
 
-	block := make([]byte, size%config.MagneticTapeBlockSize)
-	if _, err := reader.Drive.Seek(-int64(len(block)), io.SeekEnd); err != nil {
-		return false, err
+		end = size - size%config.MagneticTapeBlockSize
 	}
 
-	if _, err := io.ReadFull(reader.Drive, block); err != nil {
+	if _, err := reader.Drive.Seek(end, io.SeekStart); err != nil {
 		return false, err
 	}
 
-	return len(bytes.Trim(block, "\x00")) > 0, nil
+	block := make([]byte, config.MagneticTapeBlockSize)
+	for {
+		n, err := reader.Drive.Read(block)
+		if len(bytes.Trim(block[:n], "\x00")) > 0 {
+			return true, nil
+		}
+
+		if err == io.EOF {
+			return false, nil
+		}
+
+		if err != nil {
+			return false, err
+		}
+	}
 }
 
 // scan calls `onRecord` for each record on a regular drive and returns where the last record, including its content, ends if it is complete
-- 
2.43.0


From 76ae705188b6602d1b90ce84a7554e148d4e47fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 49/49] fix: refuse names with NUL, which can neither be
 written to tar headers nor be queried from the index

---
 pkg/fs/filesystem.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 181ea79..829f95c 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -348,6 +348,10 @@ func (f *STFS) Mkdir(name string, perm os.FileMode) error {
 		return os.ErrPermission
 	}
 
+	if hasNUL(name) {
+		return os.ErrInvalid
+	}
+
 	name = cleanName(name)
 
 	f.ioLock.Lock()
@@ -392,6 +396,10 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 		return os.ErrPermission
 	}
 
+	if hasNUL(path) {
+		return os.ErrInvalid
+	}
+
 	path = cleanName(path)
 
 	f.ioLock.Lock()
@@ -1376,7 +1384,12 @@ func (f *STFS) ReadlinkIfPossible(name string) (string, error) {
 }
 
 func checkName(name string) bool {
-	return len(name) == 0
+	return len(name) == 0 || hasNUL(name)
+}
+
+// hasNUL returns true if the name can neither be written to a tar header nor be queried from the index
+func hasNUL(name string) bool {
+	return strings.ContainsRune(name, 0)
 }
 
 func (f *STFS) resolveCleanName(name string, aliasRoot bool) (string, error) {
-- 
2.43.0

