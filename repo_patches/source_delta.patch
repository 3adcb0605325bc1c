From fe63afce3201572d0e0a8895f2d5c85f59849a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 01/50] fix: run the threaded queue when hardware_concurrency()
 is unknown

std::thread::hardware_concurrency() returns 0 when the value is not
computable; the queue then had no slots and spun forever.
---
 datas/multi_thread.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datas/multi_thread.hpp b/datas/multi_thread.hpp
index b31be1a..59139f4 100644
--- a/datas/multi_thread.hpp
+++ b/datas/multi_thread.hpp
@@ -23,7 +23,9 @@
 #include <thread>
 
 template <class lmBody> void RunThreadedQueue(size_t numTasks, lmBody &&fc) {
-  const size_t numHWThreads = std::thread::hardware_concurrency();
+  // hardware_concurrency() may return 0 if it is not computable
+  const size_t numHWThreads =
+      std::max(std::thread::hardware_concurrency(), 1u);
   const size_t numThreads = std::min(numHWThreads, numTasks);
   size_t curTask = 0;
   using future_type = std::future<decltype(fc(size_t()))>;
-- 
2.43.0


From d2576352fa00eaa00a303e94f3db895378a74448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 02/50] fix: register log sinks and toggle thread ids under the
 print mutex

---
 datas/master_printer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datas/master_printer.cpp b/datas/master_printer.cpp
index 0a06803..3ae3d93 100644
--- a/datas/master_printer.cpp
+++ b/datas/master_printer.cpp
@@ -52,6 +52,8 @@ static struct MasterPrinter {
 #endif
 
 void MasterPrinterThread::AddPrinterFunction(print_func func, bool useColor) {
+  std::lock_guard<std::mutex> guard(__MasterPrinter._mutexPrint);
+
   for (auto &c : __MasterPrinter.functions)
     if (c.func == func)
       return;
@@ -118,5 +120,6 @@ void MasterPrinterThread::operator>>(int endWay) {
 }
 
 void MasterPrinterThread::PrintThreadID(bool yn) {
+  std::lock_guard<std::mutex> guard(__MasterPrinter._mutexPrint);
   __MasterPrinter.printThreadID = yn;
 }
-- 
2.43.0


From dd869802f61d8284356649c7ab87b4d7421709e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 03/50] fix: flush a log message safely when memory runs out or
 a sink throws

---
 datas/master_printer.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/datas/master_printer.cpp b/datas/master_printer.cpp
index 3ae3d93..c8765e1 100644
--- a/datas/master_printer.cpp
+++ b/datas/master_printer.cpp
@@ -17,7 +17,9 @@
 
 #include "flags.hpp"
 #include "master_printer.hpp"
+#include <memory>
 #include <mutex>
+#include <new>
 #include <thread>
 #include <vector>
 
@@ -65,9 +67,10 @@ void MasterPrinterThread::FlushAll() {
 
   _masterstream.seekp(0);
 
-  char *tempOut = static_cast<char *>(malloc(buffsize));
+  const std::unique_ptr<char[]> tempOut(new (std::nothrow) char[buffsize]());
 
-  _masterstream.read(tempOut, buffsize);
+  if (tempOut)
+    _masterstream.read(tempOut.get(), buffsize - 1);
 
   if (buffsize > static_cast<size_t>(maximumStreamSize))
     _masterstream.str("");
@@ -75,6 +78,13 @@ void MasterPrinterThread::FlushAll() {
   _masterstream.clear();
   _masterstream.seekg(0);
 
+  // Printer function can throw, severity must not stay for the next message
+  const MPType msgType = cType;
+  cType = MPType::MSG;
+
+  if (!tempOut)
+    throw std::bad_alloc();
+
   std::lock_guard<std::mutex> guard(__MasterPrinter._mutexPrint);
 
   for (auto &fc : __MasterPrinter.functions) {
@@ -88,27 +98,24 @@ void MasterPrinterThread::FlushAll() {
     }
 
     if (fc.useColor) {
-      if (cType == MPType::WRN) {
+      if (msgType == MPType::WRN) {
         SetConsoleTextColor(255, 255, 0);
-      } else if (cType == MPType::ERR) {
+      } else if (msgType == MPType::ERR) {
         SetConsoleTextColor(255, 0, 0);
       }
     }
 
-    if (cType == MPType::WRN) {
+    if (msgType == MPType::WRN) {
       fc.func("WARNING: ");
-    } else if (cType == MPType::ERR) {
+    } else if (msgType == MPType::ERR) {
       fc.func("ERROR: ");
     }
 
-    fc.func(tempOut);
+    fc.func(tempOut.get());
 
-    if (fc.useColor && cType != MPType::MSG)
+    if (fc.useColor && msgType != MPType::MSG)
       RestoreConsoleTextColor();
   }
-
-  cType = MPType::MSG;
-  free(tempOut);
 }
 
 void MasterPrinterThread::operator>>(int endWay) {
-- 
2.43.0


From a284f9573bf225de77df1f75c33f3c1e4ab02f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 04/50] fix: a failed insertion must not lose or leak log
 message text

---
 datas/master_printer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datas/master_printer.cpp b/datas/master_printer.cpp
index c8765e1..36f1a8d 100644
--- a/datas/master_printer.cpp
+++ b/datas/master_printer.cpp
@@ -63,6 +63,9 @@ void MasterPrinterThread::AddPrinterFunction(print_func func, bool useColor) {
 }
 
 void MasterPrinterThread::FlushAll() {
+  // Previous insertion could leave stream in a failed state
+  _masterstream.clear();
+
   const size_t buffsize = static_cast<size_t>(_masterstream.tellp()) + 1;
 
   _masterstream.seekp(0);
@@ -119,6 +122,8 @@ void MasterPrinterThread::FlushAll() {
 }
 
 void MasterPrinterThread::operator>>(int endWay) {
+  _masterstream.clear();
+
   if (endWay)
     _masterstream << std::endl;
 
-- 
2.43.0


From 24850da24a6ba4dee7b13f30bad6ddac2352d734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 05/50] fix: a moved archive file's reader must follow its
 buffer

---
 datas/zip_vfs.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index f8ebbae..55b0331 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -28,6 +28,21 @@ struct ZIPVFSFile {
   operator BinReaderRef() const { return reader; }
 
   ZIPVFSFile(std::string &&str) : buffer(str), reader(buffer){};
+  // reader must follow moved buffer
+  ZIPVFSFile(ZIPVFSFile &&other)
+      : buffer(std::move(other.buffer)), reader(Rebind(other.reader, buffer)) {}
+  ZIPVFSFile &operator=(ZIPVFSFile &&other) {
+    buffer = std::move(other.buffer);
+    reader = Rebind(other.reader, buffer);
+    return *this;
+  }
+
+private:
+  struct Rebind : BinReaderRef {
+    Rebind(const BinReaderRef &rd, std::istream &stream) : BinReaderRef(rd) {
+      baseStream = &stream;
+    }
+  };
 };
 
 class ZIPVFS : std::map<std::string, std::pair<size_t, size_t>> {
-- 
2.43.0


From 3fcd6640b980ef939b345ba871dc59992f290a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 06/50] fix: encode large negative variable-length integers
 within nine bytes

---
 datas/base_128.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/base_128.hpp b/datas/base_128.hpp
index 176d946..b5fa3c3 100644
--- a/datas/base_128.hpp
+++ b/datas/base_128.hpp
@@ -54,8 +54,8 @@ struct bint128 {
 
   void Write(BinWritterRef wr) const {
     // there shouldn't be a sign flag for values lower than
-    // -72'057'594'037'927'936
-    bool sign = value < 0 && !(~(value >> 56));
+    // -36'028'797'018'963'968
+    bool sign = value < 0 && !(~(value >> 55));
     uint64 valueCopy = sign ? ~value : value;
     uint8 lastValue = 0;
     size_t lastIndex = 0;
@@ -64,7 +64,7 @@ struct bint128 {
       lastValue = static_cast<uint8>(valueCopy);
       valueCopy >>= 7;
 
-      if (!valueCopy) {
+      if (!valueCopy || lastIndex == 8) {
         break;
       }
 
-- 
2.43.0


From 487d8b6fcab98305846b05363a009eda39df7abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 07/50] fix: decode nothing from a variable-length integer that
 cannot be read

---
 datas/base_128.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/base_128.hpp b/datas/base_128.hpp
index b5fa3c3..539a0bc 100644
--- a/datas/base_128.hpp
+++ b/datas/base_128.hpp
@@ -30,7 +30,7 @@ struct bint128 {
   int64 Read(BinReaderRef rd) {
     value = 0;
     for (size_t id = 0; id < 9; id++) {
-      uint8 cNum;
+      uint8 cNum = 0;
       rd.Read(cNum);
 
       if (id < 8) {
@@ -97,7 +97,7 @@ struct buint128 {
   uint64 Read(BinReaderRef rd) {
     value = 0;
     for (size_t id = 0; id < 9; id++) {
-      uint8 cNum;
+      uint8 cNum = 0;
       rd.Read(cNum);
 
       if (id == 8) {
-- 
2.43.0


From 40ab94cfb4c8a9e59aa0350d33472977001077bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 08/50] fix: a container whose item count cannot be read is
 empty

---
 datas/binreader_ref.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/binreader_ref.hpp b/datas/binreader_ref.hpp
index c8c0803..cf4c8d3 100644
--- a/datas/binreader_ref.hpp
+++ b/datas/binreader_ref.hpp
@@ -54,7 +54,7 @@ public:
   // input -> must have resize(), operator[], value_type, begin(), end()
   template <class _countType = uint32, class _containerClass>
   void ReadContainer(_containerClass &input) const {
-    _countType numElements;
+    _countType numElements{};
     Read(numElements);
     ReadContainer(input, numElements);
   }
@@ -86,7 +86,7 @@ public:
   // func -> lambda with (BinReaderRef, <element type>), no return
   template <class _countType = uint32, class _containerClass, class _func>
   void ReadContainerLambda(_containerClass &input, _func func) const {
-    _countType numElements;
+    _countType numElements{};
     Read(numElements);
     ReadContainerLambda(input, numElements, func);
   }
-- 
2.43.0


From cfc8ec71a3a9e655faf483f500a67be648d07637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 09/50] fix: end a string read when the stream fails

---
 datas/binreader_ref.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/datas/binreader_ref.hpp b/datas/binreader_ref.hpp
index cf4c8d3..9cec67c 100644
--- a/datas/binreader_ref.hpp
+++ b/datas/binreader_ref.hpp
@@ -94,10 +94,13 @@ public:
   // Will read buffer until 0
   template <class _containerClass>
   void ReadString(_containerClass &input) const {
-    typename _containerClass::value_type tmp;
+    typename _containerClass::value_type tmp{};
 
-    while ((Read(tmp), tmp) != 0 && !this->IsEOF())
+    while ((Read(tmp), tmp) != 0 && !this->IsEOF()) {
       input.push_back(tmp);
+      // a failed read must not repeat last character
+      tmp = {};
+    }
   }
 
   template <typename T, size_t _size> void Read(T (&value)[_size]) const {
-- 
2.43.0


From 9700f66f9496fc6bcd6c07dc8ea3ccf621986fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 10/50] fix: a moved file reader or writer must use its own
 stream

---
 datas/binreader.hpp  | 8 +++++++-
 datas/binwritter.hpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/datas/binreader.hpp b/datas/binreader.hpp
index 3ef4984..4956e39 100644
--- a/datas/binreader.hpp
+++ b/datas/binreader.hpp
@@ -37,7 +37,13 @@ public:
   }
   BinReader(const char *filePath) { OpenFile(filePath); }
   BinReader(const BinReader &) = delete;
-  BinReader(BinReader &&) = default;
+  // baseStream must follow moved FileStream
+  BinReader(BinReader &&other)
+      : BinReaderRef(other), BinStreamFile(std::move(other)) {
+    if (this->baseStream) {
+      this->baseStream = &this->FileStream;
+    }
+  }
   BinReader &operator=(const BinReader &other) = delete;
 
   void Open(const std::string &filePath) { OpenFile(filePath); }
diff --git a/datas/binwritter.hpp b/datas/binwritter.hpp
index 155b74b..16481e9 100644
--- a/datas/binwritter.hpp
+++ b/datas/binwritter.hpp
@@ -38,7 +38,13 @@ public:
   BinWritter(const char *filePath) { OpenFile(filePath); }
 
   BinWritter(const BinWritter &rd) = delete;
-  BinWritter(BinWritter &&) = default;
+  // baseStream must follow moved FileStream
+  BinWritter(BinWritter &&other)
+      : BinWritterRef(other), BinStreamFile(std::move(other)) {
+    if (this->baseStream) {
+      this->baseStream = &this->FileStream;
+    }
+  }
   BinWritter &operator=(const BinWritter &other) = delete;
 
   void Open(const std::string &filePath) { OpenFile(filePath); }
-- 
2.43.0


From 1b05d6b109d3d329e5faf3579514a05d9a5db991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 11/50] fix: scan folders on file systems without entry types

---
 datas/directory_scanner.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/datas/directory_scanner.cpp b/datas/directory_scanner.cpp
index 5b41e83..a663c12 100644
--- a/datas/directory_scanner.cpp
+++ b/datas/directory_scanner.cpp
@@ -20,6 +20,7 @@
 
 #if defined(__GNUC__) || defined(__GNUG__)
 #include <dirent.h>
+#include <sys/stat.h>
 #else
 #include <windows.h>
 #endif
@@ -71,7 +72,16 @@ void DirectoryScanner::Scan(std::string dir) {
     subFile.pop_back();
     subFile += miniFile;
 
-    if (cFile->d_type == DT_DIR) {
+    bool isDirectory = cFile->d_type == DT_DIR;
+
+    // not every file system provides entry type
+    if (cFile->d_type == DT_UNKNOWN) {
+      struct stat fileStat;
+      isDirectory =
+          !lstat(subFile.data(), &fileStat) && S_ISDIR(fileStat.st_mode);
+    }
+
+    if (isDirectory) {
       Scan(subFile);
     } else if (IsFilteredFile(miniFile)) {
       files.push_back(subFile);
-- 
2.43.0


From cab01cd25b9f811aaad5b73d1063f03186f443ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 12/50] fix: sockets and block devices are no directories

---
 datas/internal/stat_ix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/internal/stat_ix.inl b/datas/internal/stat_ix.inl
index d762f3a..870a8be 100644
--- a/datas/internal/stat_ix.inl
+++ b/datas/internal/stat_ix.inl
@@ -20,9 +20,9 @@
 FileType_e FileType(const std::string &path) {
   struct stat s;
   if (!stat(path.data(), &s)) {
-    if (s.st_mode & S_IFDIR) {
+    if (S_ISDIR(s.st_mode)) {
       return FileType_e::Directory;
-    } else if (s.st_mode & S_IFREG) {
+    } else if (S_ISREG(s.st_mode)) {
       return FileType_e::File;
     } else {
       return FileType_e::Invalid;
-- 
2.43.0


From 9a57a818cafe4e0eb089efd0fc0c34f572910914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 13/50] fix: skip ZIP entries of 2 GiB and more

---
 datas/zip_vfs.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index 55b0331..7b730bd 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -76,6 +76,9 @@ private:
   BinReaderRef rd;
   mutable std::mutex rdMutex;
 
+  // sizes within archive are unsigned, might not fit into int
+  void Skip(size_t length) { rd.Seek(length, std::ios_base::cur); }
+
   void ReadEntry() {
     uint32 id;
     rd.Push();
@@ -89,7 +92,8 @@ private:
 
       [&] {
         if (!hdr.compressedSize) {
-          rd.Skip(hdr.fileNameSize + hdr.extraFieldSize + hdr.uncompressedSize);
+          Skip(size_t(hdr.fileNameSize) + hdr.extraFieldSize +
+               hdr.uncompressedSize);
           return;
         }
 
@@ -107,9 +111,9 @@ private:
 
         std::string path;
         rd.ReadContainer(path, hdr.fileNameSize);
-        rd.Skip(hdr.extraFieldSize);
+        Skip(hdr.extraFieldSize);
         emplace(std::move(path), std::make_pair(rd.Tell(), hdr.compressedSize));
-        rd.Skip(hdr.compressedSize);
+        Skip(hdr.compressedSize);
       }();
       break;
     }
@@ -117,14 +121,14 @@ private:
     case ZIPFile::ID: {
       ZIPFile hdr;
       rd.Read(hdr);
-      rd.Skip(hdr.fileNameSize + hdr.extraFieldSize + hdr.fileCommentSize);
+      Skip(hdr.fileNameSize + hdr.extraFieldSize + hdr.fileCommentSize);
       break;
     };
 
     case ZIPCentralDir::ID: {
       ZIPCentralDir hdr;
       rd.Read(hdr);
-      rd.Skip(hdr.commentSize);
+      Skip(hdr.commentSize);
       break;
     }
 
@@ -143,14 +147,14 @@ private:
     case ZIPSignature::ID: {
       ZIPSignature hdr;
       rd.Read(hdr);
-      rd.Skip(hdr.dataSize);
+      Skip(hdr.dataSize);
       break;
     }
 
     case ZIPExtraData::ID: {
       ZIPExtraData hdr;
       rd.Read(hdr);
-      rd.Skip(hdr.dataSize);
+      Skip(hdr.dataSize);
       break;
     }
 
-- 
2.43.0


From 5f60187086999b1845be6220c0bb72476464583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 14/50] fix: ZIPVFS reports truncated archives and read
 failures

---
 datas/binreader_stream.hpp |  2 ++
 datas/zip_vfs.hpp          | 41 +++++++++++++++++++++++++++++---------
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/datas/binreader_stream.hpp b/datas/binreader_stream.hpp
index fba417f..b0bbe37 100644
--- a/datas/binreader_stream.hpp
+++ b/datas/binreader_stream.hpp
@@ -50,6 +50,8 @@ public:
   void Read(char *buffer, size_t size) const { baseStream->read(buffer, size); }
 
   bool IsEOF() const { return baseStream->eof(); }
+
+  bool Fail() const { return baseStream->fail(); }
 };
 
 typedef BinReaderRef_t<BinStreamInTraits> BinReaderRef;
diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index 7b730bd..89cbb20 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -16,6 +16,7 @@
 */
 
 #pragma once
+#include "except.hpp"
 #include "formats/ZIP_istream.inl"
 #include <map>
 #include <mutex>
@@ -62,6 +63,7 @@ public:
     std::lock_guard<std::mutex> guard(rdMutex);
     rd.Seek(value.first);
     rd.ReadContainer(holder, value.second);
+    Check();
     ZIPVFSFile retVal(std::move(holder));
     return retVal;
   }
@@ -76,19 +78,33 @@ private:
   BinReaderRef rd;
   mutable std::mutex rdMutex;
 
+  void Check() const {
+    if (rd.Fail()) {
+      throw es::UnexpectedEOS();
+    }
+  }
+
+  template <class C> void ReadHeader(C &hdr) {
+    rd.Read(hdr);
+    Check();
+  }
+
   // sizes within archive are unsigned, might not fit into int
-  void Skip(size_t length) { rd.Seek(length, std::ios_base::cur); }
+  void Skip(size_t length) {
+    rd.Seek(length, std::ios_base::cur);
+    Check();
+  }
 
   void ReadEntry() {
     uint32 id;
     rd.Push();
-    rd.Read(id);
+    ReadHeader(id);
     rd.Pop();
 
     switch (id) {
     case ZIPLocalFile::ID: {
       ZIPLocalFile hdr;
-      rd.Read(hdr);
+      ReadHeader(hdr);
 
       [&] {
         if (!hdr.compressedSize) {
@@ -111,6 +127,7 @@ private:
 
         std::string path;
         rd.ReadContainer(path, hdr.fileNameSize);
+        Check();
         Skip(hdr.extraFieldSize);
         emplace(std::move(path), std::make_pair(rd.Tell(), hdr.compressedSize));
         Skip(hdr.compressedSize);
@@ -120,40 +137,40 @@ private:
 
     case ZIPFile::ID: {
       ZIPFile hdr;
-      rd.Read(hdr);
+      ReadHeader(hdr);
       Skip(hdr.fileNameSize + hdr.extraFieldSize + hdr.fileCommentSize);
       break;
     };
 
     case ZIPCentralDir::ID: {
       ZIPCentralDir hdr;
-      rd.Read(hdr);
+      ReadHeader(hdr);
       Skip(hdr.commentSize);
       break;
     }
 
     case ZIP64CentralDir::ID: {
       ZIP64CentralDir hdr;
-      rd.Read(hdr);
+      ReadHeader(hdr);
       break;
     }
 
     case ZIP64CentralDirLocator::ID: {
       ZIP64CentralDirLocator hdr;
-      rd.Read(hdr);
+      ReadHeader(hdr);
       break;
     }
 
     case ZIPSignature::ID: {
       ZIPSignature hdr;
-      rd.Read(hdr);
+      ReadHeader(hdr);
       Skip(hdr.dataSize);
       break;
     }
 
     case ZIPExtraData::ID: {
       ZIPExtraData hdr;
-      rd.Read(hdr);
+      ReadHeader(hdr);
       Skip(hdr.dataSize);
       break;
     }
@@ -167,8 +184,14 @@ private:
 
   void Read() {
     const size_t fileSize = rd.GetSize();
+    Check();
     while (rd.Tell() < fileSize) {
       ReadEntry();
     }
+
+    Check();
+    if (rd.Tell() != fileSize) {
+      throw es::UnexpectedEOS();
+    }
   }
 };
-- 
2.43.0


From 480cdc0f1f35cd79c4882e0b674869a13e8cfdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 15/50] fix: ReflectorBinUtil::Save keeps endianness for
 members

---
 datas/reflector_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index d142d75..d8bdcfb 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -503,6 +503,7 @@ static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
   std::stringstream tmpClassBuffer;
 
   BinWritterRef wrTmpClass(tmpClassBuffer);
+  wrTmpClass.SwapEndian(wr.SwappedEndian());
   wrTmpClass.Write(numItems);
 
   for (size_t i = 0; i < numItems; i++) {
@@ -510,6 +511,7 @@ static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
 
     std::stringstream tmpValueBuffer;
     BinWritterRef wrTmp(tmpValueBuffer);
+    wrTmp.SwapEndian(wr.SwappedEndian());
 
     int rVal = WriteDataItem(ri, wrTmp, thisAddr + refData->types[i].offset,
                              refData->types[i]);
-- 
2.43.0


From 608489b64a1576513ce711dea937847402bab099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 16/50] fix: ReflectorBinUtil::Save looks nested members up in
 their own class

---
 datas/reflector_io.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index d8bdcfb..ab47aca 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -422,8 +422,7 @@ public:
   using Reflector::GetReflectedType;
 };
 
-static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
-                     BinWritterRef wr);
+static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr);
 
 static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
                          const char *objAddr, reflType type) {
@@ -488,15 +487,14 @@ static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
   case REFType::Class: {
     auto sri = static_cast<ReflectedInstanceFriend &&>(
         ri.GetReflectedSubClass(type.ID, type.numItems));
-    return SaveClass(ri, sri, wr);
+    return SaveClass(sri, wr);
   }
   default:
     return 1;
   }
 }
 
-static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
-                     BinWritterRef wr) {
+static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr) {
   auto refData = inst.Refl();
   const buint128 numItems = refData->nTypes;
   const char *thisAddr = static_cast<const char *>(inst.Instance());
@@ -513,6 +511,8 @@ static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
     BinWritterRef wrTmp(tmpValueBuffer);
     wrTmp.SwapEndian(wr.SwappedEndian());
 
+    // members are looked up within class they belong to
+    ReflectorPureWrap ri(inst);
     int rVal = WriteDataItem(ri, wrTmp, thisAddr + refData->types[i].offset,
                              refData->types[i]);
 
@@ -537,7 +537,7 @@ int ReflectorBinUtil::Save(const Reflector &ri, BinWritterRef wr) {
 
   wr.Write(refData->classHash);
 
-  return SaveClass(ri, inst, wr);
+  return SaveClass(inst, wr);
 }
 
 static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd);
-- 
2.43.0


From 9508ff01aea812899bcc25303db696bd23b1b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 17/50] fix: ReflectorBinUtil reports stream failures and
 nested errors

---
 datas/binwritter_stream.hpp |  2 ++
 datas/reflector_io.cpp      | 28 +++++++++++++++++++++++++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/datas/binwritter_stream.hpp b/datas/binwritter_stream.hpp
index 8bde3dd..6e2794b 100644
--- a/datas/binwritter_stream.hpp
+++ b/datas/binwritter_stream.hpp
@@ -59,6 +59,8 @@ public:
   }
 
   bool IsEOF() const { return baseStream->eof(); }
+
+  bool Fail() const { return baseStream->fail(); }
 };
 
 typedef BinWritterRef_t<BinStreamOutTraits> BinWritterRef;
diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index ab47aca..aace224 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -519,10 +519,16 @@ static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr) {
     if (rVal)
       return rVal;
 
+    if (wrTmp.Fail())
+      return 3;
+
     const auto sVarBuffer = tmpValueBuffer.str();
     wrTmpClass.WriteContainerWCount<buint128>(sVarBuffer);
   }
 
+  if (wrTmpClass.Fail())
+    return 3;
+
   const auto sClassBuffer = tmpClassBuffer.str();
   wr.WriteContainerWCount<buint128>(sClassBuffer);
 
@@ -537,7 +543,9 @@ int ReflectorBinUtil::Save(const Reflector &ri, BinWritterRef wr) {
 
   wr.Write(refData->classHash);
 
-  return SaveClass(inst, wr);
+  const int rVal = SaveClass(inst, wr);
+
+  return rVal || !wr.Fail() ? rVal : 3;
 }
 
 static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd);
@@ -620,6 +628,10 @@ static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd) {
   buint128 numIOItems;
   rd.Read(numIOItems);
 
+  if (rd.Fail()) {
+    return 3;
+  }
+
   if (numIOItems != numItems) {
     rd.Pop();
     rd.Skip(chunkSize);
@@ -636,6 +648,10 @@ static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd) {
     rd.Read(valueChunkSize);
     rd.Push();
 
+    if (rd.Fail()) {
+      return 3;
+    }
+
     ReflectorPureWrap ri(inst);
     auto &&rif = static_cast<ReflectorFriend &>(static_cast<Reflector &>(ri));
     const reflType *cType = rif.GetReflectedType(valueNameHash);
@@ -646,9 +662,15 @@ static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd) {
       continue;
     }
 
-    errType = LoadDataItem(ri, rf, thisAddr + cType->offset, *cType);
+    const int itemErr =
+        LoadDataItem(ri, rf, thisAddr + cType->offset, *cType);
+
+    if (rd.Fail()) {
+      return 3;
+    }
 
-    if (errType) {
+    if (itemErr) {
+      errType = itemErr;
       rd.Pop();
       rd.Skip(valueChunkSize);
     }
-- 
2.43.0


From a946c9bfa026e8f9c7d9bfa9065c1f089f86bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 18/50] fix: ReflectorIO stores alias hashes

---
 datas/reflector_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index aace224..1b7f010 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -148,7 +148,7 @@ int ReflectorIO::Load(BinReaderRef rd) {
     }
 
     if (itemIO->aliassesHashesPtr) {
-      itemPtrsBegin[3] = bufferStart + itemIO->aliassesHashesPtr;
+      itemPtrsBegin[4] = bufferStart + itemIO->aliassesHashesPtr;
     } else {
       itemPtrsBegin[4] = 0;
     }
@@ -405,6 +405,7 @@ int ReflectorIO::Save(BinWritterRef wr) {
   classnamesFixups.WriteFixups();
   aliasesFixups.WriteFixups();
   descsFixups.WriteFixups();
+  aliasHashesFixups.WriteFixups();
   wr.Seek(0, std::ios_base::end);
 
   return 0;
-- 
2.43.0


From f81a0ce9c15fe1ea41422d1f5e030bbc559e0a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 19/50] fix: ReflectorIO::Load replaces previous content
 instead of relocating it

---
 datas/reflector_io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 1b7f010..2c3e2fa 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -93,6 +93,10 @@ int ReflectorIO::Load(BinReaderRef rd) {
   if (hdr.version > hdr.VERSION)
     return 2;
 
+  // everything loaded before points into the buffer, anything else isn't ours to
+  // fix up
+  classes.clear();
+  enums.clear();
   rd.ReadContainer(data, hdr.bufferSize);
 
   const reflectorStatic *classesStart =
-- 
2.43.0


From 0e7746e640afc9f0d06e609aa9a921b216b344fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 20/50] fix: ReflectorIO::Save writes header where it belongs

---
 datas/reflector_io.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 2c3e2fa..723ee71 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -217,7 +217,10 @@ int ReflectorIO::Save(BinWritterRef wr) {
   ReflectorIOHeader hdr;
   hdr.numClasses = static_cast<uint32>(classes.size());
   hdr.numEnums = static_cast<uint32>(enums.size());
+  const BinWritterRef hdrWr(wr);
+  const size_t hdrPos = wr.Tell();
   wr.Write(hdr);
+  wr.ResetRelativeOrigin(false);
   wr.SetRelativeOrigin(wr.Tell(), false);
 
   Fixups itemFixups(wr);
@@ -402,8 +405,8 @@ int ReflectorIO::Save(BinWritterRef wr) {
   }
 
   hdr.bufferSize = static_cast<uint32>(wr.Tell());
-  wr.ResetRelativeOrigin();
-  wr.Write(hdr);
+  hdrWr.Seek(hdrPos);
+  hdrWr.Write(hdr);
   itemFixups.WriteFixups();
   itemStringsFixups.WriteFixups();
   classnamesFixups.WriteFixups();
-- 
2.43.0


From c4576364e777e5fcd6b86b0e4a40e5bcedebd246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 21/50] fix: ReflectorIO reports truncated databases and stream
 failures

---
 datas/reflector_io.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 723ee71..26063f4 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -87,6 +87,9 @@ int ReflectorIO::Load(BinReaderRef rd) {
 
   rd.Read(hdr);
 
+  if (rd.Fail())
+    return 3;
+
   if (hdr.id != hdr.ID)
     return 1;
 
@@ -99,6 +102,9 @@ int ReflectorIO::Load(BinReaderRef rd) {
   enums.clear();
   rd.ReadContainer(data, hdr.bufferSize);
 
+  if (rd.Fail())
+    return 3;
+
   const reflectorStatic *classesStart =
       reinterpret_cast<const reflectorStatic *>(data.data());
 
@@ -415,7 +421,7 @@ int ReflectorIO::Save(BinWritterRef wr) {
   aliasHashesFixups.WriteFixups();
   wr.Seek(0, std::ios_base::end);
 
-  return 0;
+  return wr.Fail() ? 3 : 0;
 }
 
 struct ReflectedInstanceFriend : ReflectedInstance {
-- 
2.43.0


From fe1b5cd9fc6c446c61902ae8c3b1dd3d2e13c6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 22/50] fix: XML saving stores values as text instead of
 parsing them as markup

---
 datas/reflector_xml.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 2ffaea4..328de6f 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -26,6 +26,13 @@ struct ReflectedInstanceFriend : ReflectedInstance {
   const reflectorStatic *Refl() const { return rfStatic; }
 };
 
+// Values are character data: markup within them must not be parsed.
+static void SetText(pugi::xml_node node, const std::string &value) {
+  if (!value.empty()) {
+    node.text().set(value.c_str());
+  }
+}
+
 class ReflectorFriend : public Reflector {
 public:
   using Reflector::GetReflectedInstance;
@@ -150,7 +157,7 @@ pugi::xml_node ReflectorXMLUtil::Save(const Reflector &ri, pugi::xml_node node,
       }
     } else {
       std::string str = ri.GetReflectedValue(t);
-      cNode.append_buffer(str.c_str(), str.size());
+      SetText(cNode, str);
     }
   }
 
@@ -259,14 +266,14 @@ pugi::xml_node ReflectorXMLUtil::SaveV2a(const Reflector &ri,
       default: {
         pugi::xml_node cNode = thisNode.append_child(varName.c_str());
         std::string str = ri.GetReflectedValue(t);
-        cNode.append_buffer(str.c_str(), str.size());
+        SetText(cNode, str);
         break;
       }
       }
     } else {
       pugi::xml_node cNode = thisNode.append_child(varName.c_str());
       std::string str = ri.GetReflectedValue(t);
-      cNode.append_buffer(str.c_str(), str.size());
+      SetText(cNode, str);
     }
   }
 
-- 
2.43.0


From baa9e00e5ac4fa162d9dc8fb35752f6023a502be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 23/50] fix: array members of nameless classes keep their index
 in XML

---
 datas/reflector_xml.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 328de6f..b2a9255 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -117,9 +117,10 @@ static std::string GetName(const Reflector &ri, const reflectorStatic *stat,
   if (ri.UseNames()) {
     varName = stat->typeNames[t];
   } else {
-    varName.resize(15);
+    char buffer[15];
     const auto cHash = cType.valueNameHash.raw();
-    snprintf(&varName[0], 15, "h:%X", cHash);
+    snprintf(buffer, sizeof(buffer), "h:%X", cHash);
+    varName = buffer;
   }
 
   return varName;
-- 
2.43.0


From 727113e09a56d63a830237bf11fb27f993ecab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 24/50] fix: text access to bit field members

Negative values of signed members were clamped to all ones, members of 31 or
more bits had wrong limits, values were not masked and eight bytes were
accessed whatever the size of the storage.
---
 datas/reflector.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 1ef44b2..1ace0b9 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -105,10 +105,13 @@ template <class type> struct LimitProxy<BFTag<type>> {
   const int64 iMin;
 
   LimitProxy(size_t numBits_)
-      : numBits(numBits_), uMax((1 << numBits) - 1), iMax(uMax >> 1),
+      : numBits(numBits_), uMax(~0ULL >> (64 - numBits)), iMax(uMax >> 1),
         iMin(~iMax) {}
 };
 
+template <class T> struct IsSigned : std::is_signed<T> {};
+template <class T> struct IsSigned<BFTag<T>> : std::is_signed<T> {};
+
 template <typename T>
 static Reflector::ErrorType SetNumber(const std::string &input, T &output,
                                       std::true_type,
@@ -117,7 +120,7 @@ static Reflector::ErrorType SetNumber(const std::string &input, T &output,
   const int base =
       !input.compare(0, 2, "0x") || !input.compare(0, 3, "-0x") ? 16 : 10;
 
-  if (std::is_signed<T>::value) {
+  if (IsSigned<T>::value) {
     int64 value = 0;
     const int64 iMin = proxy.iMin;
     const int64 iMax = proxy.iMax;
@@ -454,7 +457,10 @@ SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr) {
     }
   }
   case REFType::BitFieldMember: {
-    uint64 &output = *reinterpret_cast<uint64 *>(objAddr);
+    // Storage can be smaller than 64 bits, only touch what member occupies
+    const size_t numBytes = (reflValue.offset + reflValue.subSize + 7) / 8;
+    uint64 output = 0;
+    memcpy(&output, objAddr, numBytes);
     auto doStuff = [&](auto &&insertVal) {
       LimitProxy<typename std::remove_reference<decltype(insertVal)>::type>
           proxy{reflValue.subSize};
@@ -464,7 +470,9 @@ SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr) {
       bfMember.position = reflValue.offset;
       auto mask = bfMember.GetMask<uint64>();
       output &= ~mask;
-      output |= insertVal.value << reflValue.offset;
+      output |=
+          (static_cast<uint64>(insertVal.value) << reflValue.offset) & mask;
+      memcpy(objAddr, &output, numBytes);
       return err;
     };
 
@@ -794,7 +802,8 @@ static std::string GetReflectedPrimitive(const char *objAddr, reflType type) {
     return _tmpBuffer;
   }
   case REFType::BitFieldMember: {
-    uint64 output = *reinterpret_cast<const uint64 *>(objAddr);
+    uint64 output = 0;
+    memcpy(&output, objAddr, (type.offset + type.subSize + 7) / 8);
     BitMember bfMember;
     bfMember.size = type.subSize;
     bfMember.position = type.offset;
-- 
2.43.0


From ab1b359c445bf30144a04181cbf003d6cddbe892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 25/50] fix: XML loading skips what the class does not know

Comments, text, unknown elements with attributes and items with an index out
of range were followed through null pointers or matched nameless aliases.
---
 datas/reflector_xml.cpp | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index b2a9255..987d671 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -19,6 +19,7 @@
 #include "reflector_xml.hpp"
 #include "master_printer.hpp"
 #include "pugiex.hpp"
+#include <cstring>
 
 struct ReflectedInstanceFriend : ReflectedInstance {
   void *Instance() { return instance; }
@@ -26,6 +27,11 @@ struct ReflectedInstanceFriend : ReflectedInstance {
   const reflectorStatic *Refl() const { return rfStatic; }
 };
 
+// Index out of range or unregistered class
+static bool IsValid(const ReflectedInstance &inst) {
+  return static_cast<const ReflectedInstanceFriend &>(inst).Refl() != nullptr;
+}
+
 // Values are character data: markup within them must not be parsed.
 static void SetText(pugi::xml_node node, const std::string &value) {
   if (!value.empty()) {
@@ -336,6 +342,10 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
   }
 
   for (auto a : thisNode.children()) {
+    if (a.type() != pugi::node_element) {
+      continue;
+    }
+
     auto node = MakeNode(a);
 
     if (ri.IsReflectedSubClass(node.hash)) {
@@ -344,6 +354,11 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
       }
 
       auto rfInst = ri.GetReflectedSubClass(node.hash, node.index);
+
+      if (!IsValid(rfInst)) {
+        continue;
+      }
+
       ReflectorPureWrap subRefl(rfInst);
       ReflectorXMLUtil::LoadV2(subRefl, a);
       continue;
@@ -356,6 +371,10 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
 
     auto refType = rif.GetReflectedType(node.hash);
 
+    if (!refType) {
+      continue;
+    }
+
     auto DoVector = [&] {
       for (auto t : a.attributes()) {
         size_t element = -1;
@@ -467,19 +486,37 @@ pugi::xml_node ReflectorXMLUtil::Load(Reflector &ri, pugi::xml_node node,
   }
 
   for (auto &a : thisNode.children()) {
+    if (a.type() != pugi::node_element) {
+      continue;
+    }
+
     auto hash = MakeHash(a.name());
 
     if (ri.IsReflectedSubClass(hash)) {
       if (ri.IsArray(hash)) {
         for (auto sc : a.children()) {
+          if (strncmp(sc.name(), "i:", 2)) {
+            continue;
+          }
+
           auto index = atoll(sc.name() + 2);
           auto rfInst = ri.GetReflectedSubClass(hash, index);
+
+          if (!IsValid(rfInst)) {
+            continue;
+          }
+
           ReflectorPureWrap subRefl(rfInst);
           ReflectorXMLUtil::Load(subRefl, sc);
         }
 
       } else {
         auto rfInst = ri.GetReflectedSubClass(hash);
+
+        if (!IsValid(rfInst)) {
+          continue;
+        }
+
         ReflectorPureWrap subRefl(rfInst);
         ReflectorXMLUtil::Load(subRefl, a);
       }
-- 
2.43.0


From 3bf91e778753a2c55131a591311f50a13754937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 26/50] fix: negative enumerators and enum flags past bit 31
 read as text

---
 datas/reflector.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 1ace0b9..0f5c070 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -689,6 +689,16 @@ static std::string PrintEnum(const char *objAddr, JenHash hash, uint16 elSize) {
 
   memcpy(reinterpret_cast<char *>(&eValue), objAddr, elSize);
 
+  // Negative enumerators are registered sign extended
+  const ReflectedEnum &rEnum = REFEnumStorage.at(hash);
+  const uint64 mask = ~0ULL >> (64 - elSize * 8);
+
+  for (size_t e = 0; e < rEnum.size(); e++) {
+    if ((rEnum.values[e] & mask) == eValue) {
+      return rEnum.at(e);
+    }
+  }
+
   return PrintEnumValue(hash, eValue);
 }
 
@@ -934,7 +944,7 @@ std::string Reflector::GetReflectedValue(size_t id, size_t subID) const {
 
     memcpy(reinterpret_cast<char *>(&eValue), objAddr, reflValue.subSize);
 
-    return (eValue & (1 << subID)) ? "true" : "false";
+    return (eValue & (1ULL << subID)) ? "true" : "false";
   }
 
   default:
@@ -983,7 +993,7 @@ std::string Reflector::GetReflectedValue(size_t id, size_t subID,
     memcpy(reinterpret_cast<char *>(&eValue),
            objAddr + reflValue.subSize * subID, reflValue.subSize);
 
-    return (eValue & (1 << element)) ? "true" : "false";
+    return (eValue & (1ULL << element)) ? "true" : "false";
   }
 
   default:
-- 
2.43.0


From 381163e272066226907c98688fa1333ce56a191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 27/50] fix: bound item and element indices when setting
 reflected values

---
 datas/reflector.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 0f5c070..46c7430 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -513,6 +513,12 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
 Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
                                                   es::string_view value,
                                                   size_t subID) {
+  if (subID >= type.numItems) {
+    printerror("[Reflector] Too many array elements, " << type.numItems
+                                                       << " expected.");
+    return ErrorType::OutOfRange;
+  }
+
   auto inst = GetReflectedInstance();
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr += type.offset + type.subSize * subID;
@@ -543,6 +549,12 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
     return ErrorType::InvalidDestination;
   }
 
+  if (subID >= type.numItems) {
+    printerror("[Reflector] Too many array elements, " << type.numItems
+                                                       << " expected.");
+    return ErrorType::OutOfRange;
+  }
+
   auto inst = GetReflectedInstance();
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr += type.offset + type.subSize * subID;
@@ -551,8 +563,8 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
     _DecomposedVectorHash dec = {type.typeHash};
     type.subSize = dec.size;
 
-    if (element >= dec.size) {
-      printerror("[Reflector] Too many vector elements, " << dec.size
+    if (element >= dec.numItems) {
+      printerror("[Reflector] Too many vector elements, " << dec.numItems
                                                           << " expected.");
       return ErrorType::OutOfRange;
     }
-- 
2.43.0


From 5b4efd0d4a4adae541b94c25ec676554e96d4293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 28/50] fix: XML saving reports failed allocations instead of
 dropping data

---
 datas/reflector_xml.cpp | 59 +++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 987d671..4987baf 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -20,6 +20,7 @@
 #include "master_printer.hpp"
 #include "pugiex.hpp"
 #include <cstring>
+#include <new>
 
 struct ReflectedInstanceFriend : ReflectedInstance {
   void *Instance() { return instance; }
@@ -32,10 +33,30 @@ static bool IsValid(const ReflectedInstance &inst) {
   return static_cast<const ReflectedInstanceFriend &>(inst).Refl() != nullptr;
 }
 
+// pugixml ignores failed allocations, saved data would be incomplete.
+static void CheckAppended(pugi::xml_node parent, bool success) {
+  if (parent && !success) {
+    throw std::bad_alloc();
+  }
+}
+
+static pugi::xml_node AppendNode(pugi::xml_node parent, const char *name) {
+  auto node = parent.append_child();
+  CheckAppended(parent, node.set_name(name));
+  return node;
+}
+
+static void AppendAttribute(pugi::xml_node parent, const char *name,
+                            const std::string &value) {
+  auto attr = parent.append_attribute(name);
+  CheckAppended(parent, attr && *attr.name() == *name &&
+                            attr.set_value(value.data()));
+}
+
 // Values are character data: markup within them must not be parsed.
 static void SetText(pugi::xml_node node, const std::string &value) {
   if (!value.empty()) {
-    node.text().set(value.c_str());
+    CheckAppended(node, node.text().set(value.c_str()));
   }
 }
 
@@ -62,18 +83,17 @@ static bool SaveV2(const reflType &cType, const Reflector &ri,
   case REFType::UnsignedInteger:
   case REFType::BitFieldMember: {
     std::string str = ri.GetReflectedValue(t);
-    auto cNode = thisNode.append_attribute(varName.data());
-    cNode.set_value(str.data());
+    AppendAttribute(thisNode, varName.data(), str);
     return true;
   }
   case REFType::Vector: {
     _DecomposedVectorHash dec{cType.typeHash};
     static const char axes[4][2]{"x", "y", "z", "w"};
-    pugi::xml_node cNode = thisNode.append_child(varName.c_str());
+    pugi::xml_node cNode = AppendNode(thisNode, varName.c_str());
 
     for (size_t a = 0; a < dec.numItems; a++) {
       std::string str = ri.GetReflectedValue(t, a);
-      cNode.append_attribute(axes[a]).set_value(str.data());
+      AppendAttribute(cNode, axes[a], str);
     }
 
     return true;
@@ -85,13 +105,13 @@ static bool SaveV2(const reflType &cType, const Reflector &ri,
     }
 
     auto &&cEnum = REFEnumStorage.at(cType.typeHash);
-    pugi::xml_node cNode = thisNode.append_child(varName.c_str());
+    pugi::xml_node cNode = AppendNode(thisNode, varName.c_str());
 
     for (size_t e = 0; e < cEnum.size(); e++) {
       auto name = cEnum[e].to_string();
       const uint64 value = cEnum.values[e];
       auto valueName = ri.GetReflectedValue(t, value);
-      cNode.append_attribute(name.data()).set_value(valueName.data());
+      AppendAttribute(cNode, name.data(), valueName);
     }
 
     return true;
@@ -113,7 +133,7 @@ static pugi::xml_node MakeNode(const Reflector &ri, const reflectorStatic *stat,
     snprintf(&className[0], 15, "h:%X", cHash);
   }
 
-  return node.append_child(className.c_str());
+  return AppendNode(node, className.c_str());
 }
 
 static std::string GetName(const Reflector &ri, const reflectorStatic *stat,
@@ -143,7 +163,7 @@ pugi::xml_node ReflectorXMLUtil::Save(const Reflector &ri, pugi::xml_node node,
   for (size_t t = 0; t < stat->nTypes; t++) {
     auto &&cType = stat->types[t];
     std::string varName = GetName(ri, stat, cType, t);
-    pugi::xml_node cNode = thisNode.append_child(varName.c_str());
+    pugi::xml_node cNode = AppendNode(thisNode, varName.c_str());
 
     if (ri.IsReflectedSubClass(t)) {
       if (ri.IsArray(t)) {
@@ -153,7 +173,7 @@ pugi::xml_node ReflectorXMLUtil::Save(const Reflector &ri, pugi::xml_node node,
           auto subRef = ri.GetReflectedSubClass(t, s);
           ReflectorPureWrap subCl(subRef);
           ReflectorXMLUtil::Save(
-              subCl, cNode.append_child(("i:" + std::to_string(s)).c_str()),
+              subCl, AppendNode(cNode, ("i:" + std::to_string(s)).c_str()),
               false);
         }
 
@@ -203,14 +223,14 @@ pugi::xml_node ReflectorXMLUtil::SaveV2a(const Reflector &ri,
           auto subRef = ri.GetReflectedSubClass(t, s);
           ReflectorPureWrap subCl(subRef);
           auto nodeName = varName + '-' + std::to_string(s);
-          pugi::xml_node cNode = thisNode.append_child(nodeName.data());
+          pugi::xml_node cNode = AppendNode(thisNode, nodeName.data());
           auto subOpts = opts;
           subOpts -= Flags_ClassNode;
           SaveV2a(subCl, cNode, subOpts);
         }
 
       } else {
-        pugi::xml_node cNode = thisNode.append_child(varName.c_str());
+        pugi::xml_node cNode = AppendNode(thisNode, varName.c_str());
         auto subRef = ri.GetReflectedSubClass(t);
         ReflectorPureWrap subCl(subRef);
         auto subOpts = opts;
@@ -229,8 +249,7 @@ pugi::xml_node ReflectorXMLUtil::SaveV2a(const Reflector &ri,
         for (int s = 0; s < numItems; s++) {
           std::string str = ri.GetReflectedValue(t, s);
           auto nodeName = varName + '-' + std::to_string(s);
-          auto cNode = thisNode.append_attribute(nodeName.data());
-          cNode.set_value(str.data());
+          AppendAttribute(thisNode, nodeName.data(), str);
         }
         break;
       }
@@ -240,11 +259,11 @@ pugi::xml_node ReflectorXMLUtil::SaveV2a(const Reflector &ri,
           _DecomposedVectorHash dec{cType.typeHash};
           static const char axes[4][2]{"x", "y", "z", "w"};
           auto nodeName = varName + '-' + std::to_string(s);
-          pugi::xml_node cNode = thisNode.append_child(nodeName.data());
+          pugi::xml_node cNode = AppendNode(thisNode, nodeName.data());
 
           for (size_t a = 0; a < dec.numItems; a++) {
             std::string str = ri.GetReflectedValue(t, s, a);
-            cNode.append_attribute(axes[a]).set_value(str.data());
+            AppendAttribute(cNode, axes[a], str);
           }
         }
         break;
@@ -259,26 +278,26 @@ pugi::xml_node ReflectorXMLUtil::SaveV2a(const Reflector &ri,
 
         for (int s = 0; s < numItems; s++) {
           auto nodeName = varName + '-' + std::to_string(s);
-          pugi::xml_node cNode = thisNode.append_child(nodeName.data());
+          pugi::xml_node cNode = AppendNode(thisNode, nodeName.data());
 
           for (size_t e = 0; e < cEnum.size(); e++) {
             auto name = cEnum[e].to_string();
             const uint64 value = cEnum.values[e];
             auto valueName = ri.GetReflectedValue(t, s, value);
-            cNode.append_attribute(name.data()).set_value(valueName.data());
+            AppendAttribute(cNode, name.data(), valueName);
           }
         }
         break;
       }
       default: {
-        pugi::xml_node cNode = thisNode.append_child(varName.c_str());
+        pugi::xml_node cNode = AppendNode(thisNode, varName.c_str());
         std::string str = ri.GetReflectedValue(t);
         SetText(cNode, str);
         break;
       }
       }
     } else {
-      pugi::xml_node cNode = thisNode.append_child(varName.c_str());
+      pugi::xml_node cNode = AppendNode(thisNode, varName.c_str());
       std::string str = ri.GetReflectedValue(t);
       SetText(cNode, str);
     }
-- 
2.43.0


From 1c1ed1b2199dc4dc20d992361ee97cf2abd79cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 29/50] fix: trimming an empty string read outside of it

---
 datas/supercore.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/datas/supercore.hpp b/datas/supercore.hpp
index abb2ca6..326b52a 100644
--- a/datas/supercore.hpp
+++ b/datas/supercore.hpp
@@ -95,9 +95,8 @@ bool IsEnd(const cnt &container, const iterType &iter) {
 
 template <class sview>
 sview SkipStartWhitespace(sview input, bool inclNewLine = false) noexcept {
-  while ((input[0] == ' ' || input[0] == '\t' ||
-          (inclNewLine && input[0] == '\n')) &&
-         !input.empty())
+  while (!input.empty() && (input[0] == ' ' || input[0] == '\t' ||
+                            (inclNewLine && input[0] == '\n')))
     input.remove_prefix(1);
 
   return input;
@@ -105,9 +104,8 @@ sview SkipStartWhitespace(sview input, bool inclNewLine = false) noexcept {
 
 template <class sview>
 sview SkipEndWhitespace(sview input, bool inclNewLine = false) noexcept {
-  while ((input.back() == ' ' || input.back() == '\t' ||
-          (inclNewLine && input.back() == '\n')) &&
-         !input.empty())
+  while (!input.empty() && (input.back() == ' ' || input.back() == '\t' ||
+                            (inclNewLine && input.back() == '\n')))
     input.remove_suffix(1);
 
   return input;
-- 
2.43.0


From 98a76e8b1ee7755cc412e7d17ef85f04d819ed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 30/50] fix: empty items past the end of an array were written
 behind it

---
 datas/reflector.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 46c7430..866d157 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -376,7 +376,12 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
         return Reflector::ErrorType::ShortInput;
       }
 
-      if (!cValue.empty() && curElement >= reflValue.numItems) {
+      if (curElement >= reflValue.numItems) {
+        if (cValue.empty()) {
+          curIter = it + 1;
+          continue;
+        }
+
         printerror("[Reflector] Too many array elements, " << reflValue.numItems
                                                            << " expected.");
         return Reflector::ErrorType::OutOfRange;
-- 
2.43.0


From 085d0801471bcd32aed5ce1ed5f5e8dc6812e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 31/50] fix: running out of memory while printing an enum is
 not a value

---
 datas/reflector.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 866d157..ac2b316 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -23,6 +23,7 @@
 #include <algorithm>
 #include <cctype>
 #include <cmath>
+#include <new>
 
 static Reflector::ErrorType
 SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr);
@@ -740,6 +741,8 @@ static std::string PrintEnumFlags(const char *objAddr, JenHash hash,
         break;
       } catch (const std::range_error &e) {
         printerror(e.what());
+      } catch (const std::bad_alloc &) {
+        throw;
       } catch (...) {
         printerror("[Reflector] Unhandled exception: PrintEnumValue");
         break;
@@ -861,6 +864,8 @@ static std::string GetReflectedPrimitive(const char *objAddr, reflType type) {
       printerror("[Reflector] Unregistered enum hash: " << type.typeHash.raw());
     } catch (const std::range_error &e) {
       printerror(e.what());
+    } catch (const std::bad_alloc &) {
+      throw;
     } catch (...) {
       printerror("[Reflector] Unhandled exception: PrintEnum");
     }
-- 
2.43.0


From 5bee8c15ddbd57775658aeddcb8771e77ef06c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 32/50] fix: reflected pairs of classes without aliases or
 descriptions

GetReflectedPair followed the null alias and description tables of classes
declared without them.
---
 datas/internal/reflector.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datas/internal/reflector.inl b/datas/internal/reflector.inl
index e1ef85e..3c60a6c 100644
--- a/datas/internal/reflector.inl
+++ b/datas/internal/reflector.inl
@@ -214,14 +214,15 @@ Reflector::GetReflectedPair(size_t id, const KVPairFormat &settings) const {
   const auto refInt = GetReflectedInstance().rfStatic;
 
   if (UseNames()) {
-    if (settings.aliasName && refInt->typeAliases[id]) {
+    if (settings.aliasName && refInt->typeAliases && refInt->typeAliases[id]) {
       retval.name = refInt->typeAliases[id];
     } else {
       retval.name = refInt->typeNames[id];
     }
   }
 
-  if (settings.formatValue && !refInt->typeDescs[id].part1.empty()) {
+  if (settings.formatValue && refInt->typeDescs &&
+      !refInt->typeDescs[id].part1.empty()) {
     retval.value =
         refInt->typeDescs[id].part1.to_string() + ' ' + GetReflectedValue(id);
 
-- 
2.43.0


From 68e71171c9f96f81f1cb667f0cb42bfdaf49bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 33/50] fix: a second session log was never written

CreateLog opened the log stream while the previous log was still open, which
fails and discards everything logged from then on.
---
 datas/settings_manager.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datas/settings_manager.hpp b/datas/settings_manager.hpp
index 04442ee..4d9de1c 100644
--- a/datas/settings_manager.hpp
+++ b/datas/settings_manager.hpp
@@ -45,6 +45,10 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
               &timeStruct);
     logName.append(std::to_string(dateBuffer));
     logName.append(".txt");
+    if (GetLogger().is_open()) {
+      GetLogger().close();
+    }
+
     GetLogger().open(ToTSTRING(logName), std::ios::out);
     printer.AddPrinterFunction(SettingsManager::printf, false);
 
-- 
2.43.0


From 05889e3ab57341a3113946379de3d0813af83321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 34/50] fix: settings help of classes without aliases or
 descriptions

GetHelp followed the null name and description tables of settings (or nested)
classes declared without them.
---
 datas/settings_manager.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/settings_manager.hpp b/datas/settings_manager.hpp
index 4d9de1c..006c106 100644
--- a/datas/settings_manager.hpp
+++ b/datas/settings_manager.hpp
@@ -83,8 +83,8 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
     };
 
     for (size_t i = 0; i < ref->nTypes; i++) {
-      es::string_view elName = ref->typeNames[i];
-      auto elDesc = ref->typeDescs[i];
+      es::string_view elName = ref->typeNames ? ref->typeNames[i] : "";
+      auto elDesc = ref->typeDescs ? ref->typeDescs[i] : _ReflDesc{};
       fillIndent() << elName << std::endl;
 
       if (!elDesc.part1.empty()) {
@@ -113,7 +113,7 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
 
   void GetHelp(std::ostream &str) {
     auto ref = GetReflectedClass<Base>();
-    str << ref->className << " settings." << std::endl;
+    str << (ref->className ? ref->className : "") << " settings." << std::endl;
     GetHelp(str, ref);
   }
 };
-- 
2.43.0


From 262572605b09a533f19ac202bf7c088ccfb769a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 35/50] fix: containers that outgrow linked storage

allocator_hybrid handed out the linked buffer for every allocation, so a
growing (or copied) container was given the same, too small memory again and
wrote past its end. The buffer is given out once now, copies get memory of
their own and swapping takes the allocator along.
---
 datas/allocator_hybrid.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/datas/allocator_hybrid.hpp b/datas/allocator_hybrid.hpp
index 4ada4c8..9103f48 100644
--- a/datas/allocator_hybrid.hpp
+++ b/datas/allocator_hybrid.hpp
@@ -34,12 +34,16 @@ struct allocator_hybrid_base {
   template <class C>
   static void LinkStorage(C &input, typename C::pointer start,
                           typename C::pointer end) {
+    if (start == end) {
+      return DisposeStorage(input);
+    }
+
     input = C(start, end, typename C::allocator_type(start));
   }
 
   template <class C>
   static void LinkStorage(C &input, typename C::pointer start, size_t count) {
-    input = C(start, start + count, typename C::allocator_type(start));
+    LinkStorage(input, start, start + count);
   }
 };
 
@@ -51,8 +55,10 @@ template <class _Ty> struct allocator_hybrid : allocator_hybrid_base {
   typedef const value_type &const_reference;
   typedef std::true_type propagate_on_container_copy_assignment;
   typedef std::true_type propagate_on_container_move_assignment;
+  typedef std::true_type propagate_on_container_swap;
 
   pointer buffer;
+  bool taken = false; // buffer is given out only once
 
   allocator_hybrid() noexcept : buffer(nullptr) {}
 
@@ -63,13 +69,19 @@ template <class _Ty> struct allocator_hybrid : allocator_hybrid_base {
 
   allocator_hybrid(const allocator_hybrid<value_type> &input) noexcept {
     buffer = input.buffer;
+    taken = input.taken;
+  }
+
+  allocator_hybrid select_on_container_copy_construction() const noexcept {
+    return {};
   }
 
   _DECLSPEC_ALLOCATOR pointer allocate(size_t count) {
-    if (!buffer)
+    if (!buffer || taken)
       return static_cast<pointer>(operator new(count * sizeof(value_type)));
-    else
-      return buffer;
+
+    taken = true;
+    return buffer;
   }
 
   void deallocate(pointer ptr, size_t) {
-- 
2.43.0


From c690e27959c0e76f5f9f780108fad75899fce9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 36/50] fix: numbers can be put into the first item of an array
 or vector

---
 datas/reflector.cpp | 78 ++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index ac2b316..1111420 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -588,22 +588,22 @@ Reflector::SetReflectedValueInt(reflType reflValue, int64 value, size_t subID) {
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
+      return Reflector::ErrorType::OutOfRange;
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
       return Reflector::ErrorType::OutOfRange;
-    }
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::Integer)
     return Reflector::ErrorType::InvalidDestination;
 
@@ -619,22 +619,22 @@ Reflector::ErrorType Reflector::SetReflectedValueUInt(reflType reflValue,
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
+      return Reflector::ErrorType::OutOfRange;
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
       return Reflector::ErrorType::OutOfRange;
-    }
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::UnsignedInteger)
     return Reflector::ErrorType::InvalidDestination;
 
@@ -650,22 +650,22 @@ Reflector::ErrorType Reflector::SetReflectedValueFloat(reflType reflValue,
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
+      return Reflector::ErrorType::OutOfRange;
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
       return Reflector::ErrorType::OutOfRange;
-    }
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::FloatingPoint)
     return Reflector::ErrorType::InvalidDestination;
 
-- 
2.43.0


From 3a7bfe5ab9be0bed2eba5c061bf803df6c18071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 37/50] fix: text of C string members is what they point to

---
 datas/reflector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 1111420..bed0238 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -873,8 +873,10 @@ static std::string GetReflectedPrimitive(const char *objAddr, reflType type) {
     break;
   }
 
-  case REFType::CString:
-    return objAddr;
+  case REFType::CString: {
+    auto cString = *reinterpret_cast<const char *const *>(objAddr);
+    return cString ? cString : "";
+  }
 
   case REFType::String:
     return *reinterpret_cast<const std::string *>(objAddr);
-- 
2.43.0


From 59d6fa9fd321806ed57b43024ac24f8603d4a6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:40 +0000
Subject: [PATCH 38/50] fix: setting a value without a text form is an error

---
 datas/reflector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index bed0238..76f3789 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -500,7 +500,7 @@ SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr) {
   case REFType::ArrayClass:
     return SetReflectedArray(startBrace, endBrace, objAddr, value, reflValue);
   default:
-    break;
+    return Reflector::ErrorType::InvalidDestination;
   }
 
   return errType;
-- 
2.43.0


From 1107fbbb570995d73a64f0cf08274eb097699257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 39/50] fix: scans leave no folder open when memory runs out

---
 datas/directory_scanner.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/datas/directory_scanner.cpp b/datas/directory_scanner.cpp
index a663c12..586b4ad 100644
--- a/datas/directory_scanner.cpp
+++ b/datas/directory_scanner.cpp
@@ -26,6 +26,7 @@
 #endif
 
 #include <cstring>
+#include <memory>
 
 bool DirectoryScanner::IsFilteredFile(const std::string &fileName) {
   if (!filters.size())
@@ -54,7 +55,8 @@ void DirectoryScanner::Scan(std::string dir) {
 #if defined(__GNUC__) || defined(__GNUG__)
   dir.push_back('.');
   
-  DIR *cDir = opendir(dir.data());
+  const std::unique_ptr<DIR, int (*)(DIR *)> cDir(
+      opendir(dir.data()), [](DIR *handle) { return closedir(handle); });
 
   if (!cDir) {
     return;
@@ -62,7 +64,7 @@ void DirectoryScanner::Scan(std::string dir) {
 
   dirent *cFile = nullptr;
 
-  while ((cFile = readdir(cDir)) != nullptr) {
+  while ((cFile = readdir(cDir.get())) != nullptr) {
     if (!strcmp(cFile->d_name, ".") || !strcmp(cFile->d_name, "..")) {
       continue;
     }
@@ -87,8 +89,6 @@ void DirectoryScanner::Scan(std::string dir) {
       files.push_back(subFile);
     }
   }
-
-  closedir(cDir);
 #else
   dir.push_back('*');
   const auto wdir = ToTSTRING(dir);
-- 
2.43.0


From 7fc764096440f86b47346a873b0438104a191ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:02 +0000
Subject: [PATCH 40/50] fix: fill the values of a reflected enum once

Two threads that used a reflected enum for the first time at once both
filled its values and set a plain flag, so one could read values while
the other one was still writing them.
---
 datas/internal/reflector_enum.hpp     | 8 --------
 datas/internal/reflector_enum_reg.hpp | 7 +++----
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/datas/internal/reflector_enum.hpp b/datas/internal/reflector_enum.hpp
index 92e6f1a..d1934af 100644
--- a/datas/internal/reflector_enum.hpp
+++ b/datas/internal/reflector_enum.hpp
@@ -65,14 +65,6 @@ constexpr size_t _GetReflEnumItemSize(const char (&value)[n]) {
     }                                                                          \
     static constexpr es::string_view GetClassName() { return #classname; }     \
     static constexpr JenHash GetHash() { return JenHash(#classname); }         \
-    static bool Initialized(bool yes) {                                        \
-      static bool inited = false;                                              \
-      if (!inited && yes) {                                                    \
-        inited = true;                                                         \
-        return true;                                                           \
-      }                                                                        \
-      return inited;                                                           \
-    }                                                                          \
   };
 
 #define _REFLECTOR_ENUM_VER0(classname, ...)                                   \
diff --git a/datas/internal/reflector_enum_reg.hpp b/datas/internal/reflector_enum_reg.hpp
index eb93e75..d5f927b 100644
--- a/datas/internal/reflector_enum_reg.hpp
+++ b/datas/internal/reflector_enum_reg.hpp
@@ -71,10 +71,9 @@ public:
                _EnumWrap<E>::GetNames() + _EnumWrap<E>::NUM_ITEMS),
         values(_EnumWrap<E>::GetValues()), name(_EnumWrap<E>::GetClassName()),
         hash(_EnumWrap<E>::GetHash()) {
-    if (!_EnumWrap<E>::Initialized(false)) {
-      _REnumInitializer<E>();
-      _EnumWrap<E>::Initialized(true);
-    }
+    // filled exactly once, even if several threads get here at the same time
+    static const bool initialized = (_REnumInitializer<E>(), true);
+    (void)initialized;
   }
 
   using parent::size;
-- 
2.43.0


From 05b4425d39e0f917c26d432cf80b09d2887f6cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:40 +0000
Subject: [PATCH 41/50] fix: switch text color back when a printer function
 throws

A printer function that threw inside of a warning or error left the color
switched on, later messages of any thread were shown in it.
---
 datas/master_printer.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/datas/master_printer.cpp b/datas/master_printer.cpp
index 36f1a8d..9e01553 100644
--- a/datas/master_printer.cpp
+++ b/datas/master_printer.cpp
@@ -62,6 +62,22 @@ void MasterPrinterThread::AddPrinterFunction(print_func func, bool useColor) {
   __MasterPrinter.functions.emplace_back(func, useColor);
 }
 
+// Printer function can throw, color must not stay for the next message
+namespace {
+struct ColorGuard {
+  bool active;
+
+  ~ColorGuard() {
+    if (active) {
+      try {
+        RestoreConsoleTextColor();
+      } catch (...) {
+      }
+    }
+  }
+};
+} // namespace
+
 void MasterPrinterThread::FlushAll() {
   // Previous insertion could leave stream in a failed state
   _masterstream.clear();
@@ -100,6 +116,8 @@ void MasterPrinterThread::FlushAll() {
       fc.func("] ");
     }
 
+    ColorGuard color{fc.useColor && msgType != MPType::MSG};
+
     if (fc.useColor) {
       if (msgType == MPType::WRN) {
         SetConsoleTextColor(255, 255, 0);
@@ -118,6 +136,8 @@ void MasterPrinterThread::FlushAll() {
 
     if (fc.useColor && msgType != MPType::MSG)
       RestoreConsoleTextColor();
+
+    color.active = false;
   }
 }
 
-- 
2.43.0


From 9ef03c7e0db59bd36bffb1d76c3a4bf2d628c241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:59 +0000
Subject: [PATCH 42/50] fix: trailing comma of a reflected list is not a part
 of its last item

Setting an array of bools or enums from {A, B,} was accepted, but set the
last item to zero.
---
 datas/reflector.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 76f3789..69514ea 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -368,7 +368,9 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
     }
 
     if (*it == ',' || isEnding) {
-      es::string_view cValue(curIter, isEnding ? value.end() : it);
+      // trailing comma is not a part of the last element
+      es::string_view cValue(curIter,
+                             isEnding && *it != ',' ? value.end() : it);
       cValue = es::SkipStartWhitespace(cValue);
 
       if (cValue.empty() && curElement < reflValue.numItems) {
-- 
2.43.0


From 8fdebf9574edb023ac402d3602c12d2dd17e1746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:23 +0000
Subject: [PATCH 43/50] fix: number too small to be represented keeps its sign

1e-999 was clamped to the least negative number.
---
 datas/reflector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 69514ea..55d06d5 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -75,7 +75,8 @@ static Reflector::ErrorType SetNumber(const std::string &input, T &output,
 
     double fVal = atof(input.c_str());
 
-    if (fVal > 0)
+    // Number too small even for double is a zero, it keeps the sign however
+    if (!std::signbit(fVal))
       output = fVal > 1.0 ? fMax : fMin;
     else
       output = fVal < -1.0 ? -fMax : -fMin;
-- 
2.43.0


From 3a7920eec6fb9188170f4c3934e774b8a5047873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:00 +0000
Subject: [PATCH 44/50] fix: assigning null to a relative pointer makes it null

---
 datas/pointer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/datas/pointer.hpp b/datas/pointer.hpp
index d7e7cff..61331d2 100644
--- a/datas/pointer.hpp
+++ b/datas/pointer.hpp
@@ -112,6 +112,12 @@ public:
   }
 
   PointerX86 &operator=(C *newDest) {
+    // distance of zero is what a null pointer is stored as
+    if (!newDest) {
+      varPtr = 0;
+      return *this;
+    }
+
     uintptr_t _rawDest = reinterpret_cast<uintptr_t>(newDest);
     varPtr =
         static_cast<uint32>(_rawDest - reinterpret_cast<uintptr_t>(&varPtr));
-- 
2.43.0


From 79348f107768818c052496a079225ae6bb6bce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:19 +0000
Subject: [PATCH 45/50] fix: load flags and vectors of array classes from XML

---
 datas/reflector_xml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 4987baf..80dd5bb 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -453,7 +453,8 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
       DoVector();
       break;
 
-    case REFType::Array: {
+    case REFType::Array:
+    case REFType::ArrayClass: {
       switch (refType->subType) {
       case REFType::Vector:
         DoVector();
-- 
2.43.0


From 548fd250cd1d5a2683f76a90dbf795191ad909b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:20 +0000
Subject: [PATCH 46/50] fix: report errors of single items within an array

---
 datas/reflector.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 55d06d5..bb26ebd 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -356,6 +356,7 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
     subVal.subSize = dec.size;
   }
   bool localScope = false;
+  Reflector::ErrorType errType = Reflector::ErrorType::None;
 
   for (auto it = value.begin(); it != value.end(); it++) {
     const bool isEnding = std::next(it) == value.end();
@@ -391,14 +392,19 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
         return Reflector::ErrorType::OutOfRange;
       }
 
-      SetReflectedMember(subVal, cValue,
-                         objAddr + (reflValue.subSize * curElement));
+      const auto subErrType =
+          SetReflectedMember(subVal, cValue,
+                             objAddr + (reflValue.subSize * curElement));
+
+      if (subErrType != Reflector::ErrorType::None)
+        errType = subErrType;
+
       curIter = it + 1;
       curElement++;
     }
   }
 
-  return Reflector::ErrorType::None;
+  return errType;
 }
 
 static Reflector::ErrorType
-- 
2.43.0


From e45a139dbf985bbc7eff7d723a1ff451174e5527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:20 +0000
Subject: [PATCH 47/50] fix: end quoted array items, report items that never
 end

---
 datas/reflector.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index bb26ebd..0b788e8 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -361,10 +361,11 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
   for (auto it = value.begin(); it != value.end(); it++) {
     const bool isEnding = std::next(it) == value.end();
 
-    if ((*it == ']' || *it == '"' || *it == ')' || *it == '}') && localScope)
+    if ((*it == ']' || *it == '"' || *it == ')' || *it == '}') && localScope) {
+      // quotes end with what they began with
       localScope = false;
-
-    if (localScope || *it == '[' || *it == '"' || *it == '(' || *it == '{') {
+    } else if (localScope || *it == '[' || *it == '"' || *it == '(' ||
+               *it == '{') {
       localScope = true;
       continue;
     }
@@ -404,6 +405,11 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
     }
   }
 
+  if (localScope) {
+    printerror("[Reflector] Unclosed scope within an array element.");
+    return Reflector::ErrorType::InvalidFormat;
+  }
+
   return errType;
 }
 
-- 
2.43.0


From eefc73905692a554b2ec15c46593977d41272547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:20 +0000
Subject: [PATCH 48/50] fix: load empty strings within arrays

---
 datas/reflector.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 0b788e8..e3ab303 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -339,7 +339,15 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
 
   value = {value.begin() + arrBegin + 1, value.begin() + arrEnd};
 
+  // Strings can be empty
+  const bool canBeEmpty = reflValue.subType == REFType::String;
+
   if (value.empty()) {
+    if (canBeEmpty && reflValue.numItems == 1) {
+      reinterpret_cast<std::string *>(objAddr)->clear();
+      return Reflector::ErrorType::None;
+    }
+
     printerror("[Reflector] Empty array input.");
     return Reflector::ErrorType::EmptyInput;
   }
@@ -376,7 +384,7 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
                              isEnding && *it != ',' ? value.end() : it);
       cValue = es::SkipStartWhitespace(cValue);
 
-      if (cValue.empty() && curElement < reflValue.numItems) {
+      if (cValue.empty() && !canBeEmpty && curElement < reflValue.numItems) {
         printerror("[Reflector] Array expected "
                    << reflValue.numItems << " but got " << curElement << '.');
         return Reflector::ErrorType::ShortInput;
-- 
2.43.0


From 28fa45bf934e25dd36ed4b7c9905317484eea7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:19 +0000
Subject: [PATCH 49/50] fix: scan folders whose names end with a quote or
 backslash

---
 datas/directory_scanner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/directory_scanner.cpp b/datas/directory_scanner.cpp
index 586b4ad..5362c75 100644
--- a/datas/directory_scanner.cpp
+++ b/datas/directory_scanner.cpp
@@ -84,7 +84,8 @@ void DirectoryScanner::Scan(std::string dir) {
     }
 
     if (isDirectory) {
-      Scan(subFile);
+      // terminated, names found are not to be cleaned like user input
+      Scan(subFile + '/');
     } else if (IsFilteredFile(miniFile)) {
       files.push_back(subFile);
     }
-- 
2.43.0


From 8111ac2d981bf6383d969ea276df0d0f8b0fe13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:01 +0000
Subject: [PATCH 50/50] fix: text and comments are no class nodes

---
 datas/reflector_xml.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 80dd5bb..b363fe2 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -345,7 +345,8 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
 
   if (lookupClassNode) {
     thisNode = node.find_child([&](pugi::xml_node nde) {
-      return !nde.empty() && MakeHash(nde.name()) == stat->classHash;
+      return nde.type() == pugi::node_element &&
+             MakeHash(nde.name()) == stat->classHash;
     });
   } else {
     thisNode = node;
@@ -495,7 +496,8 @@ pugi::xml_node ReflectorXMLUtil::Load(Reflector &ri, pugi::xml_node node,
 
   if (lookupClassNode) {
     thisNode = node.find_child([&](pugi::xml_node nde) {
-      return !nde.empty() && MakeHash(nde.name()) == stat->classHash;
+      return nde.type() == pugi::node_element &&
+             MakeHash(nde.name()) == stat->classHash;
     });
   } else {
     thisNode = node;
-- 
2.43.0

