From 254b35b9bcf4ce23321008a421468d937625da6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:14 +0000
Subject: [PATCH 01/34] fix: RingDeque copy assignment to itself emptied the
 deque

---
 include/Pothos/Util/RingDeque.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Pothos/Util/RingDeque.hpp b/include/Pothos/Util/RingDeque.hpp
index d0cf340..7ea893d 100644
--- a/include/Pothos/Util/RingDeque.hpp
+++ b/include/Pothos/Util/RingDeque.hpp
@@ -177,6 +177,7 @@ RingDeque<T, A>::RingDeque(RingDeque<T, A> &&other):
 template <typename T, typename A>
 RingDeque<T, A> &RingDeque<T, A>::operator=(const RingDeque<T, A> &other)
 {
+    if (this == &other) return *this;
     this->clear();
     this->set_capacity(other.capacity());
     for (size_t i = 0; i < other.size(); i++)
-- 
2.43.0


From 4748df53f3fdb99444b7c3578190f13f41346986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:59 +0000
Subject: [PATCH 02/34] fix: BufferAccumulator pop replaced pool bytes with
 unrelated memory

After require() copied several chunks into a pool buffer, pop() moved the
remaining bytes back into the memory before the next chunk whenever that
chunk started far enough into its buffer, even if those bytes had been
copied from an earlier chunk. Only move back the bytes which were copied
from the next chunk.
---
 include/Pothos/Framework/BufferAccumulator.hpp | 1 +
 lib/Framework/BufferAccumulator.cpp            | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Framework/BufferAccumulator.hpp b/include/Pothos/Framework/BufferAccumulator.hpp
index 914e115..0468ad2 100644
--- a/include/Pothos/Framework/BufferAccumulator.hpp
+++ b/include/Pothos/Framework/BufferAccumulator.hpp
@@ -87,6 +87,7 @@ private:
     Util::RingDeque<BufferChunk> _queue;
     size_t _bytesAvailable;
     bool _inPoolBuffer;
+    size_t _poolOverlapBytes; //pool bytes also found before the front+1 chunk
     BufferPool _pool;
 };
 
diff --git a/lib/Framework/BufferAccumulator.cpp b/lib/Framework/BufferAccumulator.cpp
index 7dc7476..ca01d33 100644
--- a/lib/Framework/BufferAccumulator.cpp
+++ b/lib/Framework/BufferAccumulator.cpp
@@ -16,7 +16,8 @@
 Pothos::BufferAccumulator::BufferAccumulator(void):
     _queue(64/*arbitrary*/),
     _bytesAvailable(0),
-    _inPoolBuffer(false)
+    _inPoolBuffer(false),
+    _poolOverlapBytes(0)
 {
     //never let the queue become empty -- hold an empty buffer
     if (_queue.empty()) _queue.push_front(BufferChunk());
@@ -27,6 +28,7 @@ void Pothos::BufferAccumulator::clear(void)
     _queue.clear();
     _bytesAvailable = 0;
     _inPoolBuffer = false;
+    _poolOverlapBytes = 0;
     _pool.clear();
 
     //never let the queue become empty -- hold an empty buffer
@@ -132,7 +134,7 @@ void Pothos::BufferAccumulator::pop(const size_t numBytes)
     //then pop the front and move into front+1.
     if (
         _inPoolBuffer and queue.size() > 1 and //pool in front
-        queue.front().length <= (queue[1].address - queue[1].getBuffer().getAddress()))
+        queue.front().length <= _poolOverlapBytes)
     {
         queue[1].address -= queue.front().length;
         queue[1].length += queue.front().length;
@@ -195,6 +197,7 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
     newBuffer.dtype = queue.front().dtype;
     size_t newBuffBytes = newBuffer.length;
     newBuffer.length = 0;
+    _poolOverlapBytes = 0;
 
     //copy from the queue into the new buffer
     while (not queue.empty())
@@ -218,6 +221,7 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
         else
         {
             assert(newBuffBytes == 0);
+            _poolOverlapBytes = copyBytes;
             f.length -= copyBytes;
             f.address += copyBytes;
             break;
-- 
2.43.0


From 61ffc2b2f487ead598aca879b95ba63bd952ae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:20 +0000
Subject: [PATCH 03/34] fix: self assignment of ManagedBuffer and BufferChunk
 released the buffer

Assigning a buffer handle to itself dropped the last reference, which
returned the buffer to its manager (or freed it), before taking a new one.
---
 include/Pothos/Framework/BufferChunk.hpp   | 1 +
 include/Pothos/Framework/ManagedBuffer.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/Pothos/Framework/BufferChunk.hpp b/include/Pothos/Framework/BufferChunk.hpp
index 299f121..ba2c89f 100644
--- a/include/Pothos/Framework/BufferChunk.hpp
+++ b/include/Pothos/Framework/BufferChunk.hpp
@@ -350,6 +350,7 @@ inline Pothos::BufferChunk::~BufferChunk(void)
 
 inline Pothos::BufferChunk &Pothos::BufferChunk::operator=(const BufferChunk &other)
 {
+    if (this == &other) return *this;
     _decrNextBuffers();
     address = other.address;
     length = other.length;
diff --git a/include/Pothos/Framework/ManagedBuffer.hpp b/include/Pothos/Framework/ManagedBuffer.hpp
index bf308cd..684d90b 100644
--- a/include/Pothos/Framework/ManagedBuffer.hpp
+++ b/include/Pothos/Framework/ManagedBuffer.hpp
@@ -221,6 +221,7 @@ inline Pothos::ManagedBuffer::ManagedBuffer(ManagedBuffer &&obj) noexcept:
 
 inline Pothos::ManagedBuffer &Pothos::ManagedBuffer::operator=(const ManagedBuffer &obj)
 {
+    if (this == &obj) return *this;
     if (_impl != nullptr) _impl->decr();
     this->_impl = obj._impl;
     if (_impl != nullptr) _impl->incr();
-- 
2.43.0


From cc6d17401e168a1039f71b25ce8f4d96a087e2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:26 +0000
Subject: [PATCH 04/34] fix: SharedBuffer accepted sub-buffers whose end
 overflows

---
 lib/Framework/SharedBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Framework/SharedBuffer.cpp b/lib/Framework/SharedBuffer.cpp
index 712d538..eb69504 100644
--- a/lib/Framework/SharedBuffer.cpp
+++ b/lib/Framework/SharedBuffer.cpp
@@ -36,7 +36,8 @@ Pothos::SharedBuffer::SharedBuffer(const size_t address, const size_t length, co
 {
     if (_alias != 0) _alias += _address - buffer.getAddress();
     const bool beginInRange = (_address >= buffer.getAddress())/* and (_address < buffer.getAddress() + buffer.getLength())*/;
-    const bool endInRange = (_address + _length <= std::max(buffer.getAlias(), buffer.getAddress()) + buffer.getLength());
+    const size_t bufferEnd = std::max(buffer.getAlias(), buffer.getAddress()) + buffer.getLength();
+    const bool endInRange = (_address <= bufferEnd) and (_length <= bufferEnd - _address); //avoids overflow
     if (not beginInRange or not endInRange)
     {
         throw SharedBufferError("Pothos::SharedBuffer()", "not a subset");
-- 
2.43.0


From 28832b98353c0dbd27ea2636fc56569a5cdaa54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:48 +0000
Subject: [PATCH 05/34] fix: circular buffer was returned although its halves
 were mapped elsewhere

The address range found in step 2 is released before it is mapped again,
another thread can take it in between, and mmap() then places a half at a
different address. Treat this as a failure so that makeCirc() retries.
---
 lib/Framework/SharedBufferUnix.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Framework/SharedBufferUnix.cpp b/lib/Framework/SharedBufferUnix.cpp
index da55b32..25baee3 100644
--- a/lib/Framework/SharedBufferUnix.cpp
+++ b/lib/Framework/SharedBufferUnix.cpp
@@ -185,6 +185,7 @@ CircularBufferContainer::CircularBufferContainer(const size_t numBytes):
         MAP_SHARED,
         tmpFd, off_t(0));
     if (mapPtr0 == MAP_FAILED) this->errorOut("mmap(0)");
+    if (mapPtr0 != virtualAddr2X) this->errorOut("mmap(0) address taken");
 
     mapPtr1 = mmap(
         (void *)(size_t(virtualAddr2X) + numBytes),
@@ -193,6 +194,7 @@ CircularBufferContainer::CircularBufferContainer(const size_t numBytes):
         MAP_SHARED,
         tmpFd, off_t(0));
     if (mapPtr1 == MAP_FAILED) this->errorOut("mmap(1)");
+    if (mapPtr1 != (void *)(size_t(virtualAddr2X) + numBytes)) this->errorOut("mmap(1) address taken");
 }
 
 /***********************************************************************
-- 
2.43.0


From ec2a6e0212091bdbebd6ecb0e057af6eee88fed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:48 +0000
Subject: [PATCH 06/34] fix: failed file mapping left the file descriptor open

---
 lib/Framework/MemoryMappedBufferContainer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Framework/MemoryMappedBufferContainer.cpp b/lib/Framework/MemoryMappedBufferContainer.cpp
index 306c11e..ef645be 100644
--- a/lib/Framework/MemoryMappedBufferContainer.cpp
+++ b/lib/Framework/MemoryMappedBufferContainer.cpp
@@ -67,7 +67,9 @@ public:
         _buffer = ::mmap(nullptr, _length, mmapProt, mmapFlags, fd, 0);
         if(!_buffer || (MAP_FAILED == _buffer))
         {
-            throw Pothos::IOException("mmap", ::strerror(errno));
+            const std::string errorMsg(::strerror(errno));
+            ::close(fd);
+            throw Pothos::IOException("mmap", errorMsg);
         }
 
         throwErrnoOnFailure<Pothos::FileException>(::close(fd));
-- 
2.43.0


From 926c76fe9047c0756d1d9e513cd85d7fa2fb7dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:41 +0000
Subject: [PATCH 07/34] fix: getBuffer returned the output port's buffer with
 the wrong data type

---
 lib/Framework/OutputPort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Framework/OutputPort.cpp b/lib/Framework/OutputPort.cpp
index f5fb593..9af7a67 100644
--- a/lib/Framework/OutputPort.cpp
+++ b/lib/Framework/OutputPort.cpp
@@ -48,6 +48,7 @@ Pothos::BufferChunk Pothos::OutputPort::getBuffer(const DType &dtype, const size
     if (_buffer.length >= numBytes)
     {
         _buffer.length = numBytes;
+        _buffer.dtype = dtype;
         if (_bufferFromManager)
         {
             std::lock_guard<Util::SpinLock> lock(_bufferManagerLock);
-- 
2.43.0


From f4a89586b96578b77593bca7b2e460e894da6138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:41 +0000
Subject: [PATCH 08/34] fix: input port labels were not sorted when one was
 posted ahead of its element

---
 include/Pothos/Framework/InputPortImpl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/Pothos/Framework/InputPortImpl.hpp b/include/Pothos/Framework/InputPortImpl.hpp
index 6710a43..57e77ce 100644
--- a/include/Pothos/Framework/InputPortImpl.hpp
+++ b/include/Pothos/Framework/InputPortImpl.hpp
@@ -10,6 +10,7 @@
 
 #pragma once
 #include <Pothos/Framework/InputPort.hpp>
+#include <algorithm> //stable_sort
 #include <mutex> //lock_guard
 
 inline int Pothos::InputPort::index(void) const
@@ -168,6 +169,12 @@ inline void Pothos::InputPort::bufferAccumulatorFront(Pothos::BufferChunk &buff)
         _inlineMessages.back().adjust(1, this->dtype().size());
         _inputInlineMessages.pop_front();
     }
+
+    //labels posted beyond the produced elements may be followed by labels with a smaller index
+    if (not std::is_sorted(_inlineMessages.begin(), _inlineMessages.end()))
+    {
+        std::stable_sort(_inlineMessages.begin(), _inlineMessages.end());
+    }
     buff = _bufferAccumulator.front();
 }
 
-- 
2.43.0


From 20ab7dd3f30a044d838f769b3364db7a62d9af82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:41 +0000
Subject: [PATCH 09/34] fix: pushLabel divided the label's index by the element
 size

---
 include/Pothos/Framework/InputPortImpl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Pothos/Framework/InputPortImpl.hpp b/include/Pothos/Framework/InputPortImpl.hpp
index 57e77ce..e15e84e 100644
--- a/include/Pothos/Framework/InputPortImpl.hpp
+++ b/include/Pothos/Framework/InputPortImpl.hpp
@@ -151,6 +151,7 @@ inline void Pothos::InputPort::inlineMessagesPush(const Pothos::Label &label)
     std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);
     if (_inputInlineMessages.full()) _inputInlineMessages.set_capacity(_inputInlineMessages.capacity()*2);
     _inputInlineMessages.push_back(label);
+    _inputInlineMessages.back().adjust(this->dtype().size(), 1); //stored in bytes
 }
 
 inline void Pothos::InputPort::inlineMessagesClear(void)
-- 
2.43.0


From 8c66e826c3b289ca58f498b997699b8a8ab43e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:32 +0000
Subject: [PATCH 10/34] fix: negative 64-bit integers were restored wrongly
 from an archive

---
 include/Pothos/Archive/Numbers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Pothos/Archive/Numbers.hpp b/include/Pothos/Archive/Numbers.hpp
index c728386..86a6aac 100644
--- a/include/Pothos/Archive/Numbers.hpp
+++ b/include/Pothos/Archive/Numbers.hpp
@@ -138,7 +138,7 @@ typename std::enable_if<
 
     //sign extend the remaining bits when negative
     const auto signbit = byte & 0x40;
-    if (signbit != 0 and shift < (sizeof(T)*8)) t |= -(1 << shift);
+    if (signbit != 0 and shift < (sizeof(T)*8)) t |= static_cast<T>(~0ULL << shift);
 }
 
 //------------ 32-64 bit unsigned integer types --------------//
-- 
2.43.0


From 7af9997b8a5db5a9aa5e3b9be3ab936f59aeedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:39 +0000
Subject: [PATCH 11/34] fix: truncated archives were read as if complete and
 failed reads leaked

---
 include/Pothos/Archive/ArchiveEntry.hpp | 5 +++--
 lib/Archive/StreamArchiver.cpp          | 6 ++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Archive/ArchiveEntry.hpp b/include/Pothos/Archive/ArchiveEntry.hpp
index 970cb03..60da763 100644
--- a/include/Pothos/Archive/ArchiveEntry.hpp
+++ b/include/Pothos/Archive/ArchiveEntry.hpp
@@ -15,6 +15,7 @@
 #include <type_traits>
 #include <typeinfo>
 #include <iosfwd>
+#include <memory> //unique_ptr
 #include <string>
 
 namespace Pothos {
@@ -104,7 +105,7 @@ void Pothos::Archive::ArchiveEntryT<T>::save(OStreamArchiver &ar, const void *t)
 template <typename T>
 void *Pothos::Archive::ArchiveEntryT<T>::load(IStreamArchiver &ar) const
 {
-    T *t = new T();
+    std::unique_ptr<T> t(new T());
     ar >> *t;
-    return t;
+    return t.release();
 }
diff --git a/lib/Archive/StreamArchiver.cpp b/lib/Archive/StreamArchiver.cpp
index 1b95898..63f2bf3 100644
--- a/lib/Archive/StreamArchiver.cpp
+++ b/lib/Archive/StreamArchiver.cpp
@@ -2,8 +2,10 @@
 // SPDX-License-Identifier: BSL-1.0
 
 #include <Pothos/Archive/StreamArchiver.hpp>
+#include <Pothos/Archive/Exception.hpp>
 #include <Pothos/Archive/Numbers.hpp>
 #include <iostream>
+#include <string> //to_string
 
 #define POTHOS_ARCHIVE_VERSION 2
 
@@ -29,4 +31,8 @@ void Pothos::Archive::IStreamArchiver::readBytes(void *buff, const size_t len)
 {
     if (len == 0) return;
     is.read(reinterpret_cast<char *>(buff), len);
+    if (size_t(is.gcount()) != len)
+    {
+        throw Pothos::ArchiveException("IStreamArchiver::readBytes("+std::to_string(len)+")", "unexpected end of stream");
+    }
 }
-- 
2.43.0


From c3fb13d5a6de2bb13af35812dab7cd2170518efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:50 +0000
Subject: [PATCH 12/34] fix: over-long integer encodings in an archive shifted
 beyond the type

---
 include/Pothos/Archive/Numbers.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Pothos/Archive/Numbers.hpp b/include/Pothos/Archive/Numbers.hpp
index 86a6aac..5fb06ea 100644
--- a/include/Pothos/Archive/Numbers.hpp
+++ b/include/Pothos/Archive/Numbers.hpp
@@ -20,6 +20,7 @@
 
 #pragma once
 #include <Pothos/Config.hpp>
+#include <Pothos/Archive/Exception.hpp>
 #include <Pothos/Archive/Invoke.hpp>
 #include <Pothos/Archive/BinaryObject.hpp>
 #include <type_traits>
@@ -131,6 +132,7 @@ typename std::enable_if<
     unsigned char byte;
     do
     {
+        if (shift >= sizeof(T)*8) throw ArchiveException("Archive::load()", "integer encoding too long");
         ar >> byte;
         t |= T(byte & 0x7f) << shift;
         shift += 7;
@@ -174,6 +176,7 @@ typename std::enable_if<
     unsigned char byte;
     do
     {
+        if (shift >= sizeof(T)*8) throw ArchiveException("Archive::load()", "integer encoding too long");
         ar >> byte;
         t |= T(byte & 0x7f) << shift;
         shift += 7;
-- 
2.43.0


From c5076ad0b5f6853516655fab95b56bce338ad0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:18 +0000
Subject: [PATCH 13/34] fix: conversions accepted 64-bit values just beyond the
 output range and NaN

---
 lib/Object/Builtin/ConvertCommonImpl.hpp | 31 ++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/lib/Object/Builtin/ConvertCommonImpl.hpp b/lib/Object/Builtin/ConvertCommonImpl.hpp
index d74c016..0fe53c0 100644
--- a/lib/Object/Builtin/ConvertCommonImpl.hpp
+++ b/lib/Object/Builtin/ConvertCommonImpl.hpp
@@ -11,6 +11,7 @@
 #include <Pothos/Plugin.hpp>
 #include <Pothos/Callable.hpp>
 #include <Poco/Format.h>
+#include <cmath> //ldexp
 #include <limits>
 #include <complex>
 #include <string>
@@ -42,12 +43,38 @@ typedef std::complex<double> cdouble;
  * type conversion checkers
  **********************************************************************/
 
+//! integer to integer: the output must hold exactly the same value
+template <typename OutType, typename InType>
+typename std::enable_if<std::is_integral<OutType>::value and std::is_integral<InType>::value, bool>::type
+convertNumFits(const InType &in)
+{
+    return InType(OutType(in)) == in and (OutType(in) < OutType(0)) == (in < InType(0));
+}
+
+//! float to integer: the limit is a power of two because max() may round up as a double (also refuses NaN)
+template <typename OutType, typename InType>
+typename std::enable_if<std::is_integral<OutType>::value and std::is_floating_point<InType>::value, bool>::type
+convertNumFits(const InType &in)
+{
+    return double(in) <= double(std::numeric_limits<OutType>::max()) and
+        double(in) < std::ldexp(1.0, std::numeric_limits<OutType>::digits) and
+        double(in) >= double(std::numeric_limits<OutType>::lowest());
+}
+
+//! any number to float
+template <typename OutType, typename InType>
+typename std::enable_if<not std::is_integral<OutType>::value, bool>::type
+convertNumFits(const InType &in)
+{
+    return not (double(in) > double(std::numeric_limits<OutType>::max()) or //too large
+        double(in) < double(std::numeric_limits<OutType>::lowest())); //too small
+}
+
 //! check if the input value can fit into the output type
 template <typename OutType, typename InType>
 void convertNumCheck(const InType &in)
 {
-    if (double(in) > double(std::numeric_limits<OutType>::max()) or //too large
-        double(in) < double(std::numeric_limits<OutType>::lowest())) //too small
+    if (not convertNumFits<OutType>(in))
     {
         throw Pothos::RangeException(Poco::format("value %s out of range for output type %s",
             std::to_string(in), Pothos::Util::typeInfoToString(typeid(OutType))));
-- 
2.43.0


From 331404084c167032bfe5fddc4d26eea879b5cea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:24 +0000
Subject: [PATCH 14/34] fix: Object assignment released the value before taking
 the new one, unique() on a null object

---
 lib/Object/Object.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/Object/Object.cpp b/lib/Object/Object.cpp
index 20339c3..07ad578 100644
--- a/lib/Object/Object.cpp
+++ b/lib/Object/Object.cpp
@@ -87,23 +87,28 @@ Pothos::Object::operator bool(void) const
 
 Pothos::Object &Pothos::Object::operator=(const Object &rhs)
 {
+    //increment first and hold the new container: rhs may be this object,
+    //or it may be located inside the value which gets released by decr()
+    auto impl = rhs._impl;
+    incr(impl);
     decr(_impl);
-    _impl = rhs._impl;
-    incr(_impl);
+    _impl = impl;
     return *this;
 }
 
 Pothos::Object &Pothos::Object::operator=(Object &&rhs)
 {
-    decr(_impl);
-    _impl = rhs._impl;
+    auto impl = rhs._impl;
     rhs._impl = nullptr;
+    decr(_impl);
+    _impl = impl;
     return *this;
 }
 
 bool Pothos::Object::unique(void) const
 {
-    return _impl->counter.load(std::memory_order_relaxed) == 1;
+    //acquire: accesses by former holders happen before those of the unique one
+    return _impl != nullptr and _impl->counter.load(std::memory_order_acquire) == 1;
 }
 
 std::string Pothos::Object::getTypeString(void) const
-- 
2.43.0


From 7e18257ad7af6f1e3f40f41f82ef2823a5e5f557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:24 +0000
Subject: [PATCH 15/34] fix: comparing 64-bit integer objects lost precision

---
 lib/Object/Builtin/Compare.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/lib/Object/Builtin/Compare.cpp b/lib/Object/Builtin/Compare.cpp
index c4886c8..6e506d6 100644
--- a/lib/Object/Builtin/Compare.cpp
+++ b/lib/Object/Builtin/Compare.cpp
@@ -2,7 +2,9 @@
 // SPDX-License-Identifier: BSL-1.0
 
 #include <Pothos/Plugin.hpp>
+#include <Pothos/Util/CompareTo.hpp>
 #include <string>
+#include <type_traits> //common_type
 
 static int compareNullObjects(const Pothos::NullObject &, const Pothos::NullObject &)
 {
@@ -14,8 +16,33 @@ static int compareStrings(const std::string &s0, const std::string &s1)
     return s0.compare(s1);
 }
 
+/*!
+ * Exact comparison for the 64-bit integers:
+ * The default comparison uses doubles, which cannot represent all of the values.
+ */
+template <typename T0, typename T1>
+static int compareIntegers(const T0 &v0, const T1 &v1)
+{
+    if ((v0 < 0) != (v1 < 0)) return (v0 < 0)? -1 : +1;
+    typedef typename std::common_type<T0, T1>::type T; //same sign, so the order is preserved
+    return Pothos::Util::compareTo(T(v0), T(v1));
+}
+
+template <typename T0>
+static void registerCompareIntegers(const std::string &name)
+{
+    Pothos::PluginRegistry::addCall("/object/compare/"+name+"_to_slong", &compareIntegers<T0, signed long>);
+    Pothos::PluginRegistry::addCall("/object/compare/"+name+"_to_ulong", &compareIntegers<T0, unsigned long>);
+    Pothos::PluginRegistry::addCall("/object/compare/"+name+"_to_sllong", &compareIntegers<T0, signed long long>);
+    Pothos::PluginRegistry::addCall("/object/compare/"+name+"_to_ullong", &compareIntegers<T0, unsigned long long>);
+}
+
 pothos_static_block(pothosObjectRegisterCompare)
 {
     Pothos::PluginRegistry::addCall("/object/compare/null_to_null", &compareNullObjects);
     Pothos::PluginRegistry::addCall("/object/compare/string_to_string", &compareStrings);
+    registerCompareIntegers<signed long>("slong");
+    registerCompareIntegers<unsigned long>("ulong");
+    registerCompareIntegers<signed long long>("sllong");
+    registerCompareIntegers<unsigned long long>("ullong");
 }
-- 
2.43.0


From 7e28f7ab47a5837d2d18971ed3336ca91de21b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:24 +0000
Subject: [PATCH 16/34] fix: comparing an object with a complex number threw
 the wrong exception

---
 lib/Object/Compare.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Object/Compare.cpp b/lib/Object/Compare.cpp
index bbf0fe8..837b081 100644
--- a/lib/Object/Compare.cpp
+++ b/lib/Object/Compare.cpp
@@ -88,6 +88,7 @@ int Pothos::Object::compareTo(const Pothos::Object &other) const
         return Pothos::Util::compareTo(double(*this), double(other));
     }
     catch(const Pothos::ObjectConvertError &){}
+    catch(const Pothos::RangeException &){} //not a real number
 
     //thow an error when the compare is not supported
     if (it == getCompareMap().end()) throw Pothos::ObjectCompareError(
-- 
2.43.0


From 5d1e968172907e4830aceca868d054b5602b5d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:24 +0000
Subject: [PATCH 17/34] fix: removed object plugins left unusable entries
 behind

---
 lib/Object/Compare.cpp  | 2 +-
 lib/Object/Convert.cpp  | 2 +-
 lib/Object/Hash.cpp     | 2 +-
 lib/Object/ToString.cpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Object/Compare.cpp b/lib/Object/Compare.cpp
index 837b081..5b1a6f2 100644
--- a/lib/Object/Compare.cpp
+++ b/lib/Object/Compare.cpp
@@ -55,7 +55,7 @@ static void handleComparePluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getCompareMap()[typesHashCombine(t0, t1)] = Pothos::Plugin();
+            getCompareMap().erase(typesHashCombine(t0, t1));
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Object/Convert.cpp b/lib/Object/Convert.cpp
index 84e9bf5..c2b19e7 100644
--- a/lib/Object/Convert.cpp
+++ b/lib/Object/Convert.cpp
@@ -64,7 +64,7 @@ static void handleConvertPluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getConvertMap()[typesHashCombine(inputType, outputType)] = Pothos::Plugin();
+            getConvertMap().erase(typesHashCombine(inputType, outputType));
             getConvertIoMap()[inputType.hash_code()].erase(outputType.hash_code());
         }
     }
diff --git a/lib/Object/Hash.cpp b/lib/Object/Hash.cpp
index 1e0d16d..0acc355 100644
--- a/lib/Object/Hash.cpp
+++ b/lib/Object/Hash.cpp
@@ -49,7 +49,7 @@ static void handleHashFcnPluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getHashFcnMap()[call.type(0).hash_code()] = Pothos::Plugin();
+            getHashFcnMap().erase(call.type(0).hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Object/ToString.cpp b/lib/Object/ToString.cpp
index 5c2fa35..a91f929 100644
--- a/lib/Object/ToString.cpp
+++ b/lib/Object/ToString.cpp
@@ -59,7 +59,7 @@ static void handleToStringPluginEvent(const Pothos::Plugin &plugin, const std::s
         }
         if (event == "remove")
         {
-            getToStringMap()[t.hash_code()] = Pothos::Plugin();
+            getToStringMap().erase(t.hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
-- 
2.43.0


From e2db117b3e606b9200e8969a8cb5e18cfa1f3b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:24 +0000
Subject: [PATCH 18/34] fix: empty plugin paths were accepted and concatenation
 with the root path failed

---
 lib/Plugin/Path.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Plugin/Path.cpp b/lib/Plugin/Path.cpp
index 0e0d3e7..f862750 100644
--- a/lib/Plugin/Path.cpp
+++ b/lib/Plugin/Path.cpp
@@ -8,6 +8,7 @@
 static void validatePathString(const std::string &path)
 {
     if (path == "/") return; //root path is ok, but may be funny for tokenizer since it ends in /
+    if (path.empty()) throw Pothos::PluginPathError("Pothos::PluginPath()", "must start with root slash");
     bool first = true;
     for (const auto &name : Poco::StringTokenizer(path, "/"))
     {
@@ -44,7 +45,8 @@ Pothos::PluginPath::PluginPath(const std::string &path):
 }
 
 Pothos::PluginPath::PluginPath(const PluginPath &path0, const PluginPath &path1):
-    _path(path0._path + path1._path) //should always be valid because of individual PluginPath rules
+    _path((path0._path == "/")? path1._path : //don't join with only root /
+        (path1._path == "/")? path0._path : path0._path + path1._path) //should always be valid because of individual PluginPath rules
 {
     validatePathString(_path);
 }
-- 
2.43.0


From ec2e672186e3e2152c42df08d4d311bed9349284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:24 +0000
Subject: [PATCH 19/34] fix: plugin registry lookups modified the registry
 under the shared lock

---
 lib/Plugin/Registry.cpp | 67 +++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 40 deletions(-)

diff --git a/lib/Plugin/Registry.cpp b/lib/Plugin/Registry.cpp
index 08b25b7..9951bf1 100644
--- a/lib/Plugin/Registry.cpp
+++ b/lib/Plugin/Registry.cpp
@@ -47,6 +47,21 @@ static RegistryEntry &getRegistryRoot(void)
     return regRoot;
 }
 
+//lookup without creating entries -- readers only hold the shared lock
+//an empty entry is returned when there is nothing at the given path
+static const RegistryEntry &findRegistryEntry(const std::vector<std::string> &pathNodes)
+{
+    static const RegistryEntry emptyEntry;
+    const RegistryEntry *root = &getRegistryRoot();
+    for (const auto &name : pathNodes)
+    {
+        auto it = root->nodes.find(name);
+        if (it == root->nodes.end()) return emptyEntry;
+        root = &it->second;
+    }
+    return *root;
+}
+
 /***********************************************************************
  * plugin event handler
  **********************************************************************/
@@ -87,13 +102,13 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
     {
         Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
         const std::vector<std::string> pathNodes = path.listNodes();
-        RegistryEntry *root = &getRegistryRoot();
+        const RegistryEntry *root = &getRegistryRoot();
 
         for (size_t i = 0; i+1 < pathNodes.size(); i++)
         {
             parentPlugins.insert(parentPlugins.begin(), root->plugin);
             //next node in the tree at this node name
-            root = &root->nodes[pathNodes[i]];
+            root = &root->nodes.at(pathNodes[i]);
         }
         parentPlugins.insert(parentPlugins.begin(), root->plugin);
     }
@@ -188,22 +203,15 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
 Pothos::Plugin Pothos::PluginRegistry::get(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry &root = findRegistryEntry(path.listNodes());
 
     //throw if the root does not have a plugin
-    if (not root->hasPlugin)
+    if (not root.hasPlugin)
     {
         throw Pothos::PluginRegistryError("Pothos::PluginRegistry::get("+path.toString()+")", "plugin path not found");
     }
 
-    return root->plugin;
+    return root.plugin;
 }
 
 Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
@@ -242,49 +250,28 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
 bool Pothos::PluginRegistry::empty(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
+    const RegistryEntry &root = findRegistryEntry(path.listNodes());
 
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
-
-    return not root->hasPlugin;
+    return not root.hasPlugin;
 }
 
 bool Pothos::PluginRegistry::exists(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
+    const RegistryEntry &root = findRegistryEntry(path.listNodes());
 
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
-
-    return root->getNumPlugins() != 0;
+    return root.getNumPlugins() != 0;
 }
 
 std::vector<std::string> Pothos::PluginRegistry::list(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry &root = findRegistryEntry(path.listNodes());
 
     std::vector<std::string> nodes;
-    for (const auto &name : root->nodeNamesOrdered)
+    for (const auto &name : root.nodeNamesOrdered)
     {
-        if (root->nodes[name].getNumPlugins() != 0) nodes.push_back(name);
+        if (root.nodes.at(name).getNumPlugins() != 0) nodes.push_back(name);
     }
     return nodes;
 }
-- 
2.43.0


From de677f9ac1f3cc126055ae0c56ec589b998eb316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:24 +0000
Subject: [PATCH 20/34] fix: appending a chunk across buffers dropped a
 trailing partial element

---
 lib/Framework/BufferChunk.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Framework/BufferChunk.cpp b/lib/Framework/BufferChunk.cpp
index 94553c4..4144a44 100644
--- a/lib/Framework/BufferChunk.cpp
+++ b/lib/Framework/BufferChunk.cpp
@@ -30,7 +30,8 @@ void Pothos::BufferChunk::append(const BufferChunk &other)
         }
 
         //otherwise make a new buffer and copy in the contents
-        *this = Pothos::BufferChunk(other.dtype, other.elements());
+        *this = Pothos::BufferChunk(other.length);
+        this->dtype = other.dtype;
         std::memcpy((void *)this->address, (const void *)other.address, this->length);
     }
     //otherwise allocate and copy two buffers together
-- 
2.43.0


From 7afbea71edf9db4de2e2e96e71c178bd487669a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:24 +0000
Subject: [PATCH 21/34] fix: alias of a buffer chunk at the start of the second
 mapping

---
 include/Pothos/Framework/BufferChunk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Pothos/Framework/BufferChunk.hpp b/include/Pothos/Framework/BufferChunk.hpp
index ba2c89f..f5c615e 100644
--- a/include/Pothos/Framework/BufferChunk.hpp
+++ b/include/Pothos/Framework/BufferChunk.hpp
@@ -408,7 +408,7 @@ inline size_t Pothos::BufferChunk::getAlias(void) const
 {
     const auto &buffer = getBuffer();
     if (buffer.getAlias() == 0) return 0;
-    if (address > buffer.getAlias()) return address - buffer.getAliasOffset();
+    if (address >= buffer.getAlias()) return address - buffer.getAliasOffset();
     else return address + buffer.getAliasOffset();
 }
 
-- 
2.43.0


From 0fa1a391a21923e41e8380d86ca507adfe8003cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:24 +0000
Subject: [PATCH 22/34] fix: buffer conversion with multi-dimensional types

---
 lib/Framework/BufferConvert.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/Framework/BufferConvert.cpp b/lib/Framework/BufferConvert.cpp
index 64ac6f8..4f7d26f 100644
--- a/lib/Framework/BufferConvert.cpp
+++ b/lib/Framework/BufferConvert.cpp
@@ -117,7 +117,7 @@ Pothos::BufferChunk Pothos::BufferChunk::convert(const DType &outDType, const si
 {
     const size_t numElems = (numElems_ == 0)? this->elements() : numElems_;
     const auto primElems = (numElems*this->dtype.size())/this->dtype.elemSize();
-    const auto outElems = primElems*outDType.size()/outDType.elemSize();
+    const auto outElems = primElems/outDType.dimension();
 
     //same dtype or integers of same type (ignore signedness)
     if (outDType.elemType() == this->dtype.elemType() or (
@@ -137,7 +137,7 @@ Pothos::BufferChunk Pothos::BufferChunk::convert(const DType &outDType, const si
         "Pothos::BufferChunk::convert("+dtype.toString()+")", "can't convert from " + this->dtype.toString());
     Pothos::BufferChunk out(outDType, outElems);
 
-    it->second(this->as<const void *>(), out.as<void *>(), primElems);
+    it->second(this->as<const void *>(), out.as<void *>(), outElems*outDType.dimension());
     return out;
 }
 
@@ -145,7 +145,7 @@ std::pair<Pothos::BufferChunk, Pothos::BufferChunk> Pothos::BufferChunk::convert
 {
     const size_t numElems = (numElems_ == 0)? this->elements() : numElems_;
     const auto primElems = (numElems*this->dtype.size())/this->dtype.elemSize();
-    const auto outElems = primElems*outDType.size()/outDType.elemSize();
+    const auto outElems = primElems/outDType.dimension();
 
     auto it = getBufferConvertImpl().convertComplexMap.find(dtypeIOToHash(this->dtype, outDType));
     if (it == getBufferConvertImpl().convertComplexMap.end()) throw Pothos::BufferConvertError(
@@ -153,7 +153,7 @@ std::pair<Pothos::BufferChunk, Pothos::BufferChunk> Pothos::BufferChunk::convert
     Pothos::BufferChunk outRe(outDType, outElems);
     Pothos::BufferChunk outIm(outDType, outElems);
 
-    it->second(this->as<const void *>(), outRe.as<void *>(), outIm.as<void *>(), primElems);
+    it->second(this->as<const void *>(), outRe.as<void *>(), outIm.as<void *>(), outElems*outDType.dimension());
     return std::make_pair(outRe, outIm);
 }
 
@@ -161,7 +161,7 @@ size_t Pothos::BufferChunk::convert(const BufferChunk &out, const size_t numElem
 {
     const size_t numElems = (numElems_ == 0)? this->elements() : numElems_;
     const auto primElems = (numElems*this->dtype.size())/this->dtype.elemSize();
-    const auto outElems = primElems*out.dtype.size()/out.dtype.elemSize();
+    const auto outElems = primElems/out.dtype.dimension();
 
     if (out.elements() < outElems) throw Pothos::BufferConvertError(
         "Pothos::BufferChunk::convert(buffer)", "insufficient input buffer");
@@ -170,7 +170,7 @@ size_t Pothos::BufferChunk::convert(const BufferChunk &out, const size_t numElem
     if (it == getBufferConvertImpl().convertMap.end()) throw Pothos::BufferConvertError(
         "Pothos::BufferChunk::convert("+dtype.toString()+")", "can't convert from " + this->dtype.toString());
 
-    it->second(this->as<const void *>(), out.as<void *>(), primElems);
+    it->second(this->as<const void *>(), out.as<void *>(), outElems*out.dtype.dimension());
     return outElems;
 }
 
@@ -178,7 +178,7 @@ size_t Pothos::BufferChunk::convertComplex(const BufferChunk &outRe, const Buffe
 {
     const size_t numElems = (numElems_ == 0)? this->elements() : numElems_;
     const auto primElems = (numElems*this->dtype.size())/this->dtype.elemSize();
-    const auto outElems = primElems*outRe.dtype.size()/outRe.dtype.elemSize();
+    const auto outElems = primElems/outRe.dtype.dimension();
 
     if (not (outRe.dtype == outIm.dtype)) throw Pothos::BufferConvertError(
         "Pothos::BufferChunk::convertComplex(bufferRe, bufferIm)", "buffer DType mismatch");
@@ -191,6 +191,6 @@ size_t Pothos::BufferChunk::convertComplex(const BufferChunk &outRe, const Buffe
     if (it == getBufferConvertImpl().convertComplexMap.end()) throw Pothos::BufferConvertError(
         "Pothos::BufferChunk::convertComplex("+dtype.toString()+")", "can't convert from " + this->dtype.toString());
 
-    it->second(this->as<const void *>(), outRe.as<void *>(), outIm.as<void *>(), primElems);
+    it->second(this->as<const void *>(), outRe.as<void *>(), outIm.as<void *>(), outElems*outRe.dtype.dimension());
     return outElems;
 }
-- 
2.43.0


From bd7ee1eeda95012443f2b245bdee011c98000736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:24 +0000
Subject: [PATCH 23/34] fix: malformed dimensions in a data type markup were
 accepted

---
 lib/Framework/DType.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Framework/DType.cpp b/lib/Framework/DType.cpp
index 9b5397c..20a957c 100644
--- a/lib/Framework/DType.cpp
+++ b/lib/Framework/DType.cpp
@@ -182,6 +182,12 @@ static ElementTypes parseMarkupName(const std::string &markup, size_t &dimension
     const auto alias = Poco::trim(markup.substr(0, commaPos));
     const auto dimStr = Poco::trim(markup.substr(commaPos+1));
 
+    //stoull() would accept a sign and trailing characters
+    if (dimStr.find_first_not_of("0123456789") != std::string::npos)
+    {
+        throw Pothos::DTypeUnknownError("Pothos::DType("+markup+")", "can't parse markup: bad dimension");
+    }
+
     try
     {
         dimension = size_t(std::stoull(dimStr));
-- 
2.43.0


From 5ca3f0031886fe9d194c1c38d7501a812c2c8704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:59 +0000
Subject: [PATCH 24/34] fix: data race on the wait mode flag of a thread pool

---
 lib/Framework/ThreadEnvironment.cpp | 10 ++++------
 lib/Framework/ThreadEnvironment.hpp |  2 +-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/Framework/ThreadEnvironment.cpp b/lib/Framework/ThreadEnvironment.cpp
index f432141..8c6bea9 100644
--- a/lib/Framework/ThreadEnvironment.cpp
+++ b/lib/Framework/ThreadEnvironment.cpp
@@ -28,8 +28,7 @@ void ThreadEnvironment::registerTask(void *handle, TaskData::Task task, TaskData
     std::lock_guard<std::mutex> lock(_registrationMutex);
 
     //disable wait mode
-    bool waitModeEnabled = false;
-    std::swap(waitModeEnabled, _waitModeEnabled);
+    const bool waitModeEnabled = _waitModeEnabled.exchange(false);
 
     //register the new task and bump the signature to notify threads
     {
@@ -56,7 +55,7 @@ void ThreadEnvironment::registerTask(void *handle, TaskData::Task task, TaskData
     }
 
     //restore wait mode
-    std::swap(waitModeEnabled, _waitModeEnabled);
+    _waitModeEnabled = waitModeEnabled;
 }
 
 void ThreadEnvironment::unregisterTask(void *handle)
@@ -65,8 +64,7 @@ void ThreadEnvironment::unregisterTask(void *handle)
     std::shared_ptr<TaskData> data;
 
     //disable wait mode
-    bool waitModeEnabled = false;
-    std::swap(waitModeEnabled, _waitModeEnabled);
+    const bool waitModeEnabled = _waitModeEnabled.exchange(false);
 
     //unregister the new task and bump the signature to notify threads
     {
@@ -102,7 +100,7 @@ void ThreadEnvironment::unregisterTask(void *handle)
     while (not data.unique()) std::this_thread::sleep_for(std::chrono::milliseconds(1));
 
     //restore wait mode
-    std::swap(waitModeEnabled, _waitModeEnabled);
+    _waitModeEnabled = waitModeEnabled;
 }
 
 /*!
diff --git a/lib/Framework/ThreadEnvironment.hpp b/lib/Framework/ThreadEnvironment.hpp
index 78337db..3013784 100644
--- a/lib/Framework/ThreadEnvironment.hpp
+++ b/lib/Framework/ThreadEnvironment.hpp
@@ -106,7 +106,7 @@ private:
     Pothos::ThreadPoolArgs _args;
 
     //whether or not waiting is allowed based on args
-    bool _waitModeEnabled;
+    std::atomic<bool> _waitModeEnabled;
 
     //map of handle handles to tasks
     std::map<void *, std::shared_ptr<TaskData>> _handleToTask;
-- 
2.43.0


From b7b22c2473c2366537e5b7cc12abd5dea9c8f6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:59 +0000
Subject: [PATCH 25/34] fix: port names that are not the text of an index
 replaced or broke indexed ports

---
 lib/Framework/WorkerActorPortAllocation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Framework/WorkerActorPortAllocation.cpp b/lib/Framework/WorkerActorPortAllocation.cpp
index f946af8..0af780b 100644
--- a/lib/Framework/WorkerActorPortAllocation.cpp
+++ b/lib/Framework/WorkerActorPortAllocation.cpp
@@ -17,6 +17,12 @@ static int portNameToIndex(const std::string &name)
         if (not std::isdigit(ch)) return -1;
     }
 
+    //only the canonical text of a number is an index:
+    //leading zeros would take the place of another port,
+    //and larger numbers do not fit into an index
+    if (name.empty() or name.size() > 9) return -1;
+    if (name.size() > 1 and name.front() == '0') return -1;
+
     //convert the string to an integer
     return std::stoi(name);
 }
-- 
2.43.0


From 0ecb7b22458d63462d8a3d83939624afec0d0987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:51 +0000
Subject: [PATCH 26/34] fix: disconnecting the ports of a hierarchy looked in
 the wrong port lists

---
 lib/Framework/Topology.cpp | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index 23ca564..da98238 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -147,6 +147,10 @@ void Pothos::Topology::_connect(
             throw Pothos::TopologyConnectError("Pothos::Topology::connect()", flow.dst.toString() + " has no input port named " + dstName);
     }
 
+    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
+    if (it != _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::connect()",
+        Poco::format("this flow already exists in the topology(%s)", flow.toString()));
+
     //store port info for connections to the hierarchy
     if (not flow.src.obj and flow.dst.obj)
     {
@@ -187,10 +191,6 @@ void Pothos::Topology::_connect(
         _impl->outputPortInfo[dstName].name = dstName;
     }
 
-    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
-    if (it != _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::connect()",
-        Poco::format("this flow already exists in the topology(%s)", flow.toString()));
-
     _impl->flows.push_back(flow);
 }
 
@@ -208,22 +208,29 @@ void Pothos::Topology::_disconnect(
     flow.dst = _impl->makePort(dst, dstName);
 
     //validate that the ports exists before disconnection
-    std::vector<std::string> outs = getConnectable(src).call("outputPortNames");
-    if (std::find(outs.begin(), outs.end(), srcName) == outs.end())
-        throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.src.toString() + " has no output port named " + srcName);
-
-    std::vector<std::string> ins = getConnectable(dst).call("inputPortNames");
-    if (std::find(ins.begin(), ins.end(), dstName) == ins.end())
-        throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.dst.toString() + " has no input port named " + dstName);
+    if (flow.src.obj)
+    {
+        std::vector<std::string> outs = getConnectable(src).call("outputPortNames");
+        if (std::find(outs.begin(), outs.end(), srcName) == outs.end())
+            throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.src.toString() + " has no output port named " + srcName);
+    }
 
-    //clear port info for disconnections from the hierarchy
-    if (not flow.src.obj) _impl->outputPortNames.erase(std::find(_impl->outputPortNames.begin(), _impl->outputPortNames.end(), srcName));
-    if (not flow.dst.obj) _impl->inputPortNames.erase(std::find(_impl->inputPortNames.begin(), _impl->inputPortNames.end(), dstName));
+    if (flow.dst.obj)
+    {
+        std::vector<std::string> ins = getConnectable(dst).call("inputPortNames");
+        if (std::find(ins.begin(), ins.end(), dstName) == ins.end())
+            throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.dst.toString() + " has no input port named " + dstName);
+    }
 
     const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
     if (it == _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()",
         Poco::format("this flow does not exist in the topology(%s)", flow.toString()));
 
+    //clear port info for disconnections from the hierarchy
+    //the source of a flow from the hierarchy is an input port of the topology, see _connect()
+    if (not flow.src.obj) _impl->inputPortNames.erase(std::find(_impl->inputPortNames.begin(), _impl->inputPortNames.end(), srcName));
+    if (not flow.dst.obj) _impl->outputPortNames.erase(std::find(_impl->outputPortNames.begin(), _impl->outputPortNames.end(), dstName));
+
     //perform auto-deletion, on a block this may or may not delete, on a topology this throws
     try{getConnectable(src).get("_actor").call("autoDeleteOutput", srcName);}catch(const Exception &){}
     try{getConnectable(dst).get("_actor").call("autoDeleteInput", dstName);}catch(const Exception &){}
-- 
2.43.0


From b2d7ecabfb330622498731d6040fb47c77887907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:51 +0000
Subject: [PATCH 27/34] fix: pass-through topologies in a row were not
 connected, unrelated flows were

---
 lib/Framework/TopologyCommit.cpp | 61 ++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/lib/Framework/TopologyCommit.cpp b/lib/Framework/TopologyCommit.cpp
index 4239cc6..52f6646 100644
--- a/lib/Framework/TopologyCommit.cpp
+++ b/lib/Framework/TopologyCommit.cpp
@@ -158,34 +158,57 @@ static void updateFlows(const std::vector<Flow> &flows, const std::string &actio
 /***********************************************************************
  * complete pass-through flows
  **********************************************************************/
-static std::vector<Flow> completePassThroughFlows(const std::vector<Flow> &flows)
+static void followPassThroughFlows(
+    const std::vector<Flow> &flows, const Port &src, const Port &dst,
+    std::vector<Port> &visited, std::vector<Flow> &outFlows)
 {
-    std::vector<Flow> outFlows;
-    //std::cout << "completePassThroughFlows:" << std::endl;
-    //for (const auto &flow : flows) std::cout << "  " << flow.toString() << std::endl;
+    //each port is followed once, pass-through topologies might be connected into a loop
+    if (std::find(visited.begin(), visited.end(), dst) != visited.end()) return;
+    visited.push_back(dst);
 
-    //try to complete pass-through flows and add it to the out flow list
-    for (auto &flow : flows)
+    for (const auto &flow : flows)
     {
+        //a pass-through begins and ends at the same topology,
+        //all other flows without objects connect two of them
         if (flow.src.obj or flow.dst.obj) continue;
-        for (auto &flowTail : flows)
+        if (flow.src.uid != flow.dst.uid) continue;
+        if (not (flow.dst == dst)) continue;
+
+        for (const auto &flowTail : flows)
         {
-            if (not flowTail.dst.obj) continue;
-            for (auto &flowHead : flows)
+            if (flowTail.src.obj) continue;
+            if (not (flowTail.src == flow.src)) continue;
+            if (flowTail.dst.obj)
             {
-                if (not flowHead.src.obj) continue;
-                if (flow.src == flowTail.src and flow.dst == flowHead.dst)
-                {
-                    //create the new completed flow
-                    Flow newFlow;
-                    newFlow.src = flowHead.src;
-                    newFlow.dst = flowTail.dst;
-                    outFlows.push_back(newFlow);
-                    //std::cout << "NEW " << newFlow.toString() << std::endl;
-                }
+                //create the new completed flow
+                Flow newFlow;
+                newFlow.src = src;
+                newFlow.dst = flowTail.dst;
+                outFlows.push_back(newFlow);
+                //std::cout << "NEW " << newFlow.toString() << std::endl;
+            }
+            //otherwise the flow leads to the next pass-through
+            else if (flowTail.src.uid != flowTail.dst.uid)
+            {
+                followPassThroughFlows(flows, src, flowTail.dst, visited, outFlows);
             }
         }
     }
+}
+
+static std::vector<Flow> completePassThroughFlows(const std::vector<Flow> &flows)
+{
+    std::vector<Flow> outFlows;
+    //std::cout << "completePassThroughFlows:" << std::endl;
+    //for (const auto &flow : flows) std::cout << "  " << flow.toString() << std::endl;
+
+    //try to complete pass-through flows and add it to the out flow list
+    for (const auto &flowHead : flows)
+    {
+        if (not flowHead.src.obj or flowHead.dst.obj) continue;
+        std::vector<Port> visited;
+        followPassThroughFlows(flows, flowHead.src, flowHead.dst, visited, outFlows);
+    }
 
     //add all already completed flows to the output flow
     for (auto &flow : flows)
-- 
2.43.0


From dba04582a5cf4fbbf2a3b47d51c92bac52acc833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:00 +0000
Subject: [PATCH 28/34] fix: disconnectAll left the ports of the topology and
 did not reach nested topologies

---
 lib/Framework/Topology.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index da98238..6145047 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -246,13 +246,13 @@ void Pothos::Topology::disconnectAll(const bool recursive)
         //throws ProxyHandleCallError on non topologies (aka blocks)
         if (flow.src.obj) try
         {
-            flow.src.obj.call("disconnectAll");
+            flow.src.obj.call("disconnectAll", true);
         }
         catch (const Pothos::Exception &){}
 
         if (flow.dst.obj) try
         {
-            flow.dst.obj.call("disconnectAll");
+            flow.dst.obj.call("disconnectAll", true);
         }
         catch (const Pothos::Exception &){}
     }
@@ -264,8 +264,10 @@ void Pothos::Topology::disconnectAll(const bool recursive)
         if (flow.dst.obj) try{getInternalBlock(flow.dst.obj).get("_actor").call("autoDeleteInput", flow.dst.name);}catch(const Exception &){}
     }
 
-    //clear our own local flows
+    //clear our own local flows and the ports of the hierarchy that they made
     _impl->flows.clear();
+    _impl->inputPortNames.clear();
+    _impl->outputPortNames.clear();
 }
 
 bool Pothos::Topology::waitInactive(const double idleDuration, const double timeout)
-- 
2.43.0


From ed2708a54bb94703c427393dcb81f80885060c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:17 +0000
Subject: [PATCH 29/34] fix: conversions to complex<float> accepted values
 beyond its range

---
 lib/Object/Builtin/ConvertCommonImpl.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/Object/Builtin/ConvertCommonImpl.hpp b/lib/Object/Builtin/ConvertCommonImpl.hpp
index 0fe53c0..9d490e2 100644
--- a/lib/Object/Builtin/ConvertCommonImpl.hpp
+++ b/lib/Object/Builtin/ConvertCommonImpl.hpp
@@ -110,16 +110,24 @@ void convertNumHelper(const std::complex<InType> &in, OutType &out)
     out = OutType(in.real());
 }
 
+//! one part of a complex output: only a smaller type may not fit the value
+template <typename OutType, typename InType>
+OutType convertNumPart(const InType &in)
+{
+    if (sizeof(InType) > sizeof(OutType)) convertNumCheck<OutType>(in);
+    return OutType(in);
+}
+
 template <typename InType, typename OutType>
 void convertNumHelper(const InType &in, std::complex<OutType> &out)
 {
-    out = std::complex<OutType>(OutType(in));
+    out = std::complex<OutType>(convertNumPart<OutType>(in));
 }
 
 template <typename InType, typename OutType>
 void convertNumHelper(const std::complex<InType> &in, std::complex<OutType> &out)
 {
-    out = std::complex<OutType>(OutType(in.real()), OutType(in.imag()));
+    out = std::complex<OutType>(convertNumPart<OutType>(in.real()), convertNumPart<OutType>(in.imag()));
 }
 
 template <typename InType, typename OutType>
@@ -217,7 +225,7 @@ namespace detail
      */
     template <typename InType, typename OutType>
     inline typename std::enable_if<
-        !CanConvertWithoutValidation<InType, OutType>::value && !BothComplex<InType, OutType>::value && !std::is_same<InType, OutType>::value,
+        !CanConvertWithoutValidation<InType, OutType>::value && !(BothComplex<InType, OutType>::value && sizeof(InType) <= sizeof(OutType)) && !std::is_same<InType, OutType>::value,
         std::vector<OutType>
     >::type
     convertVec(const std::vector<InType> &in)
@@ -225,9 +233,9 @@ namespace detail
         return manualConvertVec<InType, OutType>(in);
     }
 
-    // Let the scalar implementation dictate what to do
+    // The value of each part always fits an output type that is not smaller
     template <typename InType, typename OutType>
-    inline typename std::enable_if<BothComplex<InType, OutType>::value && !std::is_same<InType, OutType>::value, std::vector<OutType>>::type
+    inline typename std::enable_if<BothComplex<InType, OutType>::value && sizeof(InType) <= sizeof(OutType) && !std::is_same<InType, OutType>::value, std::vector<OutType>>::type
     convertVec(const std::vector<InType> &in)
     {
         return simdConvertVec<InType, OutType>(in);
-- 
2.43.0


From 99db79a458bd2e0149f7ababe5f33d72a36b8e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:17 +0000
Subject: [PATCH 30/34] fix: converting an object map to kwargs put quotes
 around the string keys

---
 lib/Proxy/Builtin/ConvertContainers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Proxy/Builtin/ConvertContainers.cpp b/lib/Proxy/Builtin/ConvertContainers.cpp
index f0df302..941079e 100644
--- a/lib/Proxy/Builtin/ConvertContainers.cpp
+++ b/lib/Proxy/Builtin/ConvertContainers.cpp
@@ -130,7 +130,9 @@ static Pothos::ObjectKwargs convertObjectMapToObjectKwargs(const Pothos::ObjectM
     Pothos::ObjectKwargs kwargs;
     for (const auto &pair : oMap)
     {
-        kwargs.emplace_hint(kwargs.end(), pair.first.toString(), pair.second);
+        //toString() would add quotes to a string key
+        const bool isString = pair.first.type() == typeid(std::string);
+        kwargs.emplace(isString? pair.first.extract<std::string>() : pair.first.toString(), pair.second);
     }
     return kwargs;
 }
-- 
2.43.0


From fa3f7599425e60d118b09aa237f28501f809fdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:17 +0000
Subject: [PATCH 31/34] fix: a removed managed class or proxy conversion was
 still looked up, as a null plugin

---
 lib/Managed/Registry.cpp | 6 +++---
 lib/Proxy/Convert.cpp    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/Managed/Registry.cpp b/lib/Managed/Registry.cpp
index 1c3d1bd..0579570 100644
--- a/lib/Managed/Registry.cpp
+++ b/lib/Managed/Registry.cpp
@@ -49,9 +49,9 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
         }
         if (event == "remove")
         {
-            getClassMap()[reg.type().hash_code()] = Pothos::Plugin();
-            getClassMap()[reg.pointerType().hash_code()] = Pothos::Plugin();
-            getClassMap()[reg.sharedType().hash_code()] = Pothos::Plugin();
+            getClassMap().erase(reg.type().hash_code());
+            getClassMap().erase(reg.pointerType().hash_code());
+            getClassMap().erase(reg.sharedType().hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Proxy/Convert.cpp b/lib/Proxy/Convert.cpp
index 873805b..5612e90 100644
--- a/lib/Proxy/Convert.cpp
+++ b/lib/Proxy/Convert.cpp
@@ -105,7 +105,7 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
             }
             if (event == "remove")
             {
-                getConvertToLocalMap()[hashIt(name, pair.first)] = Pothos::Plugin();
+                getConvertToLocalMap().erase(hashIt(name, pair.first));
             }
         }
         else if (isConvertToProxy(plugin))
@@ -118,7 +118,7 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
             }
             if (event == "remove")
             {
-                getConvertToProxyMap()[hashIt(name, callable.type(1))] = Pothos::Plugin();
+                getConvertToProxyMap().erase(hashIt(name, callable.type(1)));
             }
         }
         else
-- 
2.43.0


From 487692498c699bbd96b7df73ae787294b9396747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 32/34] fix: a converted argument of a remote call was removed
 on the server before the call

---
 lib/Remote/RemoteProxyHandle.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Remote/RemoteProxyHandle.cpp b/lib/Remote/RemoteProxyHandle.cpp
index f53c0ad..0838aaf 100644
--- a/lib/Remote/RemoteProxyHandle.cpp
+++ b/lib/Remote/RemoteProxyHandle.cpp
@@ -37,9 +37,11 @@ Pothos::Proxy RemoteProxyHandle::call(const std::string &name, const Pothos::Pro
     req["action"] = Pothos::Object("call");
     req["handleID"] = Pothos::Object(this->remoteID);
     req["name"] = Pothos::Object(name);
+    //converted arguments exist on the server as long as their handles
+    std::vector<std::shared_ptr<RemoteProxyHandle>> handles(numArgs);
     for (size_t i = 0; i < numArgs; i++)
     {
-        std::shared_ptr<RemoteProxyHandle> handle;
+        auto &handle = handles[i];
         try
         {
             handle = env->getHandle(args[i]);
-- 
2.43.0


From 17c0390f8dfdb1ab75a3a8533d5a164256b886a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 33/34] fix: a value that cannot be serialized broke the whole
 remote connection

---
 lib/Remote/RemoteProxy.cpp   |  3 ++-
 lib/Remote/ServerHandler.cpp | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/Remote/RemoteProxy.cpp b/lib/Remote/RemoteProxy.cpp
index 10bd940..59aeb7b 100644
--- a/lib/Remote/RemoteProxy.cpp
+++ b/lib/Remote/RemoteProxy.cpp
@@ -32,7 +32,8 @@ Pothos::ObjectKwargs RemoteProxyEnvironment::transact(const Pothos::ObjectKwargs
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
     {
-        connectionActive = false;
+        //nothing was sent when the request could not be serialized
+        if (not os) connectionActive = false;
         throw Pothos::IOException("RemoteProxyEnvironment::sendDatagram()", ex.message());
     }
 
diff --git a/lib/Remote/ServerHandler.cpp b/lib/Remote/ServerHandler.cpp
index 586fb6c..7262099 100644
--- a/lib/Remote/ServerHandler.cpp
+++ b/lib/Remote/ServerHandler.cpp
@@ -171,7 +171,18 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
     }
 
     //serialize the reply
-    sendDatagram(os, replyArgs);
+    POTHOS_EXCEPTION_TRY
+    {
+        sendDatagram(os, replyArgs);
+    }
+    //nothing was sent when the reply could not be serialized -- tell the caller
+    POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
+    {
+        Pothos::ObjectKwargs errorArgs;
+        errorArgs["tid"] = reqArgs.at("tid");
+        errorArgs["errorMsg"] = Pothos::Object(ex.displayText());
+        sendDatagram(os, errorArgs);
+    }
 
     return done;
 }
-- 
2.43.0


From fa0d723bfec86ec08311780377f5c9bf17261d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 34/34] fix: a thread could wait forever for a remote reply
 when the connection broke

---
 lib/Remote/RemoteProxy.cpp | 5 ++++-
 lib/Remote/RemoteProxy.hpp | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Remote/RemoteProxy.cpp b/lib/Remote/RemoteProxy.cpp
index 59aeb7b..c92d2c1 100644
--- a/lib/Remote/RemoteProxy.cpp
+++ b/lib/Remote/RemoteProxy.cpp
@@ -71,9 +71,12 @@ Pothos::ObjectKwargs RemoteProxyEnvironment::transact(const Pothos::ObjectKwargs
         }
         POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
         {
+            //under the lock, so that no waiter misses the notification
+            lock.lock();
+            connectionActive = false;
             isBlocking = false;
+            lock.unlock();
             isCond.notify_all();
-            connectionActive = false;
             throw Pothos::IOException("RemoteProxyEnvironment::recvDatagram()", ex.message());
         }
         lock.lock();
diff --git a/lib/Remote/RemoteProxy.hpp b/lib/Remote/RemoteProxy.hpp
index b9842c1..04f70a4 100644
--- a/lib/Remote/RemoteProxy.hpp
+++ b/lib/Remote/RemoteProxy.hpp
@@ -5,6 +5,7 @@
 #include <Pothos/Config.hpp>
 #include <Pothos/Proxy.hpp>
 #include <Pothos/Object/Containers.hpp>
+#include <atomic>
 #include <mutex>
 #include <condition_variable>
 
@@ -72,7 +73,7 @@ public:
     std::istream &is;
     std::ostream &os;
     const std::string name;
-    bool connectionActive;
+    std::atomic<bool> connectionActive;
 
     std::mutex osMutex;
     std::mutex isMutex;
-- 
2.43.0

