From 8a8afbf1a6967fff92c98bd137ff0017bd83ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:19 +0000
Subject: [PATCH 01/76] fix: RingDeque self assignment no longer discards its
 elements

---
 include/Pothos/Util/RingDeque.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Pothos/Util/RingDeque.hpp b/include/Pothos/Util/RingDeque.hpp
index d0cf340..2737ea3 100644
--- a/include/Pothos/Util/RingDeque.hpp
+++ b/include/Pothos/Util/RingDeque.hpp
@@ -177,6 +177,7 @@ RingDeque<T, A>::RingDeque(RingDeque<T, A> &&other):
 template <typename T, typename A>
 RingDeque<T, A> &RingDeque<T, A>::operator=(const RingDeque<T, A> &other)
 {
+    if (this == &other) return *this;
     this->clear();
     this->set_capacity(other.capacity());
     for (size_t i = 0; i < other.size(); i++)
@@ -189,6 +190,7 @@ RingDeque<T, A> &RingDeque<T, A>::operator=(const RingDeque<T, A> &other)
 template <typename T, typename A>
 RingDeque<T, A> &RingDeque<T, A>::operator=(RingDeque<T, A> &&other)
 {
+    if (this == &other) return *this;
     this->clear();
     _allocator.deallocate(_container, _mask+1);
     _allocator = std::move(other._allocator);
-- 
2.43.0


From b6d005724bc98a668906e5c67efabc4105639464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:32 +0000
Subject: [PATCH 02/76] fix: reject sub-buffer lengths that overflow the
 address range

---
 lib/Framework/SharedBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Framework/SharedBuffer.cpp b/lib/Framework/SharedBuffer.cpp
index 712d538..f0f8757 100644
--- a/lib/Framework/SharedBuffer.cpp
+++ b/lib/Framework/SharedBuffer.cpp
@@ -36,7 +36,8 @@ Pothos::SharedBuffer::SharedBuffer(const size_t address, const size_t length, co
 {
     if (_alias != 0) _alias += _address - buffer.getAddress();
     const bool beginInRange = (_address >= buffer.getAddress())/* and (_address < buffer.getAddress() + buffer.getLength())*/;
-    const bool endInRange = (_address + _length <= std::max(buffer.getAlias(), buffer.getAddress()) + buffer.getLength());
+    const size_t endAddress = std::max(buffer.getAlias(), buffer.getAddress()) + buffer.getLength();
+    const bool endInRange = (_address <= endAddress and _length <= endAddress - _address); //avoids overflow in address + length
     if (not beginInRange or not endInRange)
     {
         throw SharedBufferError("Pothos::SharedBuffer()", "not a subset");
-- 
2.43.0


From 977514c262c7f6da57623519e5a23d930b395b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:32 +0000
Subject: [PATCH 03/76] fix: circular buffer mapping could land on memory taken
 by another thread

---
 lib/Framework/SharedBufferUnix.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/lib/Framework/SharedBufferUnix.cpp b/lib/Framework/SharedBufferUnix.cpp
index da55b32..d892404 100644
--- a/lib/Framework/SharedBufferUnix.cpp
+++ b/lib/Framework/SharedBufferUnix.cpp
@@ -119,11 +119,9 @@ private:
 
     void cleanup(void)
     {
-        if (mapPtr1 != MAP_FAILED) munmap(mapPtr1, _numBytes);
-        mapPtr1 = MAP_FAILED;
-
-        if (mapPtr0 != MAP_FAILED) munmap(mapPtr0, _numBytes);
-        mapPtr0 = MAP_FAILED;
+        //the reservation and both mappings inside of it
+        if (virtualAddr2X != MAP_FAILED) munmap(virtualAddr2X, _numBytes*2);
+        virtualAddr2X = MAP_FAILED;
 
         if (tmpFd >= 0)
         {
@@ -141,7 +139,7 @@ private:
 
 CircularBufferContainer::CircularBufferContainer(const size_t numBytes):
     _numBytes(numBytes),
-    virtualAddr2X(nullptr),
+    virtualAddr2X(MAP_FAILED),
     tmpFd(-1),
     mapPtr0(MAP_FAILED),
     mapPtr1(MAP_FAILED)
@@ -172,17 +170,16 @@ CircularBufferContainer::CircularBufferContainer(const size_t numBytes):
         -1, off_t(0));
     if (virtualAddr2X == MAP_FAILED) this->errorOut("mmap(2x)");
 
-    ret = munmap(virtualAddr2X, numBytes*2);
-    if (ret != 0) this->errorOut("munmap(2x)");
-
     /*******************************************************************
      * Step 3) perform overlapping virtual mappings
+     * Replace the reservation from step 2 in place with MAP_FIXED,
+     * so that no other thread can be given this range in the meantime.
      ******************************************************************/
     mapPtr0 = mmap(
         virtualAddr2X,
         numBytes,
         PROT_READ | PROT_WRITE,
-        MAP_SHARED,
+        MAP_SHARED | MAP_FIXED,
         tmpFd, off_t(0));
     if (mapPtr0 == MAP_FAILED) this->errorOut("mmap(0)");
 
@@ -190,7 +187,7 @@ CircularBufferContainer::CircularBufferContainer(const size_t numBytes):
         (void *)(size_t(virtualAddr2X) + numBytes),
         numBytes,
         PROT_READ | PROT_WRITE,
-        MAP_SHARED,
+        MAP_SHARED | MAP_FIXED,
         tmpFd, off_t(0));
     if (mapPtr1 == MAP_FAILED) this->errorOut("mmap(1)");
 }
-- 
2.43.0


From 73ea33448f98f33370b4d9252b96422681b16d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:33 +0000
Subject: [PATCH 04/76] fix: BufferAccumulator moved back into bytes that were
 not copied from the next buffer

---
 include/Pothos/Framework/BufferAccumulator.hpp | 1 +
 lib/Framework/BufferAccumulator.cpp            | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Framework/BufferAccumulator.hpp b/include/Pothos/Framework/BufferAccumulator.hpp
index 914e115..7395c4c 100644
--- a/include/Pothos/Framework/BufferAccumulator.hpp
+++ b/include/Pothos/Framework/BufferAccumulator.hpp
@@ -87,6 +87,7 @@ private:
     Util::RingDeque<BufferChunk> _queue;
     size_t _bytesAvailable;
     bool _inPoolBuffer;
+    size_t _poolTailBytes; //bytes at the end of the pool buffer copied out of front+1
     BufferPool _pool;
 };
 
diff --git a/lib/Framework/BufferAccumulator.cpp b/lib/Framework/BufferAccumulator.cpp
index 7dc7476..c3647b4 100644
--- a/lib/Framework/BufferAccumulator.cpp
+++ b/lib/Framework/BufferAccumulator.cpp
@@ -16,7 +16,8 @@
 Pothos::BufferAccumulator::BufferAccumulator(void):
     _queue(64/*arbitrary*/),
     _bytesAvailable(0),
-    _inPoolBuffer(false)
+    _inPoolBuffer(false),
+    _poolTailBytes(0)
 {
     //never let the queue become empty -- hold an empty buffer
     if (_queue.empty()) _queue.push_front(BufferChunk());
@@ -27,6 +28,7 @@ void Pothos::BufferAccumulator::clear(void)
     _queue.clear();
     _bytesAvailable = 0;
     _inPoolBuffer = false;
+    _poolTailBytes = 0;
     _pool.clear();
 
     //never let the queue become empty -- hold an empty buffer
@@ -132,7 +134,7 @@ void Pothos::BufferAccumulator::pop(const size_t numBytes)
     //then pop the front and move into front+1.
     if (
         _inPoolBuffer and queue.size() > 1 and //pool in front
-        queue.front().length <= (queue[1].address - queue[1].getBuffer().getAddress()))
+        queue.front().length <= _poolTailBytes)
     {
         queue[1].address -= queue.front().length;
         queue[1].length += queue.front().length;
@@ -197,6 +199,7 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
     newBuffer.length = 0;
 
     //copy from the queue into the new buffer
+    _poolTailBytes = 0;
     while (not queue.empty())
     {
         //copy the front buffer into the new buffer
@@ -220,6 +223,7 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
             assert(newBuffBytes == 0);
             f.length -= copyBytes;
             f.address += copyBytes;
+            _poolTailBytes = copyBytes;
             break;
         }
     }
-- 
2.43.0


From 2457836be60e3cfaed0fb29a8f4990d9a15c8406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:04 +0000
Subject: [PATCH 05/76] fix: self assignment of ManagedBuffer and BufferChunk
 released the buffer

---
 include/Pothos/Framework/BufferChunk.hpp   | 2 ++
 include/Pothos/Framework/ManagedBuffer.hpp | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Pothos/Framework/BufferChunk.hpp b/include/Pothos/Framework/BufferChunk.hpp
index 299f121..08d8bf7 100644
--- a/include/Pothos/Framework/BufferChunk.hpp
+++ b/include/Pothos/Framework/BufferChunk.hpp
@@ -350,6 +350,7 @@ inline Pothos::BufferChunk::~BufferChunk(void)
 
 inline Pothos::BufferChunk &Pothos::BufferChunk::operator=(const BufferChunk &other)
 {
+    if (this == &other) return *this;
     _decrNextBuffers();
     address = other.address;
     length = other.length;
@@ -361,6 +362,7 @@ inline Pothos::BufferChunk &Pothos::BufferChunk::operator=(const BufferChunk &ot
 
 inline Pothos::BufferChunk &Pothos::BufferChunk::operator=(BufferChunk &&other)
 {
+    if (this == &other) return *this;
     _decrNextBuffers();
     address = std::move(other.address);
     length = std::move(other.length);
diff --git a/include/Pothos/Framework/ManagedBuffer.hpp b/include/Pothos/Framework/ManagedBuffer.hpp
index bf308cd..e95b613 100644
--- a/include/Pothos/Framework/ManagedBuffer.hpp
+++ b/include/Pothos/Framework/ManagedBuffer.hpp
@@ -221,14 +221,15 @@ inline Pothos::ManagedBuffer::ManagedBuffer(ManagedBuffer &&obj) noexcept:
 
 inline Pothos::ManagedBuffer &Pothos::ManagedBuffer::operator=(const ManagedBuffer &obj)
 {
+    if (obj._impl != nullptr) obj._impl->incr();
     if (_impl != nullptr) _impl->decr();
     this->_impl = obj._impl;
-    if (_impl != nullptr) _impl->incr();
     return *this;
 }
 
 inline Pothos::ManagedBuffer &Pothos::ManagedBuffer::operator=(ManagedBuffer &&obj)
 {
+    if (this == &obj) return *this;
     if (_impl != nullptr) _impl->decr();
     this->_impl = obj._impl;
     obj._impl = nullptr;
-- 
2.43.0


From 472ee7e6253d993ae1968b34cf9dce2eae37887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:04 +0000
Subject: [PATCH 06/76] fix: BufferChunk conversions between types with
 dimension other than one

---
 lib/Framework/BufferConvert.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/Framework/BufferConvert.cpp b/lib/Framework/BufferConvert.cpp
index 64ac6f8..59b338d 100644
--- a/lib/Framework/BufferConvert.cpp
+++ b/lib/Framework/BufferConvert.cpp
@@ -117,7 +117,7 @@ Pothos::BufferChunk Pothos::BufferChunk::convert(const DType &outDType, const si
 {
     const size_t numElems = (numElems_ == 0)? this->elements() : numElems_;
     const auto primElems = (numElems*this->dtype.size())/this->dtype.elemSize();
-    const auto outElems = primElems*outDType.size()/outDType.elemSize();
+    const auto outElems = primElems*outDType.elemSize()/outDType.size();
 
     //same dtype or integers of same type (ignore signedness)
     if (outDType.elemType() == this->dtype.elemType() or (
@@ -137,7 +137,7 @@ Pothos::BufferChunk Pothos::BufferChunk::convert(const DType &outDType, const si
         "Pothos::BufferChunk::convert("+dtype.toString()+")", "can't convert from " + this->dtype.toString());
     Pothos::BufferChunk out(outDType, outElems);
 
-    it->second(this->as<const void *>(), out.as<void *>(), primElems);
+    it->second(this->as<const void *>(), out.as<void *>(), outElems*outDType.dimension());
     return out;
 }
 
@@ -145,7 +145,7 @@ std::pair<Pothos::BufferChunk, Pothos::BufferChunk> Pothos::BufferChunk::convert
 {
     const size_t numElems = (numElems_ == 0)? this->elements() : numElems_;
     const auto primElems = (numElems*this->dtype.size())/this->dtype.elemSize();
-    const auto outElems = primElems*outDType.size()/outDType.elemSize();
+    const auto outElems = primElems*outDType.elemSize()/outDType.size();
 
     auto it = getBufferConvertImpl().convertComplexMap.find(dtypeIOToHash(this->dtype, outDType));
     if (it == getBufferConvertImpl().convertComplexMap.end()) throw Pothos::BufferConvertError(
@@ -153,7 +153,7 @@ std::pair<Pothos::BufferChunk, Pothos::BufferChunk> Pothos::BufferChunk::convert
     Pothos::BufferChunk outRe(outDType, outElems);
     Pothos::BufferChunk outIm(outDType, outElems);
 
-    it->second(this->as<const void *>(), outRe.as<void *>(), outIm.as<void *>(), primElems);
+    it->second(this->as<const void *>(), outRe.as<void *>(), outIm.as<void *>(), outElems*outDType.dimension());
     return std::make_pair(outRe, outIm);
 }
 
@@ -161,7 +161,7 @@ size_t Pothos::BufferChunk::convert(const BufferChunk &out, const size_t numElem
 {
     const size_t numElems = (numElems_ == 0)? this->elements() : numElems_;
     const auto primElems = (numElems*this->dtype.size())/this->dtype.elemSize();
-    const auto outElems = primElems*out.dtype.size()/out.dtype.elemSize();
+    const auto outElems = primElems*out.dtype.elemSize()/out.dtype.size();
 
     if (out.elements() < outElems) throw Pothos::BufferConvertError(
         "Pothos::BufferChunk::convert(buffer)", "insufficient input buffer");
@@ -170,7 +170,7 @@ size_t Pothos::BufferChunk::convert(const BufferChunk &out, const size_t numElem
     if (it == getBufferConvertImpl().convertMap.end()) throw Pothos::BufferConvertError(
         "Pothos::BufferChunk::convert("+dtype.toString()+")", "can't convert from " + this->dtype.toString());
 
-    it->second(this->as<const void *>(), out.as<void *>(), primElems);
+    it->second(this->as<const void *>(), out.as<void *>(), outElems*out.dtype.dimension());
     return outElems;
 }
 
@@ -178,7 +178,7 @@ size_t Pothos::BufferChunk::convertComplex(const BufferChunk &outRe, const Buffe
 {
     const size_t numElems = (numElems_ == 0)? this->elements() : numElems_;
     const auto primElems = (numElems*this->dtype.size())/this->dtype.elemSize();
-    const auto outElems = primElems*outRe.dtype.size()/outRe.dtype.elemSize();
+    const auto outElems = primElems*outRe.dtype.elemSize()/outRe.dtype.size();
 
     if (not (outRe.dtype == outIm.dtype)) throw Pothos::BufferConvertError(
         "Pothos::BufferChunk::convertComplex(bufferRe, bufferIm)", "buffer DType mismatch");
@@ -191,6 +191,6 @@ size_t Pothos::BufferChunk::convertComplex(const BufferChunk &outRe, const Buffe
     if (it == getBufferConvertImpl().convertComplexMap.end()) throw Pothos::BufferConvertError(
         "Pothos::BufferChunk::convertComplex("+dtype.toString()+")", "can't convert from " + this->dtype.toString());
 
-    it->second(this->as<const void *>(), outRe.as<void *>(), outIm.as<void *>(), primElems);
+    it->second(this->as<const void *>(), outRe.as<void *>(), outIm.as<void *>(), outElems*outRe.dtype.dimension());
     return outElems;
 }
-- 
2.43.0


From 07d28ac3d7878798f1b61777513e2dcfce612261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:15 +0000
Subject: [PATCH 07/76] fix: in-place output could overwrite circular buffer
 memory shared with another consumer

Circular buffers handed out one after the other overlap, so contiguous chunks
are joined within the first chunk's bounds and only the first chunk's use count
was checked before the memory was written in place.
---
 include/Pothos/Framework/InputPort.hpp     | 1 +
 include/Pothos/Framework/InputPortImpl.hpp | 6 ++++++
 lib/Framework/WorkerActor.cpp              | 3 ++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/Pothos/Framework/InputPort.hpp b/include/Pothos/Framework/InputPort.hpp
index 09f325b..f6c4bc4 100644
--- a/include/Pothos/Framework/InputPort.hpp
+++ b/include/Pothos/Framework/InputPort.hpp
@@ -263,6 +263,7 @@ private:
 
     /////// input buffer interface /////////
     void bufferAccumulatorFront(BufferChunk &);
+    bool bufferAccumulatorSingle(void);
     void bufferAccumulatorPush(const BufferChunk &buffer);
     void bufferAccumulatorPushNoLock(BufferChunk &&buffer);
     void bufferAccumulatorPop(const size_t numBytes);
diff --git a/include/Pothos/Framework/InputPortImpl.hpp b/include/Pothos/Framework/InputPortImpl.hpp
index 6710a43..2b0262f 100644
--- a/include/Pothos/Framework/InputPortImpl.hpp
+++ b/include/Pothos/Framework/InputPortImpl.hpp
@@ -171,6 +171,12 @@ inline void Pothos::InputPort::bufferAccumulatorFront(Pothos::BufferChunk &buff)
     buff = _bufferAccumulator.front();
 }
 
+inline bool Pothos::InputPort::bufferAccumulatorSingle(void)
+{
+    std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);
+    return _bufferAccumulator.getUniqueManagedBufferCount() <= 1;
+}
+
 inline void Pothos::InputPort::bufferAccumulatorPush(const BufferChunk &buffer)
 {
     std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);
diff --git a/lib/Framework/WorkerActor.cpp b/lib/Framework/WorkerActor.cpp
index f166d78..0c0e93c 100644
--- a/lib/Framework/WorkerActor.cpp
+++ b/lib/Framework/WorkerActor.cpp
@@ -317,7 +317,8 @@ bool Pothos::WorkerActor::preWorkTasks(void)
 
         //now determine the buffer provided to this port
         if (tryRBW and port._buffer.useCount() == 2 and //2 -> accumulator + this port
-            port._buffer.getEnd() <= port._buffer.getBuffer().getEnd()) //no amalgamation
+            port._buffer.getEnd() <= port._buffer.getBuffer().getEnd() and //no amalgamation
+            (port._buffer.getAlias() == 0 or port._readBeforeWritePort->bufferAccumulatorSingle())) //circular buffers overlap
         {
             port._bufferFromManager = false;
         }
-- 
2.43.0


From 4c681c2d1c165fca07a35f90cb3f7338fcab9f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:22 +0000
Subject: [PATCH 08/76] fix: never write circular buffers in place, their use
 count misses overlapping buffers

Another consumer that joined contiguous circular buffers only refers to the
first of them, so the use count of a following buffer does not show that its
bytes are still being read.
---
 include/Pothos/Framework/InputPort.hpp     | 1 -
 include/Pothos/Framework/InputPortImpl.hpp | 6 ------
 lib/Framework/WorkerActor.cpp              | 2 +-
 3 files changed, 1 insertion(+), 8 deletions(-)

diff --git a/include/Pothos/Framework/InputPort.hpp b/include/Pothos/Framework/InputPort.hpp
index f6c4bc4..09f325b 100644
--- a/include/Pothos/Framework/InputPort.hpp
+++ b/include/Pothos/Framework/InputPort.hpp
@@ -263,7 +263,6 @@ private:
 
     /////// input buffer interface /////////
     void bufferAccumulatorFront(BufferChunk &);
-    bool bufferAccumulatorSingle(void);
     void bufferAccumulatorPush(const BufferChunk &buffer);
     void bufferAccumulatorPushNoLock(BufferChunk &&buffer);
     void bufferAccumulatorPop(const size_t numBytes);
diff --git a/include/Pothos/Framework/InputPortImpl.hpp b/include/Pothos/Framework/InputPortImpl.hpp
index 2b0262f..6710a43 100644
--- a/include/Pothos/Framework/InputPortImpl.hpp
+++ b/include/Pothos/Framework/InputPortImpl.hpp
@@ -171,12 +171,6 @@ inline void Pothos::InputPort::bufferAccumulatorFront(Pothos::BufferChunk &buff)
     buff = _bufferAccumulator.front();
 }
 
-inline bool Pothos::InputPort::bufferAccumulatorSingle(void)
-{
-    std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);
-    return _bufferAccumulator.getUniqueManagedBufferCount() <= 1;
-}
-
 inline void Pothos::InputPort::bufferAccumulatorPush(const BufferChunk &buffer)
 {
     std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);
diff --git a/lib/Framework/WorkerActor.cpp b/lib/Framework/WorkerActor.cpp
index 0c0e93c..54028f8 100644
--- a/lib/Framework/WorkerActor.cpp
+++ b/lib/Framework/WorkerActor.cpp
@@ -318,7 +318,7 @@ bool Pothos::WorkerActor::preWorkTasks(void)
         //now determine the buffer provided to this port
         if (tryRBW and port._buffer.useCount() == 2 and //2 -> accumulator + this port
             port._buffer.getEnd() <= port._buffer.getBuffer().getEnd() and //no amalgamation
-            (port._buffer.getAlias() == 0 or port._readBeforeWritePort->bufferAccumulatorSingle())) //circular buffers overlap
+            port._buffer.getAlias() == 0) //circular buffers overlap, the use count does not tell
         {
             port._bufferFromManager = false;
         }
-- 
2.43.0


From 213a0c7e7a213a74c5e0a391f36f331b9488cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:22 +0000
Subject: [PATCH 09/76] fix: read the buffer use count with acquire order
 before writing in place

The count decides whether memory that another thread has read may be written;
the relaxed load did not order the write after those reads.
---
 include/Pothos/Framework/ManagedBuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Framework/ManagedBuffer.hpp b/include/Pothos/Framework/ManagedBuffer.hpp
index e95b613..999ccc0 100644
--- a/include/Pothos/Framework/ManagedBuffer.hpp
+++ b/include/Pothos/Framework/ManagedBuffer.hpp
@@ -250,13 +250,13 @@ inline bool Pothos::ManagedBuffer::operator<(const ManagedBuffer &rhs) const
 inline bool Pothos::ManagedBuffer::unique(void) const
 {
     if (_impl == nullptr) return false;
-    return _impl->counter.load(std::memory_order_relaxed) == 1;
+    return _impl->counter.load(std::memory_order_acquire) == 1;
 }
 
 inline size_t Pothos::ManagedBuffer::useCount(void) const
 {
     if (_impl == nullptr) return 0;
-    return _impl->counter.load(std::memory_order_relaxed);
+    return _impl->counter.load(std::memory_order_acquire);
 }
 
 inline void Pothos::ManagedBuffer::setNextBuffer(const ManagedBuffer &next)
-- 
2.43.0


From 6732d4ef2a09e5fdd3ec85b4882099281bc4820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:26 +0000
Subject: [PATCH 10/76] fix: sign extension when deserializing negative 64-bit
 integers

---
 include/Pothos/Archive/Numbers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Pothos/Archive/Numbers.hpp b/include/Pothos/Archive/Numbers.hpp
index c728386..b3bbcae 100644
--- a/include/Pothos/Archive/Numbers.hpp
+++ b/include/Pothos/Archive/Numbers.hpp
@@ -138,7 +138,7 @@ typename std::enable_if<
 
     //sign extend the remaining bits when negative
     const auto signbit = byte & 0x40;
-    if (signbit != 0 and shift < (sizeof(T)*8)) t |= -(1 << shift);
+    if (signbit != 0 and shift < (sizeof(T)*8)) t |= static_cast<T>(~typename std::make_unsigned<T>::type(0) << shift);
 }
 
 //------------ 32-64 bit unsigned integer types --------------//
-- 
2.43.0


From 436513b61330400482fb75a63ff7fd2eed00f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:26 +0000
Subject: [PATCH 11/76] fix: serialize all bytes of strings with wide
 characters

---
 include/Pothos/Archive/String.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Archive/String.hpp b/include/Pothos/Archive/String.hpp
index c7a09d7..2e396ef 100644
--- a/include/Pothos/Archive/String.hpp
+++ b/include/Pothos/Archive/String.hpp
@@ -22,7 +22,7 @@ template<typename Archive, typename T, typename Traits, typename Allocator>
 void save(Archive &ar, const std::basic_string<T, Traits, Allocator> &t, const unsigned int)
 {
     ar << unsigned(t.size());
-    BinaryObject bo(t.data(), t.size());
+    BinaryObject bo(t.data(), t.size()*sizeof(T));
     ar << bo;
 }
 
@@ -32,7 +32,7 @@ void load(Archive &ar, std::basic_string<T, Traits, Allocator> &t, const unsigne
     unsigned size(0);
     ar >> size;
     t.resize(size);
-    BinaryObject bo(t.data(), t.size());
+    BinaryObject bo(t.data(), t.size()*sizeof(T));
     ar >> bo;
 }
 
-- 
2.43.0


From 71f66497db8839740be5830dfbd287c7be46313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:11 +0000
Subject: [PATCH 12/76] fix: deserializing a stream that ends early hung or
 returned garbage

---
 lib/Archive/StreamArchiver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Archive/StreamArchiver.cpp b/lib/Archive/StreamArchiver.cpp
index 1b95898..3f6d6d2 100644
--- a/lib/Archive/StreamArchiver.cpp
+++ b/lib/Archive/StreamArchiver.cpp
@@ -3,6 +3,7 @@
 
 #include <Pothos/Archive/StreamArchiver.hpp>
 #include <Pothos/Archive/Numbers.hpp>
+#include <Pothos/Archive/Exception.hpp>
 #include <iostream>
 
 #define POTHOS_ARCHIVE_VERSION 2
@@ -28,5 +29,8 @@ Pothos::Archive::IStreamArchiver::IStreamArchiver(std::istream &is):
 void Pothos::Archive::IStreamArchiver::readBytes(void *buff, const size_t len)
 {
     if (len == 0) return;
-    is.read(reinterpret_cast<char *>(buff), len);
+    if (not is.read(reinterpret_cast<char *>(buff), len))
+    {
+        throw Pothos::ArchiveException("IStreamArchiver::readBytes()", "unexpected end of stream");
+    }
 }
-- 
2.43.0


From bf71b78725c24328d763ec325b5b01326ad24a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:06 +0000
Subject: [PATCH 13/76] fix: client threads could wait forever after the remote
 connection failed

---
 lib/Remote/RemoteProxy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Remote/RemoteProxy.cpp b/lib/Remote/RemoteProxy.cpp
index 10bd940..f1edcbc 100644
--- a/lib/Remote/RemoteProxy.cpp
+++ b/lib/Remote/RemoteProxy.cpp
@@ -70,9 +70,12 @@ Pothos::ObjectKwargs RemoteProxyEnvironment::transact(const Pothos::ObjectKwargs
         }
         POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
         {
+            //change the state under the lock so that no waiter misses the wake-up
+            lock.lock();
             isBlocking = false;
-            isCond.notify_all();
             connectionActive = false;
+            lock.unlock();
+            isCond.notify_all();
             throw Pothos::IOException("RemoteProxyEnvironment::recvDatagram()", ex.message());
         }
         lock.lock();
-- 
2.43.0


From 3022eadec3708d14db92ca6953d24baa49c37585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:35 +0000
Subject: [PATCH 14/76] fix: a value that cannot be serialized ended the remote
 connection

---
 lib/Remote/RemoteProxy.cpp   |  3 ++-
 lib/Remote/ServerHandler.cpp | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/Remote/RemoteProxy.cpp b/lib/Remote/RemoteProxy.cpp
index f1edcbc..1309485 100644
--- a/lib/Remote/RemoteProxy.cpp
+++ b/lib/Remote/RemoteProxy.cpp
@@ -32,7 +32,8 @@ Pothos::ObjectKwargs RemoteProxyEnvironment::transact(const Pothos::ObjectKwargs
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
     {
-        connectionActive = false;
+        //a request that cannot be serialized is never written, the connection remains usable
+        if (not os) connectionActive = false;
         throw Pothos::IOException("RemoteProxyEnvironment::sendDatagram()", ex.message());
     }
 
diff --git a/lib/Remote/ServerHandler.cpp b/lib/Remote/ServerHandler.cpp
index 586fb6c..1d59d9a 100644
--- a/lib/Remote/ServerHandler.cpp
+++ b/lib/Remote/ServerHandler.cpp
@@ -171,7 +171,18 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
     }
 
     //serialize the reply
-    sendDatagram(os, replyArgs);
+    POTHOS_EXCEPTION_TRY
+    {
+        sendDatagram(os, replyArgs);
+    }
+    POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
+    {
+        //a reply that cannot be serialized was not written: report the error instead
+        Pothos::ObjectKwargs errorArgs;
+        errorArgs["tid"] = reqArgs.at("tid");
+        errorArgs["errorMsg"] = Pothos::Object(ex.displayText());
+        sendDatagram(os, errorArgs);
+    }
 
     return done;
 }
-- 
2.43.0


From 0ba95ba980d3bdca84ba822cccfbc7bc837519a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:34 +0000
Subject: [PATCH 15/76] fix: remote call released converted arguments before
 making the call

---
 lib/Remote/RemoteProxyHandle.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Remote/RemoteProxyHandle.cpp b/lib/Remote/RemoteProxyHandle.cpp
index f53c0ad..2f51d84 100644
--- a/lib/Remote/RemoteProxyHandle.cpp
+++ b/lib/Remote/RemoteProxyHandle.cpp
@@ -5,6 +5,7 @@
 #include <Poco/Format.h>
 #include <Poco/Logger.h>
 #include <iostream>
+#include <vector>
 
 RemoteProxyHandle::RemoteProxyHandle(std::shared_ptr<RemoteProxyEnvironment> env, const size_t remoteID):
     env(env), remoteID(remoteID)
@@ -37,9 +38,12 @@ Pothos::Proxy RemoteProxyHandle::call(const std::string &name, const Pothos::Pro
     req["action"] = Pothos::Object("call");
     req["handleID"] = Pothos::Object(this->remoteID);
     req["name"] = Pothos::Object(name);
+
+    //converted arguments must stay alive on the server until after the call
+    std::vector<std::shared_ptr<RemoteProxyHandle>> handles(numArgs);
     for (size_t i = 0; i < numArgs; i++)
     {
-        std::shared_ptr<RemoteProxyHandle> handle;
+        auto &handle = handles[i];
         try
         {
             handle = env->getHandle(args[i]);
-- 
2.43.0


From e65ee8156098407f5e87a725f61fc366b483b233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:59 +0000
Subject: [PATCH 16/76] fix: plugin paths joined with the root path, and the
 empty path

---
 lib/Plugin/Path.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Plugin/Path.cpp b/lib/Plugin/Path.cpp
index 0e0d3e7..cb1474f 100644
--- a/lib/Plugin/Path.cpp
+++ b/lib/Plugin/Path.cpp
@@ -8,6 +8,7 @@
 static void validatePathString(const std::string &path)
 {
     if (path == "/") return; //root path is ok, but may be funny for tokenizer since it ends in /
+    if (path.empty()) throw Pothos::PluginPathError("Pothos::PluginPath("+path+")", "must start with root slash");
     bool first = true;
     for (const auto &name : Poco::StringTokenizer(path, "/"))
     {
@@ -44,7 +45,8 @@ Pothos::PluginPath::PluginPath(const std::string &path):
 }
 
 Pothos::PluginPath::PluginPath(const PluginPath &path0, const PluginPath &path1):
-    _path(path0._path + path1._path) //should always be valid because of individual PluginPath rules
+    //the root path / contributes no nodes, otherwise always valid because of individual PluginPath rules
+    _path((path0._path == "/")? path1._path : (path1._path == "/")? path0._path : path0._path + path1._path)
 {
     validatePathString(_path);
 }
-- 
2.43.0


From 426faf5e18039e5e1e3f590e2485cb4115da1ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:13 +0000
Subject: [PATCH 17/76] fix: plugin registry queries modified the tree under
 the shared lock

---
 lib/Plugin/Registry.cpp | 63 ++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 38 deletions(-)

diff --git a/lib/Plugin/Registry.cpp b/lib/Plugin/Registry.cpp
index 08b25b7..925ca8d 100644
--- a/lib/Plugin/Registry.cpp
+++ b/lib/Plugin/Registry.cpp
@@ -47,6 +47,20 @@ static RegistryEntry &getRegistryRoot(void)
     return regRoot;
 }
 
+//! Locate an entry without modifying the tree (callers may hold only the shared lock), nullptr when not found
+static const RegistryEntry *findRegistryEntry(const Pothos::PluginPath &path)
+{
+    const RegistryEntry *root = &getRegistryRoot();
+    for (const auto &name : path.listNodes())
+    {
+        //next node in the tree at this node name
+        const auto it = root->nodes.find(name);
+        if (it == root->nodes.end()) return nullptr;
+        root = &it->second;
+    }
+    return root;
+}
+
 /***********************************************************************
  * plugin event handler
  **********************************************************************/
@@ -87,13 +101,13 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
     {
         Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
         const std::vector<std::string> pathNodes = path.listNodes();
-        RegistryEntry *root = &getRegistryRoot();
+        const RegistryEntry *root = &getRegistryRoot();
 
         for (size_t i = 0; i+1 < pathNodes.size(); i++)
         {
             parentPlugins.insert(parentPlugins.begin(), root->plugin);
             //next node in the tree at this node name
-            root = &root->nodes[pathNodes[i]];
+            root = &root->nodes.at(pathNodes[i]);
         }
         parentPlugins.insert(parentPlugins.begin(), root->plugin);
     }
@@ -188,17 +202,10 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
 Pothos::Plugin Pothos::PluginRegistry::get(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path);
 
     //throw if the root does not have a plugin
-    if (not root->hasPlugin)
+    if (root == nullptr or not root->hasPlugin)
     {
         throw Pothos::PluginRegistryError("Pothos::PluginRegistry::get("+path.toString()+")", "plugin path not found");
     }
@@ -242,49 +249,29 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
 bool Pothos::PluginRegistry::empty(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
+    const RegistryEntry *root = findRegistryEntry(path);
 
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
-
-    return not root->hasPlugin;
+    return root == nullptr or not root->hasPlugin;
 }
 
 bool Pothos::PluginRegistry::exists(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path);
 
-    return root->getNumPlugins() != 0;
+    return root != nullptr and root->getNumPlugins() != 0;
 }
 
 std::vector<std::string> Pothos::PluginRegistry::list(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path);
 
     std::vector<std::string> nodes;
+    if (root == nullptr) return nodes;
     for (const auto &name : root->nodeNamesOrdered)
     {
-        if (root->nodes[name].getNumPlugins() != 0) nodes.push_back(name);
+        if (root->nodes.at(name).getNumPlugins() != 0) nodes.push_back(name);
     }
     return nodes;
 }
-- 
2.43.0


From dec628aa1a466a197331b351baa0c7d04fe37b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:47 +0000
Subject: [PATCH 18/76] fix: modifiable reference to a null object crashed
 instead of throwing

---
 lib/Object/Object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Object/Object.cpp b/lib/Object/Object.cpp
index 20339c3..395edbf 100644
--- a/lib/Object/Object.cpp
+++ b/lib/Object/Object.cpp
@@ -103,7 +103,7 @@ Pothos::Object &Pothos::Object::operator=(Object &&rhs)
 
 bool Pothos::Object::unique(void) const
 {
-    return _impl->counter.load(std::memory_order_relaxed) == 1;
+    return _impl != nullptr and _impl->counter.load(std::memory_order_relaxed) == 1;
 }
 
 std::string Pothos::Object::getTypeString(void) const
-- 
2.43.0


From b291a796b6ffdf8b896f6aceb72035a1e8427ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:10 +0000
Subject: [PATCH 19/76] fix: object assignment from itself or from inside its
 own value used freed memory

---
 lib/Object/Object.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/Object/Object.cpp b/lib/Object/Object.cpp
index 395edbf..296d24d 100644
--- a/lib/Object/Object.cpp
+++ b/lib/Object/Object.cpp
@@ -87,17 +87,24 @@ Pothos::Object::operator bool(void) const
 
 Pothos::Object &Pothos::Object::operator=(const Object &rhs)
 {
-    decr(_impl);
+    //reference the new value before dropping the old one:
+    //rhs may be this object or be held inside the old value
+    auto old = _impl;
     _impl = rhs._impl;
     incr(_impl);
+    decr(old);
     return *this;
 }
 
 Pothos::Object &Pothos::Object::operator=(Object &&rhs)
 {
-    decr(_impl);
-    _impl = rhs._impl;
+    //take the new value before dropping the old one:
+    //rhs may be this object or be held inside the old value
+    auto impl = rhs._impl;
     rhs._impl = nullptr;
+    auto old = _impl;
+    _impl = impl;
+    decr(old);
     return *this;
 }
 
-- 
2.43.0


From 7220744fc8bc131635d5927fb135c54b8e3e78fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:09 +0000
Subject: [PATCH 20/76] fix: read the object use count with acquire order
 before handing out a modifiable reference

---
 lib/Object/Object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Object/Object.cpp b/lib/Object/Object.cpp
index 296d24d..458072f 100644
--- a/lib/Object/Object.cpp
+++ b/lib/Object/Object.cpp
@@ -110,7 +110,7 @@ Pothos::Object &Pothos::Object::operator=(Object &&rhs)
 
 bool Pothos::Object::unique(void) const
 {
-    return _impl != nullptr and _impl->counter.load(std::memory_order_relaxed) == 1;
+    return _impl != nullptr and _impl->counter.load(std::memory_order_acquire) == 1;
 }
 
 std::string Pothos::Object::getTypeString(void) const
-- 
2.43.0


From a8ff4fd354874d75c84dfc21ffd21b136ccd85e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:01 +0000
Subject: [PATCH 21/76] fix: numeric conversions missed values just beyond the
 64-bit integer range, and NaN

The range check compared as double, where the limits of the 64-bit types
round up to the first value that does not fit.
---
 lib/Object/Builtin/ConvertCommonImpl.hpp | 27 ++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/lib/Object/Builtin/ConvertCommonImpl.hpp b/lib/Object/Builtin/ConvertCommonImpl.hpp
index d74c016..3101d6a 100644
--- a/lib/Object/Builtin/ConvertCommonImpl.hpp
+++ b/lib/Object/Builtin/ConvertCommonImpl.hpp
@@ -42,12 +42,35 @@ typedef std::complex<double> cdouble;
  * type conversion checkers
  **********************************************************************/
 
+//! integers compare exactly with the limits of an integer type
+template <typename OutType, typename InType>
+typename std::enable_if<std::is_integral<InType>::value and std::is_integral<OutType>::value, bool>::type
+isInRange(const InType &in)
+{
+    if (in < InType(0)) return std::is_signed<OutType>::value and sllong(in) >= sllong(std::numeric_limits<OutType>::lowest());
+    return ullong(in) <= ullong(std::numeric_limits<OutType>::max());
+}
+
+//! otherwise compare as double, NaN is not in the range of an integer type
+template <typename OutType, typename InType>
+typename std::enable_if<not (std::is_integral<InType>::value and std::is_integral<OutType>::value), bool>::type
+isInRange(const InType &in)
+{
+    const double value(in);
+    if (value != value) return not std::is_integral<OutType>::value;
+    if (value < double(std::numeric_limits<OutType>::lowest())) return false;
+    //the limit of a wide integer type rounds up to the first double that does not fit
+    const double upper(double(std::numeric_limits<OutType>::max()));
+    const bool roundsUp = std::is_integral<OutType>::value and
+        std::numeric_limits<OutType>::digits > std::numeric_limits<double>::digits;
+    return roundsUp?(value < upper):(value <= upper);
+}
+
 //! check if the input value can fit into the output type
 template <typename OutType, typename InType>
 void convertNumCheck(const InType &in)
 {
-    if (double(in) > double(std::numeric_limits<OutType>::max()) or //too large
-        double(in) < double(std::numeric_limits<OutType>::lowest())) //too small
+    if (not isInRange<OutType>(in)) //too large or too small
     {
         throw Pothos::RangeException(Poco::format("value %s out of range for output type %s",
             std::to_string(in), Pothos::Util::typeInfoToString(typeid(OutType))));
-- 
2.43.0


From ebf65dbfd0be11320298a8961d685e8eb74cccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:01 +0000
Subject: [PATCH 22/76] fix: conversions to complex numbers silently overflowed
 values out of range

---
 lib/Object/Builtin/ConvertCommonImpl.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/Object/Builtin/ConvertCommonImpl.hpp b/lib/Object/Builtin/ConvertCommonImpl.hpp
index 3101d6a..b59a2b6 100644
--- a/lib/Object/Builtin/ConvertCommonImpl.hpp
+++ b/lib/Object/Builtin/ConvertCommonImpl.hpp
@@ -109,12 +109,15 @@ void convertNumHelper(const std::complex<InType> &in, OutType &out)
 template <typename InType, typename OutType>
 void convertNumHelper(const InType &in, std::complex<OutType> &out)
 {
+    convertNumCheck<OutType>(in);
     out = std::complex<OutType>(OutType(in));
 }
 
 template <typename InType, typename OutType>
 void convertNumHelper(const std::complex<InType> &in, std::complex<OutType> &out)
 {
+    convertNumCheck<OutType>(in.real());
+    convertNumCheck<OutType>(in.imag());
     out = std::complex<OutType>(OutType(in.real()), OutType(in.imag()));
 }
 
@@ -221,9 +224,17 @@ namespace detail
         return manualConvertVec<InType, OutType>(in);
     }
 
+    // Narrowing complex conversions check each element like the scalar implementation
+    template <typename InType, typename OutType>
+    inline typename std::enable_if<BothComplex<InType, OutType>::value && (sizeof(InType) > sizeof(OutType)), std::vector<OutType>>::type
+    convertVec(const std::vector<InType> &in)
+    {
+        return manualConvertVec<InType, OutType>(in);
+    }
+
     // Let the scalar implementation dictate what to do
     template <typename InType, typename OutType>
-    inline typename std::enable_if<BothComplex<InType, OutType>::value && !std::is_same<InType, OutType>::value, std::vector<OutType>>::type
+    inline typename std::enable_if<BothComplex<InType, OutType>::value && (sizeof(InType) <= sizeof(OutType)) && !std::is_same<InType, OutType>::value, std::vector<OutType>>::type
     convertVec(const std::vector<InType> &in)
     {
         return simdConvertVec<InType, OutType>(in);
-- 
2.43.0


From ab3ee21667ce0770e5d722cdf1e07e06e712791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:22 +0000
Subject: [PATCH 23/76] fix: complex integers lost precision when converted
 through complex double

---
 lib/Object/Builtin/ConvertIntegers.cpp     | 1 +
 lib/Object/Builtin/ConvertIntermediate.cpp | 1 -
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Object/Builtin/ConvertIntegers.cpp b/lib/Object/Builtin/ConvertIntegers.cpp
index 4506f5b..109935a 100644
--- a/lib/Object/Builtin/ConvertIntegers.cpp
+++ b/lib/Object/Builtin/ConvertIntegers.cpp
@@ -8,4 +8,5 @@ pothos_static_block(pothosObjectRegisterConvertIntegers)
     //convert from intermediate
     declare_number_conversion1(sllong)
     declare_number_conversion1(ullong)
+    declare_number_conversion1(csllong)
 }
diff --git a/lib/Object/Builtin/ConvertIntermediate.cpp b/lib/Object/Builtin/ConvertIntermediate.cpp
index 327f37c..7c3bee4 100644
--- a/lib/Object/Builtin/ConvertIntermediate.cpp
+++ b/lib/Object/Builtin/ConvertIntermediate.cpp
@@ -23,5 +23,4 @@ pothos_static_block(pothosObjectRegisterConvertIntermediate)
     declare_number_conversion2(csshort, csllong)
     declare_number_conversion2(csint, csllong)
     declare_number_conversion2(cslong, csllong)
-    declare_number_conversion2(csllong, cdouble)
 }
-- 
2.43.0


From cb7409ecbc580aff4d7ac239f8567af06aaac686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:51 +0000
Subject: [PATCH 24/76] fix: objects could not be compared or hashed after
 their comparator or hash function was removed

---
 lib/Object/Compare.cpp | 2 +-
 lib/Object/Hash.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Object/Compare.cpp b/lib/Object/Compare.cpp
index bbf0fe8..96326f2 100644
--- a/lib/Object/Compare.cpp
+++ b/lib/Object/Compare.cpp
@@ -55,7 +55,7 @@ static void handleComparePluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getCompareMap()[typesHashCombine(t0, t1)] = Pothos::Plugin();
+            getCompareMap().erase(typesHashCombine(t0, t1));
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Object/Hash.cpp b/lib/Object/Hash.cpp
index 1e0d16d..0acc355 100644
--- a/lib/Object/Hash.cpp
+++ b/lib/Object/Hash.cpp
@@ -49,7 +49,7 @@ static void handleHashFcnPluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getHashFcnMap()[call.type(0).hash_code()] = Pothos::Plugin();
+            getHashFcnMap().erase(call.type(0).hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
-- 
2.43.0


From 715a539ec22776292864b6f5bf1fe9192b1d24e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:51 +0000
Subject: [PATCH 25/76] fix: comparing complex numbers reported a range error
 and not a compare error

---
 lib/Object/Compare.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Object/Compare.cpp b/lib/Object/Compare.cpp
index 96326f2..1e9c41b 100644
--- a/lib/Object/Compare.cpp
+++ b/lib/Object/Compare.cpp
@@ -88,6 +88,7 @@ int Pothos::Object::compareTo(const Pothos::Object &other) const
         return Pothos::Util::compareTo(double(*this), double(other));
     }
     catch(const Pothos::ObjectConvertError &){}
+    catch(const Pothos::RangeException &){} //complex number with imaginary component
 
     //thow an error when the compare is not supported
     if (it == getCompareMap().end()) throw Pothos::ObjectCompareError(
-- 
2.43.0


From 08b57470b918e238e3dd9f77bae7f93bfda7cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:51 +0000
Subject: [PATCH 26/76] fix: objects holding different large integers compared
 as equal

Numbers were compared as double, so that integers beyond 2^53 were
dropped from object sets and maps as duplicates.
---
 lib/Object/Compare.cpp | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/lib/Object/Compare.cpp b/lib/Object/Compare.cpp
index 1e9c41b..ae9e575 100644
--- a/lib/Object/Compare.cpp
+++ b/lib/Object/Compare.cpp
@@ -10,6 +10,7 @@
 #include <Pothos/Util/CompareTo.hpp>
 #include <Poco/Logger.h>
 #include <Poco/Format.h>
+#include <limits>
 #include <mutex>
 #include <map>
 
@@ -73,6 +74,41 @@ pothos_static_block(pothosObjectCompareRegister)
     Pothos::PluginRegistry::addCall("/object/compare", &handleComparePluginEvent);
 }
 
+/***********************************************************************
+ * Compare numbers of any type
+ **********************************************************************/
+static bool fitsIntoUnsigned(const Pothos::Object &obj, unsigned long long &value)
+{
+    try
+    {
+        value = obj.convert<unsigned long long>();
+        return true;
+    }
+    catch(const Pothos::RangeException &)
+    {
+        return false;
+    }
+}
+
+static int compareNumbers(const Pothos::Object &obj0, const Pothos::Object &obj1)
+{
+    const double v0(obj0), v1(obj1);
+    const double exactMax(9007199254740992.0); //2^53
+    if (v0 != v1 or (v0 < exactMax and v0 > -exactMax)) return Pothos::Util::compareTo(v0, v1);
+
+    //equal as double, but large integers may differ below the precision of double
+    if (v0 < 0)
+    {
+        if (v0 < double(std::numeric_limits<long long>::lowest())) return 0;
+        return Pothos::Util::compareTo(obj0.convert<long long>(), obj1.convert<long long>());
+    }
+    unsigned long long u0(0), u1(0);
+    const bool fits0 = fitsIntoUnsigned(obj0, u0);
+    const bool fits1 = fitsIntoUnsigned(obj1, u1);
+    if (fits0 and fits1) return Pothos::Util::compareTo(u0, u1);
+    return Pothos::Util::compareTo(int(not fits0), int(not fits1));
+}
+
 /***********************************************************************
  * The compare implementation
  **********************************************************************/
@@ -85,7 +121,7 @@ int Pothos::Object::compareTo(const Pothos::Object &other) const
     //try a number type just in the case that this is possible
     if (it == getCompareMap().end()) try
     {
-        return Pothos::Util::compareTo(double(*this), double(other));
+        return compareNumbers(*this, other);
     }
     catch(const Pothos::ObjectConvertError &){}
     catch(const Pothos::RangeException &){} //complex number with imaginary component
-- 
2.43.0


From ca3da8c29ca203fb3169e7b7c633a4fd81e5363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:11 +0000
Subject: [PATCH 27/76] fix: converting a float infinity to double reported a
 range error

---
 lib/Object/Builtin/ConvertCommonImpl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Object/Builtin/ConvertCommonImpl.hpp b/lib/Object/Builtin/ConvertCommonImpl.hpp
index b59a2b6..dcc5c28 100644
--- a/lib/Object/Builtin/ConvertCommonImpl.hpp
+++ b/lib/Object/Builtin/ConvertCommonImpl.hpp
@@ -12,6 +12,7 @@
 #include <Pothos/Callable.hpp>
 #include <Poco/Format.h>
 #include <limits>
+#include <cmath>
 #include <complex>
 #include <string>
 #include <vector>
@@ -51,13 +52,13 @@ isInRange(const InType &in)
     return ullong(in) <= ullong(std::numeric_limits<OutType>::max());
 }
 
-//! otherwise compare as double, NaN is not in the range of an integer type
+//! otherwise compare as double, NaN and infinity are only values of the floating point types
 template <typename OutType, typename InType>
 typename std::enable_if<not (std::is_integral<InType>::value and std::is_integral<OutType>::value), bool>::type
 isInRange(const InType &in)
 {
     const double value(in);
-    if (value != value) return not std::is_integral<OutType>::value;
+    if (not std::isfinite(value)) return not std::is_integral<OutType>::value;
     if (value < double(std::numeric_limits<OutType>::lowest())) return false;
     //the limit of a wide integer type rounds up to the first double that does not fit
     const double upper(double(std::numeric_limits<OutType>::max()));
-- 
2.43.0


From 24f538873e4b2c90d9fc51650e080bb642c84ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:13 +0000
Subject: [PATCH 28/76] fix: removed conversions were still reported as
 possible and hid other conversions

---
 lib/Object/Convert.cpp | 2 +-
 lib/Proxy/Convert.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Object/Convert.cpp b/lib/Object/Convert.cpp
index 84e9bf5..c2b19e7 100644
--- a/lib/Object/Convert.cpp
+++ b/lib/Object/Convert.cpp
@@ -64,7 +64,7 @@ static void handleConvertPluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getConvertMap()[typesHashCombine(inputType, outputType)] = Pothos::Plugin();
+            getConvertMap().erase(typesHashCombine(inputType, outputType));
             getConvertIoMap()[inputType.hash_code()].erase(outputType.hash_code());
         }
     }
diff --git a/lib/Proxy/Convert.cpp b/lib/Proxy/Convert.cpp
index 873805b..5612e90 100644
--- a/lib/Proxy/Convert.cpp
+++ b/lib/Proxy/Convert.cpp
@@ -105,7 +105,7 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
             }
             if (event == "remove")
             {
-                getConvertToLocalMap()[hashIt(name, pair.first)] = Pothos::Plugin();
+                getConvertToLocalMap().erase(hashIt(name, pair.first));
             }
         }
         else if (isConvertToProxy(plugin))
@@ -118,7 +118,7 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
             }
             if (event == "remove")
             {
-                getConvertToProxyMap()[hashIt(name, callable.type(1))] = Pothos::Plugin();
+                getConvertToProxyMap().erase(hashIt(name, callable.type(1)));
             }
         }
         else
-- 
2.43.0


From f7b386e442190be951fd57bec35237d694f99338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:13 +0000
Subject: [PATCH 29/76] fix: object maps converted to keyword arguments got
 quotes around their keys

---
 lib/Proxy/Builtin/ConvertContainers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Proxy/Builtin/ConvertContainers.cpp b/lib/Proxy/Builtin/ConvertContainers.cpp
index f0df302..78bd7ec 100644
--- a/lib/Proxy/Builtin/ConvertContainers.cpp
+++ b/lib/Proxy/Builtin/ConvertContainers.cpp
@@ -130,7 +130,9 @@ static Pothos::ObjectKwargs convertObjectMapToObjectKwargs(const Pothos::ObjectM
     Pothos::ObjectKwargs kwargs;
     for (const auto &pair : oMap)
     {
-        kwargs.emplace_hint(kwargs.end(), pair.first.toString(), pair.second);
+        //string keys are used as they are, toString() would add quotes
+        const bool isString = pair.first.type() == typeid(std::string);
+        kwargs.emplace(isString?pair.first.extract<std::string>():pair.first.toString(), pair.second);
     }
     return kwargs;
 }
-- 
2.43.0


From 9ec3932ed79265d298879055616bb7cce83c12c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 30/76] fix: looking up a managed class after its removal
 reported a conversion error

---
 lib/Managed/Registry.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Managed/Registry.cpp b/lib/Managed/Registry.cpp
index 1c3d1bd..0579570 100644
--- a/lib/Managed/Registry.cpp
+++ b/lib/Managed/Registry.cpp
@@ -49,9 +49,9 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
         }
         if (event == "remove")
         {
-            getClassMap()[reg.type().hash_code()] = Pothos::Plugin();
-            getClassMap()[reg.pointerType().hash_code()] = Pothos::Plugin();
-            getClassMap()[reg.sharedType().hash_code()] = Pothos::Plugin();
+            getClassMap().erase(reg.type().hash_code());
+            getClassMap().erase(reg.pointerType().hash_code());
+            getClassMap().erase(reg.sharedType().hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
-- 
2.43.0


From 5880fe18a7a8b6299c34b57f251524827acfbbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:41 +0000
Subject: [PATCH 31/76] fix: methods of a managed class with a wildcard handler
 were looked up in its base classes first

---
 lib/Managed/Builtin/ManagedHandle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Managed/Builtin/ManagedHandle.cpp b/lib/Managed/Builtin/ManagedHandle.cpp
index f405722..b4bea69 100644
--- a/lib/Managed/Builtin/ManagedHandle.cpp
+++ b/lib/Managed/Builtin/ManagedHandle.cpp
@@ -153,8 +153,8 @@ Pothos::Proxy ManagedProxyHandle::call(const std::string &name, const Pothos::Pr
     }
 
     //attempt to make the call on a base class
-    //always try to call the base class first if there is a wildcard handler
-    if (callMethod and (not call or wildcardCall))
+    //always try to call the base class before calling a wildcard handler
+    if (callMethod and (not call or doWildcardCall))
     {
         for (const auto &toBase : cls.getBaseClassConverters())
         {
-- 
2.43.0


From 46d7cf567b84eeeabf992c43f64961651642c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:32 +0000
Subject: [PATCH 32/76] fix: expressions with an unbalanced closing bracket
 crashed

---
 lib/Util/EvalEnvironmentListParsers.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Util/EvalEnvironmentListParsers.cpp b/lib/Util/EvalEnvironmentListParsers.cpp
index 5101706..91611c9 100644
--- a/lib/Util/EvalEnvironmentListParsers.cpp
+++ b/lib/Util/EvalEnvironmentListParsers.cpp
@@ -2,6 +2,7 @@
 // SPDX-License-Identifier: BSL-1.0
 
 #include <Pothos/Util/EvalEnvironment.hpp>
+#include <Pothos/Exception.hpp>
 #include <vector>
 #include <string>
 #include <stack>
@@ -25,6 +26,7 @@ std::vector<std::string> Pothos::Util::EvalEnvironment::splitExpr(const std::str
 
         else if ((ch == ')' and tokenizer != '\0') or ch == '}' or ch == ']')
         {
+            if (specials.empty()) throw Pothos::Exception("EvalEnvironment::eval("+expr+")", std::string("unexpected ") + ch);
             field.push_back(ch);
             if ((specials.top() == '(' and ch == ')') or
                 (specials.top() == '{' and ch == '}') or
-- 
2.43.0


From c050b8598f704c8bb08f96e8e8d1748d884225e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:32 +0000
Subject: [PATCH 33/76] fix: strings ending with an escaped backslash did not
 end in list and map expressions

---
 lib/Util/EvalEnvironmentListParsers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Util/EvalEnvironmentListParsers.cpp b/lib/Util/EvalEnvironmentListParsers.cpp
index 91611c9..3b33666 100644
--- a/lib/Util/EvalEnvironmentListParsers.cpp
+++ b/lib/Util/EvalEnvironmentListParsers.cpp
@@ -70,7 +70,8 @@ std::vector<std::string> Pothos::Util::EvalEnvironment::splitExpr(const std::str
             if (not field.empty() or not std::isspace(ch)) field.push_back(ch);
         }
 
-        previousCh = ch;
+        //an escaped backslash does not escape the next character
+        previousCh = (ch == '\\' and previousCh == '\\') ? '\0' : ch;
     }
 
     if (not field.empty()) tokens.push_back(field);
-- 
2.43.0


From b58b5aed34e9eab3e2f62b1cb3d599662d7b8d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:32 +0000
Subject: [PATCH 34/76] fix: list and map expressions were rejected when
 surrounded by space

---
 lib/Util/EvalEnvironment.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Util/EvalEnvironment.cpp b/lib/Util/EvalEnvironment.cpp
index 4ed0548..112476a 100644
--- a/lib/Util/EvalEnvironment.cpp
+++ b/lib/Util/EvalEnvironment.cpp
@@ -196,9 +196,11 @@ void Pothos::Util::EvalEnvironment::unregisterConstant(const std::string &key)
     if (_impl->p.IsConstDefined(key)) _impl->p.RemoveConst(key);
 }
 
-Pothos::Object Pothos::Util::EvalEnvironment::eval(const std::string &expr)
+Pothos::Object Pothos::Util::EvalEnvironment::eval(const std::string &expression)
 {
-    if (Poco::trim(expr).empty()) throw Pothos::Exception("EvalEnvironment::eval()", "expression is empty");
+    //space around a container is not part of it
+    const auto expr = Poco::trim(expression);
+    if (expr.empty()) throw Pothos::Exception("EvalEnvironment::eval()", "expression is empty");
 
     //handle multiple containers in top level
     const auto tokens = EvalEnvironment::splitExpr(expr);
-- 
2.43.0


From 9e1191fd39ab027c2f51434dd2bcf7ebdeb5383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:32 +0000
Subject: [PATCH 35/76] fix: nested containers overwrote the containers of the
 outer expression

---
 lib/Util/EvalEnvironment.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Util/EvalEnvironment.cpp b/lib/Util/EvalEnvironment.cpp
index 112476a..1ecd4a0 100644
--- a/lib/Util/EvalEnvironment.cpp
+++ b/lib/Util/EvalEnvironment.cpp
@@ -208,13 +208,14 @@ Pothos::Object Pothos::Util::EvalEnvironment::eval(const std::string &expression
     {
         size_t index = 0;
         std::string newExpr;
+        std::vector<std::pair<std::string, Pothos::Object>> containers;
         for (const auto &tok : tokens)
         {
             if (tok.empty()) continue;
             if (tok.front() == '[' or tok.front() == '{')
             {
                 const std::string key = tmpTypeId + std::to_string(index++);
-                this->registerConstantObj(key, this->eval(tok));
+                containers.emplace_back(key, this->eval(tok));
                 newExpr += key;
             }
             else
@@ -222,6 +223,8 @@ Pothos::Object Pothos::Util::EvalEnvironment::eval(const std::string &expression
                 newExpr += tok;
             }
         }
+        //register after the evaluations, which may use the same keys for nested containers
+        for (const auto &pair : containers) this->registerConstantObj(pair.first, pair.second);
         return this->eval(newExpr);
     }
 
-- 
2.43.0


From 7f440896f4f97ef7da0d5f69395a189373d54871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:32 +0000
Subject: [PATCH 36/76] fix: octal values accepted a sign and space after the
 prefix

---
 lib/Util/Builtin/MupOctalValReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Util/Builtin/MupOctalValReader.cpp b/lib/Util/Builtin/MupOctalValReader.cpp
index 589ffa1..25d68c5 100644
--- a/lib/Util/Builtin/MupOctalValReader.cpp
+++ b/lib/Util/Builtin/MupOctalValReader.cpp
@@ -20,6 +20,10 @@ bool MupOctalValReader::IsValue(
     if (a_iPos >= (int)len || a_szExpr[a_iPos + 1] != 'o' || a_szExpr[a_iPos + 1] == 0 || a_szExpr[a_iPos] != '0')
         return 0;
 
+    // The stream would also accept spaces and a sign.
+    if (a_szExpr[a_iPos + 2] < '0' || a_szExpr[a_iPos + 2] > '7')
+        return false;
+
     unsigned iVal(0);
 
     mup::stringstream_type::pos_type nPos(0);
-- 
2.43.0


From 360443f305f252e12d1dfa91483773334e54a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:55 +0000
Subject: [PATCH 37/76] fix: containers in an expression were joined with the
 word next to them

---
 lib/Util/EvalEnvironment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Util/EvalEnvironment.cpp b/lib/Util/EvalEnvironment.cpp
index 1ecd4a0..15e02c1 100644
--- a/lib/Util/EvalEnvironment.cpp
+++ b/lib/Util/EvalEnvironment.cpp
@@ -216,7 +216,7 @@ Pothos::Object Pothos::Util::EvalEnvironment::eval(const std::string &expression
             {
                 const std::string key = tmpTypeId + std::to_string(index++);
                 containers.emplace_back(key, this->eval(tok));
-                newExpr += key;
+                newExpr += " " + key + " "; //never join with adjacent tokens
             }
             else
             {
-- 
2.43.0


From 4c4268d81ceeabc8d242506fea4425454564cd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:17 +0000
Subject: [PATCH 38/76] fix: expressions without a value recursed without end

---
 lib/Util/EvalEnvironment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Util/EvalEnvironment.cpp b/lib/Util/EvalEnvironment.cpp
index 15e02c1..f476243 100644
--- a/lib/Util/EvalEnvironment.cpp
+++ b/lib/Util/EvalEnvironment.cpp
@@ -39,7 +39,7 @@ static Pothos::Object mupValueToObject(mup::IValue &val)
     case 'c': return Pothos::Object(val.GetComplex());
     case 's': return Pothos::Object(val.GetString());
     case 'm': break;
-    default: Pothos::Exception("EvalEnvironment::mupValueToObject()", "unknown type " + val.AsciiDump());
+    default: throw Pothos::Exception("EvalEnvironment::mupValueToObject()", "unknown type " + val.AsciiDump());
     }
 
     assert(val.GetType() == 'm');
-- 
2.43.0


From 948eac12fc1f8d65519ac191a5b7a7fdd5807fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:19 +0000
Subject: [PATCH 39/76] fix: a comment on a single line hid the following code
 from the description parser

---
 lib/Util/BlockDescription.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Util/BlockDescription.cpp b/lib/Util/BlockDescription.cpp
index 0aca274..f871173 100644
--- a/lib/Util/BlockDescription.cpp
+++ b/lib/Util/BlockDescription.cpp
@@ -172,15 +172,17 @@ static std::vector<CodeBlock> extractContiguousBlocks(std::istream &is)
 
         const std::string lineTrim = Poco::trimLeft(line);
         const auto openMulti = line.find("/*");
-        const auto closeMulti = line.find("*/");
+        const auto closeMulti = line.find("*/", inMultiLineComment?0:openMulti+2);
         if (not inMultiLineComment and lineTrim.size() >= 2 and lineTrim.substr(0, 2) == "//")
         {
             currentCodeBlock.push_back(CodeLine(line, lineNo));
         }
         else if (not inMultiLineComment and openMulti != std::string::npos)
         {
-            inMultiLineComment = true;
-            currentCodeBlock.push_back(CodeLine(line.substr(openMulti, std::string::npos), lineNo));
+            //the comment may also end on this line
+            inMultiLineComment = (closeMulti == std::string::npos);
+            currentCodeBlock.push_back(CodeLine(line.substr(openMulti, inMultiLineComment?std::string::npos:(closeMulti-openMulti)), lineNo));
+            if (not inMultiLineComment) partial = line.substr(closeMulti+2);
         }
         else if (inMultiLineComment and closeMulti != std::string::npos)
         {
-- 
2.43.0


From 9b423f9e6533f259562644dce9a9b4a1b9c1a455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:19 +0000
Subject: [PATCH 40/76] fix: empty lines inside block comments were dropped
 from descriptions

---
 lib/Util/BlockDescription.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Util/BlockDescription.cpp b/lib/Util/BlockDescription.cpp
index f871173..0745e15 100644
--- a/lib/Util/BlockDescription.cpp
+++ b/lib/Util/BlockDescription.cpp
@@ -168,7 +168,7 @@ static std::vector<CodeBlock> extractContiguousBlocks(std::istream &is)
             if (!line.empty() && (line.back() == '\r')) line.pop_back();
         }
         partial.clear();
-        if (line.empty()) continue;
+        if (line.empty() and not inMultiLineComment) continue;
 
         const std::string lineTrim = Poco::trimLeft(line);
         const auto openMulti = line.find("/*");
-- 
2.43.0


From 5e9aeb0275d361aa8bc80280fc975e40d722361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:19 +0000
Subject: [PATCH 41/76] fix: factory arguments with parentheses were rejected
 in descriptions

---
 lib/Util/BlockDescription.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Util/BlockDescription.cpp b/lib/Util/BlockDescription.cpp
index 0745e15..c90e99c 100644
--- a/lib/Util/BlockDescription.cpp
+++ b/lib/Util/BlockDescription.cpp
@@ -426,7 +426,7 @@ static json parseCommentBlockForMarkup(const CodeBlock &commentBlock)
         else if (instruction == "factory" and (state == "DOC" or state == "PARAM"))
         {
             std::smatch fields;
-            static const std::regex e("^\\s*(/.*)\\s*\\((.*)\\)$");
+            static const std::regex e("^\\s*(/[^(]*?)\\s*\\((.*)\\)$");
             if (not std::regex_match(payload, fields, e)) throw Pothos::SyntaxException(
                 "Expected |factory /registry/path(args...)",
                 codeLine.toString());
-- 
2.43.0


From 10cb421763d732065f7c8a64355e318f64e3a94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:19 +0000
Subject: [PATCH 42/76] fix: strings with commas or brackets were split in
 descriptions

---
 lib/Util/BlockDescription.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Util/BlockDescription.cpp b/lib/Util/BlockDescription.cpp
index c90e99c..26c4caf 100644
--- a/lib/Util/BlockDescription.cpp
+++ b/lib/Util/BlockDescription.cpp
@@ -66,11 +66,15 @@ static std::vector<std::string> splitCommaArgs(const std::string &argsStr)
 {
     std::vector<std::string> args(1);
     int bracketDepth = 0;
+    bool inQuotes = false, escaped = false;
     for (char ch : argsStr)
     {
-        if (ch == '{' or ch == '[' or ch == '(') bracketDepth++;
+        if (ch == '"' and not escaped) inQuotes = not inQuotes;
+        escaped = (ch == '\\' and not escaped);
+        if (inQuotes) {} //no separators or brackets inside strings
+        else if (ch == '{' or ch == '[' or ch == '(') bracketDepth++;
         else if (ch == '}' or ch == ']' or ch == ')') bracketDepth--;
-        if (ch == ',' and bracketDepth == 0) args.push_back("");
+        if (ch == ',' and bracketDepth == 0 and not inQuotes) args.push_back("");
         else args.back().push_back(ch);
         if (bracketDepth < 0) throw Pothos::SyntaxException(
             "bracket mismatch for comma-separated args", argsStr);
-- 
2.43.0


From 80bc4efd92ff278a8d496b91196a49d65f219d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:19 +0000
Subject: [PATCH 43/76] fix: blank argument lists and unclosed brackets gave
 wrong arguments in descriptions

---
 lib/Util/BlockDescription.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Util/BlockDescription.cpp b/lib/Util/BlockDescription.cpp
index 26c4caf..eb2d3a2 100644
--- a/lib/Util/BlockDescription.cpp
+++ b/lib/Util/BlockDescription.cpp
@@ -79,8 +79,10 @@ static std::vector<std::string> splitCommaArgs(const std::string &argsStr)
         if (bracketDepth < 0) throw Pothos::SyntaxException(
             "bracket mismatch for comma-separated args", argsStr);
     }
-    if (args.back().empty()) args.resize(args.size()-1);
+    if (bracketDepth != 0) throw Pothos::SyntaxException(
+        "bracket mismatch for comma-separated args", argsStr);
     for (auto &arg : args) arg = Poco::trim(arg);
+    if (args.back().empty()) args.resize(args.size()-1);
     return args;
 }
 
-- 
2.43.0


From f4dd295db8d7d4a45308b20f195d7e17a0fda0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:03 +0000
Subject: [PATCH 44/76] fix: a rejected duplicate connection left outer port
 names on the topology

---
 lib/Framework/Topology.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index 23ca564..6f6ef19 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -147,6 +147,10 @@ void Pothos::Topology::_connect(
             throw Pothos::TopologyConnectError("Pothos::Topology::connect()", flow.dst.toString() + " has no input port named " + dstName);
     }
 
+    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
+    if (it != _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::connect()",
+        Poco::format("this flow already exists in the topology(%s)", flow.toString()));
+
     //store port info for connections to the hierarchy
     if (not flow.src.obj and flow.dst.obj)
     {
@@ -187,10 +191,6 @@ void Pothos::Topology::_connect(
         _impl->outputPortInfo[dstName].name = dstName;
     }
 
-    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
-    if (it != _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::connect()",
-        Poco::format("this flow already exists in the topology(%s)", flow.toString()));
-
     _impl->flows.push_back(flow);
 }
 
-- 
2.43.0


From a5d8f2bdf9141c13a9d1833d69fee221f4dcf036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:03 +0000
Subject: [PATCH 45/76] fix: outer ports of a topology could not be
 disconnected, and failed attempts removed others

---
 lib/Framework/Topology.cpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index 6f6ef19..05486f0 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -207,23 +207,15 @@ void Pothos::Topology::_disconnect(
     flow.src = _impl->makePort(src, srcName);
     flow.dst = _impl->makePort(dst, dstName);
 
-    //validate that the ports exists before disconnection
-    std::vector<std::string> outs = getConnectable(src).call("outputPortNames");
-    if (std::find(outs.begin(), outs.end(), srcName) == outs.end())
-        throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.src.toString() + " has no output port named " + srcName);
-
-    std::vector<std::string> ins = getConnectable(dst).call("inputPortNames");
-    if (std::find(ins.begin(), ins.end(), dstName) == ins.end())
-        throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.dst.toString() + " has no input port named " + dstName);
-
-    //clear port info for disconnections from the hierarchy
-    if (not flow.src.obj) _impl->outputPortNames.erase(std::find(_impl->outputPortNames.begin(), _impl->outputPortNames.end(), srcName));
-    if (not flow.dst.obj) _impl->inputPortNames.erase(std::find(_impl->inputPortNames.begin(), _impl->inputPortNames.end(), dstName));
-
     const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
     if (it == _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()",
         Poco::format("this flow does not exist in the topology(%s)", flow.toString()));
 
+    //clear port info for disconnections from the hierarchy
+    //a source on the hierarchy is one of its inputs and a destination one of its outputs
+    if (not flow.src.obj) _impl->inputPortNames.erase(std::find(_impl->inputPortNames.begin(), _impl->inputPortNames.end(), srcName));
+    if (not flow.dst.obj) _impl->outputPortNames.erase(std::find(_impl->outputPortNames.begin(), _impl->outputPortNames.end(), dstName));
+
     //perform auto-deletion, on a block this may or may not delete, on a topology this throws
     try{getConnectable(src).get("_actor").call("autoDeleteOutput", srcName);}catch(const Exception &){}
     try{getConnectable(dst).get("_actor").call("autoDeleteInput", dstName);}catch(const Exception &){}
-- 
2.43.0


From e57d8a2c14c7d57f83f2bd18b0dfa268ffcd6f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:03 +0000
Subject: [PATCH 46/76] fix: disconnecting everything left the outer port names
 on the topology

---
 lib/Framework/Topology.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index 05486f0..3e11c61 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -249,8 +249,10 @@ void Pothos::Topology::disconnectAll(const bool recursive)
         if (flow.dst.obj) try{getInternalBlock(flow.dst.obj).get("_actor").call("autoDeleteInput", flow.dst.name);}catch(const Exception &){}
     }
 
-    //clear our own local flows
+    //clear our own local flows and the ports that they made
     _impl->flows.clear();
+    _impl->inputPortNames.clear();
+    _impl->outputPortNames.clear();
 }
 
 bool Pothos::Topology::waitInactive(const double idleDuration, const double timeout)
-- 
2.43.0


From 1a4ed6b28eaff5ee5c7e87157d7f85a7c24e08bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:39 +0000
Subject: [PATCH 47/76] fix: pass-through flows of nested topologies were lost,
 duplicated or connected to wrong ports

---
 lib/Framework/TopologyCommit.cpp      | 53 +++++++++++++--------------
 lib/Framework/TopologySquashFlows.cpp | 21 +++++++++--
 2 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/lib/Framework/TopologyCommit.cpp b/lib/Framework/TopologyCommit.cpp
index 4239cc6..dd7c354 100644
--- a/lib/Framework/TopologyCommit.cpp
+++ b/lib/Framework/TopologyCommit.cpp
@@ -5,6 +5,7 @@
 #include <Pothos/Framework/Block.hpp>
 #include <Pothos/Framework/Exception.hpp>
 #include <Poco/Format.h>
+#include <algorithm>
 #include <iostream>
 #include <future>
 
@@ -158,39 +159,37 @@ static void updateFlows(const std::vector<Flow> &flows, const std::string &actio
 /***********************************************************************
  * complete pass-through flows
  **********************************************************************/
-static std::vector<Flow> completePassThroughFlows(const std::vector<Flow> &flows)
+static void completePassThroughFlow(const Port &src, const Port &dst, const std::vector<Flow> &flows, std::vector<Port> &visited, std::vector<Flow> &outFlows)
 {
-    std::vector<Flow> outFlows;
-    //std::cout << "completePassThroughFlows:" << std::endl;
-    //for (const auto &flow : flows) std::cout << "  " << flow.toString() << std::endl;
+    //reached a block: add the completed flow unless another path already did
+    if (dst.obj)
+    {
+        Flow newFlow;
+        newFlow.src = src;
+        newFlow.dst = dst;
+        if (std::find(outFlows.begin(), outFlows.end(), newFlow) == outFlows.end()) outFlows.push_back(newFlow);
+        return;
+    }
 
-    //try to complete pass-through flows and add it to the out flow list
-    for (auto &flow : flows)
+    //otherwise continue from the outer port of the topology, but only once
+    if (std::find(visited.begin(), visited.end(), dst) != visited.end()) return;
+    visited.push_back(dst);
+    for (const auto &flow : flows)
     {
-        if (flow.src.obj or flow.dst.obj) continue;
-        for (auto &flowTail : flows)
-        {
-            if (not flowTail.dst.obj) continue;
-            for (auto &flowHead : flows)
-            {
-                if (not flowHead.src.obj) continue;
-                if (flow.src == flowTail.src and flow.dst == flowHead.dst)
-                {
-                    //create the new completed flow
-                    Flow newFlow;
-                    newFlow.src = flowHead.src;
-                    newFlow.dst = flowTail.dst;
-                    outFlows.push_back(newFlow);
-                    //std::cout << "NEW " << newFlow.toString() << std::endl;
-                }
-            }
-        }
+        if (flow.src == dst) completePassThroughFlow(src, flow.dst, flows, visited, outFlows);
     }
+}
+
+static std::vector<Flow> completePassThroughFlows(const std::vector<Flow> &flows)
+{
+    std::vector<Flow> outFlows;
 
-    //add all already completed flows to the output flow
-    for (auto &flow : flows)
+    //follow each flow from a block through any number of outer ports
+    for (const auto &flow : flows)
     {
-        if (flow.src.obj and flow.dst.obj)  outFlows.push_back(flow);
+        if (not flow.src.obj) continue;
+        std::vector<Port> visited;
+        completePassThroughFlow(flow.src, flow.dst, flows, visited, outFlows);
     }
 
     return outFlows;
diff --git a/lib/Framework/TopologySquashFlows.cpp b/lib/Framework/TopologySquashFlows.cpp
index 8a6b963..75c8321 100644
--- a/lib/Framework/TopologySquashFlows.cpp
+++ b/lib/Framework/TopologySquashFlows.cpp
@@ -9,9 +9,19 @@
  **********************************************************************/
 static std::vector<Port> resolvePorts(const Port &port, const bool isSource);
 
+//! The outer port of a topology as an intermediate stop of a pass-through flow.
+//! An input and an output port may have the same name, so the uid tells them apart.
+static Port makePassThroughPort(const Port &port, const bool isInput)
+{
+    Port passPort = port;
+    passPort.uid += isInput?"/input":"/output";
+    return passPort;
+}
+
 std::vector<Port> resolvePortsFromTopology(const Pothos::Topology &t, const std::string &portName, const bool isSource)
 {
     std::vector<Port> ports;
+    Port passPort; //this outer port when flows pass through the topology
     for (const auto &flow : t._impl->flows)
     {
         //recurse through sub topology flows
@@ -19,15 +29,16 @@ std::vector<Port> resolvePortsFromTopology(const Pothos::Topology &t, const std:
         if (isSource and flow.dst.name == portName and not flow.dst.obj)
         {
             if (flow.src.obj) subPorts = resolvePorts(flow.src, isSource);
-            else ports.push_back(flow.src);
+            else passPort = makePassThroughPort(flow.dst, false);
         }
         if (not isSource and flow.src.name == portName and not flow.src.obj)
         {
             if (flow.dst.obj) subPorts = resolvePorts(flow.dst, isSource);
-            else ports.push_back(flow.dst);
+            else passPort = makePassThroughPort(flow.src, true);
         }
         ports.insert(ports.end(), subPorts.begin(), subPorts.end());
     }
+    if (not passPort.uid.empty()) ports.push_back(passPort);
     return ports;
 }
 
@@ -167,7 +178,11 @@ std::vector<Flow> Pothos::Topology::Impl::squashFlows(const std::vector<Flow> &f
     //the outer topology will squash the pass-through flows
     for (const auto &flow : flows)
     {
-        if (not flow.src.obj and not flow.dst.obj) flatFlows.push_back(flow);
+        if (flow.src.obj or flow.dst.obj) continue;
+        Flow passFlow;
+        passFlow.src = makePassThroughPort(flow.src, true);
+        passFlow.dst = makePassThroughPort(flow.dst, false);
+        flatFlows.push_back(passFlow);
     }
 
     //only store the actual blocks
-- 
2.43.0


From cec11aafb8dd48dcc5be0324f4eed913da310f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:29 +0000
Subject: [PATCH 48/76] fix: the flattened dump lost or repeated connections
 through nested outer ports

---
 lib/Framework/TopologyDumpJSON.cpp | 172 +++++++++++------------------
 1 file changed, 63 insertions(+), 109 deletions(-)

diff --git a/lib/Framework/TopologyDumpJSON.cpp b/lib/Framework/TopologyDumpJSON.cpp
index 43b14f6..edd2d0a 100644
--- a/lib/Framework/TopologyDumpJSON.cpp
+++ b/lib/Framework/TopologyDumpJSON.cpp
@@ -6,6 +6,8 @@
 #include "Framework/TopologyImpl.hpp"
 #include <Pothos/Proxy.hpp>
 #include <json.hpp>
+#include <set>
+#include <tuple>
 
 using json = nlohmann::json;
 
@@ -14,133 +16,86 @@ static bool blockIsHier(const json &blockObj)
     return blockObj.count("connections") != 0;
 }
 
-static std::vector<std::pair<std::string, std::string>> resolvePorts(
-    const json &topObj,
-    const std::string &blockId,
-    const std::string &portName,
-    const bool resolveSrc
-)
+//! A port of a block, or an outer port of a hierarchy as seen from the inside or outside
+struct FlatPort
 {
-    std::vector<std::pair<std::string, std::string>> results;
+    std::string id, name;
+    char hier; //'i' for the input and 'o' for the output of a hierarchy, or 0 for a block
+    bool operator<(const FlatPort &other) const
+    {
+        return std::tie(id, name, hier) < std::tie(other.id, other.name, other.hier);
+    }
+};
 
-    const auto blocksObj = topObj["blocks"];
-    if (blocksObj.count(blockId) == 0) return results;
-    const auto &blockObj = blocksObj[blockId];
+typedef std::vector<std::pair<FlatPort, FlatPort>> FlatConns;
 
-    if (not blockIsHier(blockObj))
+//collect all blocks in the hierarchy with heritage names, and the connections between their ports
+static void collectFlat(const json &topObj, const std::string &prefix, json &flatBlocksObj, FlatConns &conns)
+{
+    const auto blocksObj = topObj.value("blocks", json::object());
+    const auto makeFlatPort = [&blocksObj](const std::string &id, const std::string &name, const bool isSrc)
     {
-        results.emplace_back(blockId, portName);
-        return results;
-    }
+        FlatPort port{id, name, 0};
+        const auto it = blocksObj.find(id);
+        //the outer port of this topology: its input is a source for the inside
+        if (it == blocksObj.end()) port.hier = isSrc?'i':'o';
+        else if (blockIsHier(*it)) port.hier = isSrc?'o':'i';
+        return port;
+    };
 
-    for (const auto &subConnObj : blockObj.value("connections", json::array()))
+    for (const auto &connObj : topObj.value("connections", json::array()))
     {
-        std::string subId, subName;
+        conns.emplace_back(
+            makeFlatPort(connObj["srcId"].get<std::string>(), connObj["srcName"].get<std::string>(), true),
+            makeFlatPort(connObj["dstId"].get<std::string>(), connObj["dstName"].get<std::string>(), false));
+    }
 
-        if (resolveSrc)
-        {
-            if (subConnObj["dstId"].get<std::string>() != blockId) continue;
-            if (subConnObj["dstName"].get<std::string>() != portName) continue;
-            subId = subConnObj["srcId"].get<std::string>();
-            subName = subConnObj["srcName"].get<std::string>();
-        }
+    for (auto it = blocksObj.begin(); it != blocksObj.end(); ++it)
+    {
+        const std::string name = prefix + it.value()["name"].get<std::string>();
+        if (blockIsHier(it.value())) collectFlat(it.value(), name+"/", flatBlocksObj, conns);
         else
         {
-            if (subConnObj["srcId"].get<std::string>() != blockId) continue;
-            if (subConnObj["srcName"].get<std::string>() != portName) continue;
-            subId = subConnObj["dstId"].get<std::string>();
-            subName = subConnObj["dstName"].get<std::string>();
+            flatBlocksObj[it.key()] = it.value();
+            flatBlocksObj[it.key()]["name"] = name; //heritage name
         }
-
-        //ignore pass-through connections in this loop
-        if (subId != blockId) results.emplace_back(subId, subName);
     }
-
-    return results;
 }
 
-static bool flattenDump(json &topObj)
+//follow the connections from the port through outer ports of hierarchies to the ports of blocks
+static void collectDsts(const FlatPort &port, const FlatConns &conns, std::set<FlatPort> &visited, std::vector<FlatPort> &dsts)
 {
-    bool hierFound = false;
-
-    //create new blocks object that flattens any hierarchy to 1 depth
-    //if this block is a hierarchy -- bring its blocks to the top level
-    auto &blocksObj = topObj["blocks"];
-    json flatBlocksObj(json::object());
-    for (auto it = blocksObj.begin(); it != blocksObj.end(); ++it)
+    for (const auto &conn : conns)
     {
-        auto &blockObj = it.value();
-        if (blockIsHier(blockObj))
-        {
-            hierFound = true;
-            auto &subBlocksObj = blockObj["blocks"];
-            const std::string thisName = blockObj["name"];
-            for (auto subIt = subBlocksObj.begin(); subIt != subBlocksObj.end(); ++subIt)
-            {
-                auto &subBlockObj = subIt.value();
-                const std::string subName = subBlockObj["name"];
-                subBlockObj["name"] = thisName+"/"+subName; //heritage name
-                flatBlocksObj[subIt.key()] = subBlockObj;
-            }
-        }
-        else flatBlocksObj[it.key()] = blockObj;
+        if (conn.first < port or port < conn.first) continue;
+        if (not visited.insert(conn.second).second) continue;
+        if (conn.second.hier == 0) dsts.push_back(conn.second);
+        else collectDsts(conn.second, conns, visited, dsts);
     }
+}
 
-    //create new connections array folding out depth 1 hierarchies
-    json flatConnsArray(json::array());
-    for (const auto &connObj : topObj.value("connections", json::array()))
-    {
-        for (const auto & resolvedSrc : resolvePorts(topObj, connObj["srcId"].get<std::string>(), connObj["srcName"].get<std::string>(), true))
-        {
-            for (const auto & resolvedDst : resolvePorts(topObj, connObj["dstId"].get<std::string>(), connObj["dstName"].get<std::string>(), false))
-            {
-                json flatConnObj;
-                flatConnObj["srcId"] = resolvedSrc.first;
-                flatConnObj["srcName"] = resolvedSrc.second;
-                flatConnObj["dstId"] = resolvedDst.first;
-                flatConnObj["dstName"] = resolvedDst.second;
-                flatConnsArray.push_back(flatConnObj);
-            }
-        }
-    }
+static void flattenDump(json &topObj)
+{
+    json flatBlocksObj(json::object());
+    FlatConns conns;
+    collectFlat(topObj, "", flatBlocksObj, conns);
 
-    //resolve pass-through connections and totally internal connections
-    for (auto it = blocksObj.begin(); it != blocksObj.end(); ++it)
+    json flatConnsArray(json::array());
+    std::set<FlatPort> srcs;
+    for (const auto &conn : conns)
     {
-        const auto &blockObj = it.value();
-        if (not blockIsHier(blockObj)) continue;
-
-        for (const auto &subConnObj : blockObj.value("connections", json::array()))
+        if (conn.first.hier != 0 or not srcs.insert(conn.first).second) continue;
+        std::set<FlatPort> visited;
+        std::vector<FlatPort> dsts;
+        collectDsts(conn.first, conns, visited, dsts);
+        for (const auto &dst : dsts)
         {
-            const bool srcIsThis = subConnObj["srcId"].get<std::string>() == it.key();
-            const bool dstIsThis = subConnObj["dstId"].get<std::string>() == it.key();
-
-            //totally internal connection
-            if (not srcIsThis and not dstIsThis) flatConnsArray.push_back(subConnObj);
-
-            //otherwise not a pass-through
-            if (not srcIsThis or not dstIsThis) continue;
-
-            //find sources where the destination is this pass-through
-            for (const auto &connObj_s : topObj.value("connections", json::array()))
-            {
-                if (connObj_s["dstId"].get<std::string>() != it.key()) continue;
-                if (connObj_s["dstName"].get<std::string>() != subConnObj["srcName"].get<std::string>()) continue;
-
-                //find sources where the destination is this pass-through
-                for (const auto &connObj_d : topObj.value("connections", json::array()))
-                {
-                    if (connObj_d["srcId"].get<std::string>() != it.key()) continue;
-                    if (connObj_d["srcName"].get<std::string>() != subConnObj["dstName"].get<std::string>()) continue;
-
-                    json flatConnObj;
-                    flatConnObj["srcId"] = connObj_s["srcId"];
-                    flatConnObj["srcName"] = connObj_s["srcName"];
-                    flatConnObj["dstId"] = connObj_d["dstId"];
-                    flatConnObj["dstName"] = connObj_d["dstName"];
-                    flatConnsArray.push_back(flatConnObj);
-                }
-            }
+            json flatConnObj;
+            flatConnObj["srcId"] = conn.first.id;
+            flatConnObj["srcName"] = conn.first.name;
+            flatConnObj["dstId"] = dst.id;
+            flatConnObj["dstName"] = dst.name;
+            flatConnsArray.push_back(flatConnObj);
         }
     }
 
@@ -148,7 +103,6 @@ static bool flattenDump(json &topObj)
     topObj = json::object();
     topObj["blocks"] = flatBlocksObj;
     topObj["connections"] = flatConnsArray;
-    return hierFound;
 }
 
 static json portInfoToObj(const Pothos::PortInfo &portInfo)
@@ -242,7 +196,7 @@ std::string Pothos::Topology::dumpJSON(const std::string &request)
     topObj["connections"] = connsArray;
 
     //recursive flatten when instructed
-    while (flatten and flattenDump(topObj));
+    if (flatten) flattenDump(topObj);
 
     //return the string-formatted result
     return topObj.dump(4);
-- 
2.43.0


From 87fe38a5e438335ea7b8ecdcf7a09b012581f621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:34 +0000
Subject: [PATCH 49/76] fix: an empty call in a topology description crashed

---
 lib/Framework/TopologyMakeJSON.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Framework/TopologyMakeJSON.cpp b/lib/Framework/TopologyMakeJSON.cpp
index 751082a..21c3403 100644
--- a/lib/Framework/TopologyMakeJSON.cpp
+++ b/lib/Framework/TopologyMakeJSON.cpp
@@ -134,6 +134,8 @@ static Pothos::Proxy makeBlock(
     const auto &callsArray = blockObj.value("calls", json::array());
     for (const auto &callArray : callsArray)
     {
+        if (not callArray.is_array() or callArray.empty()) throw Pothos::DataFormatException(
+            "Pothos::Topology::make()", "blocks["+id+"] calls must be non-empty arrays");
         auto name = callArray[0].get<std::string>();
         const auto callArgs = evalArgsArray(evaluator, callArray, 1/*offset*/);
         try
-- 
2.43.0


From 229810b4bc9ac66003a7893a0cce9a3eec6f8194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:40 +0000
Subject: [PATCH 50/76] fix: thread pools accepted a priority that is not a
 number

---
 lib/Framework/ThreadPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Framework/ThreadPool.cpp b/lib/Framework/ThreadPool.cpp
index e779716..33ac26b 100644
--- a/lib/Framework/ThreadPool.cpp
+++ b/lib/Framework/ThreadPool.cpp
@@ -67,7 +67,7 @@ Pothos::ThreadPool::ThreadPool(const ThreadPoolArgs &args)
     else throw ThreadPoolError("Pothos::ThreadPool()", "unknown yieldMode " + args.yieldMode);
 
     //validate the thread priority
-    if (args.priority > +1.0 or args.priority < -1.0)
+    if (not (args.priority <= +1.0 and args.priority >= -1.0)) //also rejects NaN
     {
         throw ThreadPoolError("Pothos::ThreadPool()", "priority out of range " + std::to_string(args.priority));
     }
-- 
2.43.0


From 64ff883f9bbc9a0861b39eb2156bcdff2a6f33de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:03 +0000
Subject: [PATCH 51/76] fix: automatic ports were made and removed while their
 block was working

---
 lib/Framework/WorkerActorPortAllocation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Framework/WorkerActorPortAllocation.cpp b/lib/Framework/WorkerActorPortAllocation.cpp
index f946af8..7df516d 100644
--- a/lib/Framework/WorkerActorPortAllocation.cpp
+++ b/lib/Framework/WorkerActorPortAllocation.cpp
@@ -101,11 +101,13 @@ void Pothos::WorkerActor::allocateSlot(const std::string &name)
 
 void Pothos::WorkerActor::autoAllocateInput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoAllocatePort(this->inputs, block->_namedInputs, block->_indexedInputs, block->_inputPortNames, name);
 }
 
 void Pothos::WorkerActor::autoAllocateOutput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoAllocatePort(this->outputs, block->_namedOutputs, block->_indexedOutputs, block->_outputPortNames, name);
 }
 
@@ -163,10 +165,12 @@ void Pothos::WorkerActor::autoDeletePort(const std::string &name, PortsType &por
 
 void Pothos::WorkerActor::autoDeleteInput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoDeletePort(name, this->inputs, block->_namedInputs, block->_indexedInputs, block->_inputPortNames);
 }
 
 void Pothos::WorkerActor::autoDeleteOutput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoDeletePort(name, this->outputs, block->_namedOutputs, block->_indexedOutputs, block->_outputPortNames);
 }
-- 
2.43.0


From c0a45b493dea3eebb52ad827c809b0b3e0591520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:22 +0000
Subject: [PATCH 52/76] fix: a deactivated block kept the buffers of upstream
 blocks that are still active

---
 lib/Framework/WorkerActor.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/Framework/WorkerActor.cpp b/lib/Framework/WorkerActor.cpp
index 54028f8..4da74c2 100644
--- a/lib/Framework/WorkerActor.cpp
+++ b/lib/Framework/WorkerActor.cpp
@@ -209,6 +209,16 @@ void Pothos::WorkerActor::setActiveStateOff(void)
 
     this->activeState = false;
     this->block->deactivate();
+
+    //release the enqueued resources, an inactive block will never consume them
+    //and the upstream blocks that own them may still be active
+    for (const auto &entry : this->inputs)
+    {
+        entry.second->_buffer.clear();
+        entry.second->clear();
+    }
+    for (const auto &entry : this->outputs) entry.second->_buffer.clear();
+
     this->activityIndicator.fetch_add(1, std::memory_order_relaxed);
 }
 
-- 
2.43.0


From 3d66aa1fc4b81c26114ddd04fb10b98e35212312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:38 +0000
Subject: [PATCH 53/76] fix: a disconnect removed automatic ports that other
 connections still use

---
 lib/Framework/Topology.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index 3e11c61..896a9de 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -216,11 +216,17 @@ void Pothos::Topology::_disconnect(
     if (not flow.src.obj) _impl->inputPortNames.erase(std::find(_impl->inputPortNames.begin(), _impl->inputPortNames.end(), srcName));
     if (not flow.dst.obj) _impl->outputPortNames.erase(std::find(_impl->outputPortNames.begin(), _impl->outputPortNames.end(), dstName));
 
-    //perform auto-deletion, on a block this may or may not delete, on a topology this throws
-    try{getConnectable(src).get("_actor").call("autoDeleteOutput", srcName);}catch(const Exception &){}
-    try{getConnectable(dst).get("_actor").call("autoDeleteInput", dstName);}catch(const Exception &){}
-
     _impl->flows.erase(it);
+
+    //perform auto-deletion unless another flow still uses the port, on a block this may or may not delete, on a topology this throws
+    bool srcInUse = false, dstInUse = false;
+    for (const auto &other : _impl->flows)
+    {
+        if (other.src == flow.src) srcInUse = true;
+        if (other.dst == flow.dst) dstInUse = true;
+    }
+    if (not srcInUse) try{getConnectable(src).get("_actor").call("autoDeleteOutput", srcName);}catch(const Exception &){}
+    if (not dstInUse) try{getConnectable(dst).get("_actor").call("autoDeleteInput", dstName);}catch(const Exception &){}
 }
 
 void Pothos::Topology::disconnectAll(const bool recursive)
-- 
2.43.0


From 9730e0fb931960870a5f57491f66f8b0af8895af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:20 +0000
Subject: [PATCH 54/76] fix: every commit replaced the copiers of domain
 crossings and disturbed their flows

---
 lib/Framework/TopologyDomainFlows.cpp | 21 ++++++++++++++++-----
 lib/Framework/TopologyImpl.hpp        |  1 +
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/lib/Framework/TopologyDomainFlows.cpp b/lib/Framework/TopologyDomainFlows.cpp
index dd9431d..f8b455b 100644
--- a/lib/Framework/TopologyDomainFlows.cpp
+++ b/lib/Framework/TopologyDomainFlows.cpp
@@ -73,14 +73,17 @@ static bool isDomainCrossingAcceptable(
 /*!
  * Get a copier block for a domain crossing between mainPort and all connected subPorts.
  * If the copier block is not needed to handle this domain crossing, return a null Proxy.
+ * The copier from a previous inspection is used again, because replacing it disturbs the flow.
  */
 static Pothos::Proxy getCopierForDomainCrossing(
     const Port &mainPort,
     const std::vector<Port> &subPorts,
-    const bool isInput
+    const bool isInput,
+    const Pothos::Proxy &previous
 )
 {
     if (isDomainCrossingAcceptable(mainPort, subPorts, isInput)) return Pothos::Proxy();
+    if (previous) return previous;
     auto registry = mainPort.obj.getEnvironment()->findProxy("Pothos/BlockRegistry");
     auto copier = registry.call("/blocks/copier");
     copier.call("setName", "DomainBridge");
@@ -92,14 +95,16 @@ static Pothos::Proxy getCopierForDomainCrossing(
  */
 static std::unordered_map<Port, std::shared_future<Pothos::Proxy>> domainInspection(
     const std::unordered_map<Port, std::vector<Port>> &ports,
-    const bool isInput
+    const bool isInput,
+    const std::unordered_map<Port, Pothos::Proxy> &cache
 )
 {
     std::unordered_map<Port, std::shared_future<Pothos::Proxy>> copiers;
     for (const auto &pair : ports)
     {
+        const auto it = cache.find(pair.first);
         copiers[pair.first] = std::async(std::launch::async,
-            &getCopierForDomainCrossing, pair.first, pair.second, isInput);
+            &getCopierForDomainCrossing, pair.first, pair.second, isInput, (it == cache.end())?Pothos::Proxy():it->second);
     }
     return copiers;
 }
@@ -121,8 +126,12 @@ std::vector<Flow> Pothos::Topology::Impl::rectifyDomainFlows(const std::vector<F
     }
 
     //get a list of ports with domain problems
-    auto badSrcsToCopier = domainInspection(srcs, false);
-    auto badDstsToCopier = domainInspection(dsts, true);
+    auto badSrcsToCopier = domainInspection(srcs, false, this->domainCopierCache[false]);
+    auto badDstsToCopier = domainInspection(dsts, true, this->domainCopierCache[true]);
+
+    //only keep the copiers for the ports that are currently in use
+    this->domainCopierCache[false].clear();
+    this->domainCopierCache[true].clear();
 
     std::vector<Flow> domainSafeFlows;
     for (const auto &flow : flatFlows)
@@ -132,6 +141,8 @@ std::vector<Flow> Pothos::Topology::Impl::rectifyDomainFlows(const std::vector<F
         Pothos::Proxy copier;
         if (srcCopier) copier = srcCopier;
         if (dstCopier) copier = dstCopier;
+        if (dstCopier) this->domainCopierCache[true][flow.dst] = dstCopier;
+        else if (srcCopier) this->domainCopierCache[false][flow.src] = srcCopier;
         if (copier)
         {
             //create the flows
diff --git a/lib/Framework/TopologyImpl.hpp b/lib/Framework/TopologyImpl.hpp
index d14437f..f27ca7d 100644
--- a/lib/Framework/TopologyImpl.hpp
+++ b/lib/Framework/TopologyImpl.hpp
@@ -31,6 +31,7 @@ struct Pothos::Topology::Impl
     std::vector<Flow> flows;
     std::vector<Flow> activeFlatFlows;
     std::unordered_map<Port, std::pair<Pothos::Proxy, Pothos::Proxy>> srcToNetgressCache;
+    std::unordered_map<Port, Pothos::Proxy> domainCopierCache[2]; //indexed by isInput
     std::vector<Flow> squashFlows(const std::vector<Flow> &);
     std::vector<Flow> createNetworkFlows(const std::vector<Flow> &);
     std::vector<Flow> rectifyDomainFlows(const std::vector<Flow> &);
-- 
2.43.0


From 9d48325d68728f069af850078cfbf17ef76aebbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 55/76] fix: connecting an automatic output port stalled its
 active block until the commit

---
 lib/Framework/WorkerActorPortAllocation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Framework/WorkerActorPortAllocation.cpp b/lib/Framework/WorkerActorPortAllocation.cpp
index 7df516d..0478712 100644
--- a/lib/Framework/WorkerActorPortAllocation.cpp
+++ b/lib/Framework/WorkerActorPortAllocation.cpp
@@ -109,6 +109,12 @@ void Pothos::WorkerActor::autoAllocateOutput(const std::string &name)
 {
     ActorInterfaceLock lock(this);
     this->autoAllocatePort(this->outputs, block->_namedOutputs, block->_indexedOutputs, block->_outputPortNames, name);
+
+    //an active block cannot work while one of its outputs lacks a buffer manager
+    if (this->activeState and this->outputs.count(name) != 0 and not this->outputs.at(name)->_bufferManager)
+    {
+        this->ensureOutputBufferManagerNoLock(name);
+    }
 }
 
 void Pothos::WorkerActor::updatePorts(void)
-- 
2.43.0


From 8f30b25532e04970bd47a50713e4b193e452e1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:02 +0000
Subject: [PATCH 56/76] fix: a directory of blocks is not itself a registered
 block

---
 lib/Framework/BlockRegistry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Framework/BlockRegistry.cpp b/lib/Framework/BlockRegistry.cpp
index b70d31c..e604d3c 100644
--- a/lib/Framework/BlockRegistry.cpp
+++ b/lib/Framework/BlockRegistry.cpp
@@ -130,7 +130,7 @@ static Pothos::Object blockRegistryMake(const std::string &path, const Pothos::O
 bool Pothos::BlockRegistry::doesBlockExist(const std::string &path)
 {
     const auto blockPluginPath = "/blocks" + path;
-    return Pothos::PluginRegistry::exists(blockPluginPath);
+    return not Pothos::PluginRegistry::empty(blockPluginPath);
 }
 
 #include <Pothos/Managed.hpp>
-- 
2.43.0


From c666b8ad9f6d4ba21fe796097a9b460e0c3569f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:56 +0000
Subject: [PATCH 57/76] fix: a rejected block description file leaves no
 registrations behind, and a description without a path is an error

---
 lib/ConfLoader/BlockDescLoader.cpp | 39 ++++++++++++++++++------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/lib/ConfLoader/BlockDescLoader.cpp b/lib/ConfLoader/BlockDescLoader.cpp
index de4c741..c49ef14 100644
--- a/lib/ConfLoader/BlockDescLoader.cpp
+++ b/lib/ConfLoader/BlockDescLoader.cpp
@@ -23,26 +23,35 @@ static std::vector<Pothos::PluginPath> blockDescParser(std::istream &is, std::ve
     //parse the stream into a JSON array
     auto arrayOut = json::parse(is);
     if (arrayOut.is_object()) arrayOut = {arrayOut};
-    for (const auto &obj : arrayOut)
+    try
     {
-        const std::string JsonObjStr(obj.dump());
-
-        std::vector<std::string> paths;
-        paths.push_back(obj["path"]);
-        for (const auto &alias : obj.value("aliases", json::array()))
+        for (const auto &obj : arrayOut)
         {
-            paths.push_back(alias);
-        }
+            const std::string JsonObjStr(obj.dump());
 
-        //register the block description for every path
-        for (const auto &path : paths)
-        {
-            const auto pluginPath = Pothos::PluginPath("/blocks/docs", path);
-            Pothos::PluginRegistry::add(pluginPath, JsonObjStr);
-            entries.push_back(pluginPath);
-            blockPaths.push_back(Pothos::PluginPath("/blocks", path));
+            std::vector<std::string> paths;
+            paths.push_back(obj.at("path"));
+            for (const auto &alias : obj.value("aliases", json::array()))
+            {
+                paths.push_back(alias);
+            }
+
+            //register the block description for every path
+            for (const auto &path : paths)
+            {
+                const auto pluginPath = Pothos::PluginPath("/blocks/docs", path);
+                Pothos::PluginRegistry::add(pluginPath, JsonObjStr);
+                entries.push_back(pluginPath);
+                blockPaths.push_back(Pothos::PluginPath("/blocks", path));
+            }
         }
     }
+    catch (...)
+    {
+        //the caller never learns of these entries: do not leave them behind
+        for (const auto &entry : entries) Pothos::PluginRegistry::remove(entry);
+        throw;
+    }
     return entries;
 }
 
-- 
2.43.0


From efce2e1bf351a88e890ea43df8ef1febcc96c200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:29 +0000
Subject: [PATCH 58/76] fix: a repeated init without plugin modules loads the
 configuration files only once

---
 lib/Init.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Init.cpp b/lib/Init.cpp
index a8f979a..9d4f1c5 100644
--- a/lib/Init.cpp
+++ b/lib/Init.cpp
@@ -26,6 +26,7 @@ namespace Pothos {
         void unload(void);
 
     private:
+        bool loaded;
         std::vector<Pothos::PluginModule> modules;
         std::vector<Pothos::PluginPath> confLoadedPaths;
     };
@@ -40,7 +41,8 @@ Pothos::InitSingleton &Pothos::InitSingleton::instance(void)
 
 void Pothos::InitSingleton::load(void)
 {
-    if (not modules.empty()) return;
+    if (loaded) return;
+    loaded = true;
     modules = PluginLoader::loadModules();
     confLoadedPaths = Pothos_ConfLoader_loadConfFiles();
 }
@@ -53,12 +55,14 @@ void Pothos::InitSingleton::unload(void)
     }
     confLoadedPaths.clear();
     modules.clear();
+    loaded = false;
 }
 
 /***********************************************************************
  * Actual init implementation
  **********************************************************************/
-Pothos::InitSingleton::InitSingleton(void)
+Pothos::InitSingleton::InitSingleton(void):
+    loaded(false)
 {
     //check the root
     const Poco::File rootPath(System::getRootPath());
-- 
2.43.0


From 2d7987ca491288c38adaae3fa089ba4904bfb2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:57 +0000
Subject: [PATCH 59/76] fix: a JSON topology description without globals can be
 made

---
 lib/ConfLoader/JSONTopologyLoader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/ConfLoader/JSONTopologyLoader.cpp b/lib/ConfLoader/JSONTopologyLoader.cpp
index 65ee8ff..3456037 100644
--- a/lib/ConfLoader/JSONTopologyLoader.cpp
+++ b/lib/ConfLoader/JSONTopologyLoader.cpp
@@ -32,14 +32,14 @@ static Pothos::Object opaqueJSONTopologyFactory(
     }
 
     //apply the global variable overlays
-    auto &globalsArray = topObj["globals"];
-    if (numArgs > globalsArray.size())
+    if (numArgs > topObj.value("globals", json::array()).size())
     {
         throw Pothos::InvalidArgumentException("too many args passed to factory");
     }
 
     for (size_t i = 0; i < numArgs; i++)
     {
+        auto &globalsArray = topObj["globals"];
         if (not globalsArray[i].is_object())
         {
             throw Pothos::DataFormatException("global entry not a JSON object");
-- 
2.43.0


From 69e047f34d35eb7fd35fc90e1689ffa7a966a9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:34 +0000
Subject: [PATCH 60/76] fix: a configuration file with an unreadable value does
 not abort loading of the others

---
 lib/ConfLoader/ConfLoader.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/ConfLoader/ConfLoader.cpp b/lib/ConfLoader/ConfLoader.cpp
index 6f55d15..4eac45d 100644
--- a/lib/ConfLoader/ConfLoader.cpp
+++ b/lib/ConfLoader/ConfLoader.cpp
@@ -40,17 +40,17 @@ static std::vector<Pothos::PluginPath> loadConfFile(const std::string &path)
         throw Pothos::Exception("ConfLoader("+path+")", ex.displayText());
     }
 
-    //store then config into a map structure
-    std::map<std::string, std::string> configMap;
-    Poco::Util::AbstractConfiguration::Keys keys; conf->keys(keys);
-    for (const auto &key : keys) configMap[key] = conf->getString(key);
-
-    //and other config file parameters
-    configMap["confFilePath"] = path;
-
     //handle the loader
     POTHOS_EXCEPTION_TRY
     {
+        //store then config into a map structure
+        std::map<std::string, std::string> configMap;
+        Poco::Util::AbstractConfiguration::Keys keys; conf->keys(keys);
+        for (const auto &key : keys) configMap[key] = conf->getString(key);
+
+        //and other config file parameters
+        configMap["confFilePath"] = path;
+
         //get the loader
         if (not conf->hasProperty("loader")) throw Pothos::Exception(
             Poco::format("%s does not specify a loader", path));
-- 
2.43.0


From 7761872d624d92116cd66901861d3bd2a96e98de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:42 +0000
Subject: [PATCH 61/76] fix: JSON topology factory arguments keep their value

---
 lib/ConfLoader/JSONTopologyLoader.cpp | 30 ++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/lib/ConfLoader/JSONTopologyLoader.cpp b/lib/ConfLoader/JSONTopologyLoader.cpp
index 3456037..e706895 100644
--- a/lib/ConfLoader/JSONTopologyLoader.cpp
+++ b/lib/ConfLoader/JSONTopologyLoader.cpp
@@ -3,14 +3,42 @@
 
 #include <Pothos/Plugin.hpp>
 #include <Pothos/Framework.hpp>
+#include <Pothos/Object/Containers.hpp>
 #include <Poco/Path.h>
 #include <Poco/File.h>
 #include <fstream>
+#include <cmath>
 #include <map>
 #include <json.hpp>
 
 using json = nlohmann::json;
 
+/***********************************************************************
+ * Make an expression that evaluates to the value of a factory arg:
+ * toString() is meant for printing, it rounds and does not escape
+ **********************************************************************/
+static std::string argToExpr(const Pothos::Object &arg)
+{
+    if (arg.type() == typeid(std::string))
+    {
+        return json(arg.extract<std::string>()).dump();
+    }
+    if ((arg.type() == typeid(double) or arg.type() == typeid(float)) and std::isfinite(arg.convert<double>()))
+    {
+        return json(arg.convert<double>()).dump();
+    }
+    if (arg.canConvert(typeid(Pothos::ObjectVector)))
+    {
+        std::string out;
+        for (const auto &elem : arg.convert<Pothos::ObjectVector>())
+        {
+            out += (out.empty()?"[":", ") + argToExpr(elem);
+        }
+        if (not out.empty()) return out + "]";
+    }
+    return arg.toString();
+}
+
 /***********************************************************************
  * The topology factory loads args into a JSON description
  * and creates and returns an instance of the topology
@@ -44,7 +72,7 @@ static Pothos::Object opaqueJSONTopologyFactory(
         {
             throw Pothos::DataFormatException("global entry not a JSON object");
         }
-        globalsArray[i]["value"] = args[i].toString();
+        globalsArray[i]["value"] = argToExpr(args[i]);
     }
 
     //create the topology from the JSON string
-- 
2.43.0


From cd697c3d91243c36badb4aef8730980b219f8fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:59 +0000
Subject: [PATCH 62/76] fix: whole numbers beyond the integer range evaluate to
 their value

---
 lib/Util/EvalEnvironment.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Util/EvalEnvironment.cpp b/lib/Util/EvalEnvironment.cpp
index f476243..79255bd 100644
--- a/lib/Util/EvalEnvironment.cpp
+++ b/lib/Util/EvalEnvironment.cpp
@@ -22,6 +22,8 @@
 #include <map>
 #include <iostream>
 #include <mutex>
+#include <cmath>
+#include <limits>
 
 static const std::string mapTypeId("__map__");
 static const std::string tmpTypeId("__tmp__");
@@ -34,7 +36,10 @@ static Pothos::Object mupValueToObject(mup::IValue &val)
     switch (val.GetType())
     {
     case 'b': return Pothos::Object(val.GetBool());
-    case 'i': return Pothos::Object(val.GetInteger());
+    case 'i':
+        //the parser calls every whole number an integer, even one that does not fit
+        if (std::abs(val.GetFloat()) >= -mup::float_type(std::numeric_limits<mup::int_type>::min())) return Pothos::Object(val.GetFloat());
+        return Pothos::Object(val.GetInteger());
     case 'f': return Pothos::Object(val.GetFloat());
     case 'c': return Pothos::Object(val.GetComplex());
     case 's': return Pothos::Object(val.GetString());
-- 
2.43.0


From cf212bfc60ff715fcd04ad260f5d876107be961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:23 +0000
Subject: [PATCH 63/76] fix: a null plugin module has no plugin paths

---
 lib/Plugin/Module.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Plugin/Module.cpp b/lib/Plugin/Module.cpp
index fdc6554..aadc127 100644
--- a/lib/Plugin/Module.cpp
+++ b/lib/Plugin/Module.cpp
@@ -127,6 +127,8 @@ std::string Pothos::PluginModule::getFilePath(void) const
 
 const std::vector<std::string> &Pothos::PluginModule::getPluginPaths(void) const
 {
+    static const std::vector<std::string> none;
+    if (not _impl) return none;
     return _impl->pluginPaths;
 }
 
-- 
2.43.0


From 1ccd61b7a17c4c33aaf071d25d8a760b2b326f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:15 +0000
Subject: [PATCH 64/76] fix: unloading a module removes only the plugins which
 it still provides

---
 lib/Plugin/Module.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Plugin/Module.cpp b/lib/Plugin/Module.cpp
index aadc127..423fe99 100644
--- a/lib/Plugin/Module.cpp
+++ b/lib/Plugin/Module.cpp
@@ -3,6 +3,7 @@
 
 #include <Pothos/System/Paths.hpp>
 #include <Pothos/Plugin/Module.hpp>
+#include <Pothos/Plugin/Plugin.hpp>
 #include <Pothos/Plugin/Registry.hpp>
 #include <Pothos/Plugin/Exception.hpp>
 #include <Pothos/Object.hpp> //pulls in full Object implementation
@@ -114,6 +115,9 @@ Pothos::PluginModule::~PluginModule(void)
     poco_debug(Poco::Logger::get("Pothos.PluginModule.unload"), _impl->sharedLibrary.getPath());
     for (const auto &pluginPath : this->getPluginPaths())
     {
+        //the plugin may have been removed or replaced since, or belong to another load of the same file
+        if (PluginRegistry::empty(pluginPath)) continue;
+        if (PluginRegistry::get(pluginPath).getModule()._impl != _impl) continue;
         PluginRegistry::remove(pluginPath);
     }
     _impl->sharedLibrary.unload();
-- 
2.43.0


From 4beff2c9fbb6cb2fa12840c9c07f7d16c06e51c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:08 +0000
Subject: [PATCH 65/76] fix: assigning to the last handle of a plugin module
 unloads it

---
 include/Pothos/Plugin/Module.hpp | 6 ++++++
 lib/Plugin/Module.cpp            | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/include/Pothos/Plugin/Module.hpp b/include/Pothos/Plugin/Module.hpp
index 119cbd1..d2594e5 100644
--- a/include/Pothos/Plugin/Module.hpp
+++ b/include/Pothos/Plugin/Module.hpp
@@ -40,6 +40,12 @@ public:
      */
     PluginModule(const std::string &path);
 
+    //! Copy constructor, both refer to the same loaded library.
+    PluginModule(const PluginModule &other) = default;
+
+    //! Copy assignment, releases the current library like the destructor.
+    PluginModule &operator=(const PluginModule &other);
+
     //! Plugin module destructor.
     ~PluginModule(void);
 
diff --git a/lib/Plugin/Module.cpp b/lib/Plugin/Module.cpp
index 423fe99..9de71ae 100644
--- a/lib/Plugin/Module.cpp
+++ b/lib/Plugin/Module.cpp
@@ -106,6 +106,13 @@ Pothos::PluginModule::PluginModule(const std::string &path):
     }
 }
 
+Pothos::PluginModule &Pothos::PluginModule::operator=(const PluginModule &other)
+{
+    PluginModule released(other);
+    std::swap(_impl, released._impl);
+    return *this;
+}
+
 Pothos::PluginModule::~PluginModule(void)
 {
     if (not _impl) return; //no private data
-- 
2.43.0


From 9743c22738c519e8f227b0ccf11a3ff100b0a018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:08 +0000
Subject: [PATCH 66/76] fix: plugins registered after a failed module load do
 not belong to that module

---
 lib/Plugin/Module.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Plugin/Module.cpp b/lib/Plugin/Module.cpp
index 9de71ae..92e298f 100644
--- a/lib/Plugin/Module.cpp
+++ b/lib/Plugin/Module.cpp
@@ -102,6 +102,9 @@ Pothos::PluginModule::PluginModule(const std::string &path):
     }
     catch(const Poco::LibraryLoadException &ex)
     {
+        //nothing that gets registered from here on belongs to this module
+        currentModuleVersion = nullptr;
+        registrySetActiveModuleLoading(PluginModule());
         throw PluginModuleError("Pothos::PluginModule("+path+")", ex.displayText());
     }
 }
-- 
2.43.0


From 0418cffe4dba2f3dc0d29af469798451be886289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:45 +0000
Subject: [PATCH 67/76] fix: plugins registered by other threads during a
 module load do not belong to that module

---
 lib/Plugin/Module.cpp   |  8 ++++----
 lib/Plugin/Registry.cpp | 13 +++++++------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/lib/Plugin/Module.cpp b/lib/Plugin/Module.cpp
index 92e298f..79fdd68 100644
--- a/lib/Plugin/Module.cpp
+++ b/lib/Plugin/Module.cpp
@@ -46,7 +46,7 @@ struct ErrorMessageDisableGuard
 /***********************************************************************
  * Locking for plugin attach helper
  **********************************************************************/
-void registrySetActiveModuleLoading(const Pothos::PluginModule &module);
+void registrySetActiveModuleLoading(const Pothos::PluginModule *module);
 
 std::vector<std::string> getPluginPaths(const Pothos::PluginModule &module);
 
@@ -92,19 +92,19 @@ Pothos::PluginModule::PluginModule(const std::string &path):
     try
     {
         std::lock_guard<std::mutex> lock(getModuleMutex());
-        registrySetActiveModuleLoading(*this);
+        registrySetActiveModuleLoading(this);
         currentModuleVersion = &(_impl->version);
         ErrorMessageDisableGuard emdg;
         _impl->sharedLibrary.load(path);
         currentModuleVersion = nullptr;
-        registrySetActiveModuleLoading(PluginModule());
+        registrySetActiveModuleLoading(nullptr);
         _impl->pluginPaths = ::getPluginPaths(*this);
     }
     catch(const Poco::LibraryLoadException &ex)
     {
         //nothing that gets registered from here on belongs to this module
         currentModuleVersion = nullptr;
-        registrySetActiveModuleLoading(PluginModule());
+        registrySetActiveModuleLoading(nullptr);
         throw PluginModuleError("Pothos::PluginModule("+path+")", ex.displayText());
     }
 }
diff --git a/lib/Plugin/Registry.cpp b/lib/Plugin/Registry.cpp
index 925ca8d..9913844 100644
--- a/lib/Plugin/Registry.cpp
+++ b/lib/Plugin/Registry.cpp
@@ -140,16 +140,17 @@ static void handleMissedSubTreeEvents(const Pothos::Object &handler, const Potho
 /***********************************************************************
  * active module implementation
  **********************************************************************/
-static Pothos::PluginModule &getActiveModuleLoading(void)
+//per thread: what other threads register meanwhile is not part of the module
+static thread_local const Pothos::PluginModule *activeModuleLoading(nullptr);
+
+static const Pothos::PluginModule &getActiveModuleLoading(void)
 {
-    static Pothos::PluginModule module;
-    return module;
+    return (activeModuleLoading == nullptr)? Pothos::PluginModule::null() : *activeModuleLoading;
 }
 
-void registrySetActiveModuleLoading(const Pothos::PluginModule &module)
+void registrySetActiveModuleLoading(const Pothos::PluginModule *module)
 {
-    //made thread safe by lock in caller routine from Module.cpp
-    getActiveModuleLoading() = module;
+    activeModuleLoading = module;
 }
 
 void updatePluginAssociation(const std::string &action, const Pothos::Plugin &plugin);
-- 
2.43.0


From cb6a9eb421f813f64025b45192561cc7dfb6e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:40 +0000
Subject: [PATCH 68/76] fix: a file can be mapped for writing only

---
 lib/Framework/MemoryMappedBufferContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Framework/MemoryMappedBufferContainer.cpp b/lib/Framework/MemoryMappedBufferContainer.cpp
index 306c11e..f7ad178 100644
--- a/lib/Framework/MemoryMappedBufferContainer.cpp
+++ b/lib/Framework/MemoryMappedBufferContainer.cpp
@@ -50,7 +50,7 @@ public:
         int openFlags = 0;
         if(readable && writable) openFlags = O_RDWR;
         else if(readable)        openFlags = O_RDONLY;
-        else if(writable)        openFlags = O_WRONLY;
+        else if(writable)        openFlags = O_RDWR; //a shared mapping needs a readable file
 
         int mmapProt = 0;
         if(readable) mmapProt |= PROT_READ;
-- 
2.43.0


From 5bbe1e30c594fc021e45af06b354ea46add7737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:12 +0000
Subject: [PATCH 69/76] fix: a failed file mapping closes the file

---
 lib/Framework/MemoryMappedBufferContainer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Framework/MemoryMappedBufferContainer.cpp b/lib/Framework/MemoryMappedBufferContainer.cpp
index f7ad178..d1e3ab6 100644
--- a/lib/Framework/MemoryMappedBufferContainer.cpp
+++ b/lib/Framework/MemoryMappedBufferContainer.cpp
@@ -67,7 +67,9 @@ public:
         _buffer = ::mmap(nullptr, _length, mmapProt, mmapFlags, fd, 0);
         if(!_buffer || (MAP_FAILED == _buffer))
         {
-            throw Pothos::IOException("mmap", ::strerror(errno));
+            const int mmapErrno = errno;
+            ::close(fd);
+            throw Pothos::IOException("mmap", ::strerror(mmapErrno));
         }
 
         throwErrnoOnFailure<Pothos::FileException>(::close(fd));
-- 
2.43.0


From ec49e0c05ef6de7bd3cb56fc8fe45ea69aca0ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:08 +0000
Subject: [PATCH 70/76] fix: a null proxy returned by a remote call is a null
 proxy for the client

---
 lib/Remote/RemoteProxy.cpp   | 1 +
 lib/Remote/ServerHandler.cpp | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Remote/RemoteProxy.cpp b/lib/Remote/RemoteProxy.cpp
index 1309485..11d233c 100644
--- a/lib/Remote/RemoteProxy.cpp
+++ b/lib/Remote/RemoteProxy.cpp
@@ -147,6 +147,7 @@ RemoteProxyEnvironment::~RemoteProxyEnvironment(void)
 
 Pothos::Proxy RemoteProxyEnvironment::makeHandle(const size_t remoteID)
 {
+    if (remoteID == 0) return Pothos::Proxy(); //the call returned a null proxy
     auto env = std::dynamic_pointer_cast<RemoteProxyEnvironment>(this->shared_from_this());
     return Pothos::Proxy(new RemoteProxyHandle(env, remoteID));
 }
diff --git a/lib/Remote/ServerHandler.cpp b/lib/Remote/ServerHandler.cpp
index 1d59d9a..e7447a1 100644
--- a/lib/Remote/ServerHandler.cpp
+++ b/lib/Remote/ServerHandler.cpp
@@ -132,7 +132,8 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
             {
                 const auto &name = reqArgs.at("name").extract<std::string>();
                 auto result = proxy.getHandle()->call(name, args.data(), args.size());
-                replyArgs["handleID"] = getNewObjectId(Pothos::Object(result));
+                //ID zero represents a null proxy, which cannot be used remotely
+                replyArgs["handleID"] = result?getNewObjectId(Pothos::Object(result)):Pothos::Object(size_t(0));
             }
             catch (const Pothos::ProxyExceptionMessage &ex)
             {
-- 
2.43.0


From 1dae8e9cfcea3a90fc41a0d18505f632296e2825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:08 +0000
Subject: [PATCH 71/76] fix: calls on a block evaluator without block raise an
 error

---
 lib/Util/Builtin/BlockEval.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Util/Builtin/BlockEval.cpp b/lib/Util/Builtin/BlockEval.cpp
index 04d4771..f26051b 100644
--- a/lib/Util/Builtin/BlockEval.cpp
+++ b/lib/Util/Builtin/BlockEval.cpp
@@ -63,6 +63,7 @@ void ProxyBlockEval::_handleCall(const json &callObj)
 {
     auto env = Pothos::ProxyEnvironment::make("managed");
     const std::string callName = callObj["name"];
+    if (not _proxyBlock) throw Pothos::Exception("ProxyBlockEval call("+callName+")", "no evaluated block");
     std::vector<Pothos::Proxy> callArgs;
     if (callObj.count("args")) for (const auto &arg : callObj["args"])
     {
-- 
2.43.0


From 5cfae97a74dfc391ee63ca2cfbf20d5cbd8e5bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:10 +0000
Subject: [PATCH 72/76] fix: dot markup is valid for every port name

---
 lib/Framework/TopologyDotMarkup.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/Framework/TopologyDotMarkup.cpp b/lib/Framework/TopologyDotMarkup.cpp
index 6b49c71..c935dab 100644
--- a/lib/Framework/TopologyDotMarkup.cpp
+++ b/lib/Framework/TopologyDotMarkup.cpp
@@ -14,6 +14,12 @@
 
 using json = nlohmann::json;
 
+//a port ID that is valid in dot markup for every port name
+static std::string dotPortId(const std::string &prefix, const std::string &name)
+{
+    return "__"+prefix+"__"+std::to_string(std::hash<std::string>()(name));
+}
+
 static Poco::AutoPtr<Poco::XML::Element> portInfoToElem(Poco::AutoPtr<Poco::XML::Document> xmlDoc, const json &portsInfo, const std::string &prefix)
 {
     auto nodeTd = xmlDoc->createElement("td");
@@ -37,7 +43,7 @@ static Poco::AutoPtr<Poco::XML::Element> portInfoToElem(Poco::AutoPtr<Poco::XML:
         if (prefix == "in"  and not isSigSlot) td->setAttribute("bgcolor", "#779ECB");
         if (prefix == "out" and isSigSlot)     td->setAttribute("bgcolor", "#77DD77");
         if (prefix == "out" and not isSigSlot) td->setAttribute("bgcolor", "#03C03C");
-        td->setAttribute("port", "__"+prefix+"__"+name);
+        td->setAttribute("port", dotPortId(prefix, name));
         unsigned value = 0;
         if (Poco::NumberParser::tryParseUnsigned(name, value)) name = prefix+name;
         td->appendChild(xmlDoc->createTextNode(name));
@@ -161,10 +167,10 @@ std::string Pothos::Topology::toDotMarkup(const std::string &request)
     {
         os << "    ";
         os << std::hash<std::string>()(conn["srcId"].get<std::string>());
-        os << ":__out__" << conn["srcName"].get<std::string>();
+        os << ":" << dotPortId("out", conn["srcName"].get<std::string>());
         os << " -> ";
         os << std::hash<std::string>()(conn["dstId"].get<std::string>());
-        os << ":__in__" << conn["dstName"].get<std::string>();
+        os << ":" << dotPortId("in", conn["dstName"].get<std::string>());
         os << ";" << std::endl;
     }
 
-- 
2.43.0


From 7365faf97262b32e7860dc4cd7e9de6e1e74d862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:57 +0000
Subject: [PATCH 73/76] fix: objects print after the toString function of their
 type was removed

---
 lib/Object/ToString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Object/ToString.cpp b/lib/Object/ToString.cpp
index 5c2fa35..a91f929 100644
--- a/lib/Object/ToString.cpp
+++ b/lib/Object/ToString.cpp
@@ -59,7 +59,7 @@ static void handleToStringPluginEvent(const Pothos::Plugin &plugin, const std::s
         }
         if (event == "remove")
         {
-            getToStringMap()[t.hash_code()] = Pothos::Plugin();
+            getToStringMap().erase(t.hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
-- 
2.43.0


From ea3f7ed70bf29078ea4b3ab58f01b75be0ae455b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:57 +0000
Subject: [PATCH 74/76] fix: registered toString functions are called without
 holding the lock

---
 lib/Object/ToString.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/Object/ToString.cpp b/lib/Object/ToString.cpp
index a91f929..a625b42 100644
--- a/lib/Object/ToString.cpp
+++ b/lib/Object/ToString.cpp
@@ -155,11 +155,16 @@ std::string Pothos::Object::toString(void) const
     catch (...) {}
 
     //check for a registered toString(), it will be null if not found
-    Pothos::Util::SpinLockRW::SharedLock lock(getMapMutex());
-    auto it = getToStringMap().find(this->type().hash_code());
-    if(getToStringMap().end() != it)
+    //the lock is released before the call, which may use the registry
+    Pothos::Plugin plugin;
     {
-        const auto &call = it->second.getObject().extract<Pothos::Callable>();
+        Pothos::Util::SpinLockRW::SharedLock lock(getMapMutex());
+        auto it = getToStringMap().find(this->type().hash_code());
+        if(getToStringMap().end() != it) plugin = it->second;
+    }
+    if(plugin.getObject())
+    {
+        const auto &call = plugin.getObject().extract<Pothos::Callable>();
 
         Pothos::Object arg0(*this);
         return call.opaqueCall(&arg0, 1).extract<std::string>();
-- 
2.43.0


From 870ab760ba6e9f78c8ee13391af8482c8cdd2178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:22 +0000
Subject: [PATCH 75/76] fix: complex integers print for every value

---
 lib/Object/ToString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Object/ToString.cpp b/lib/Object/ToString.cpp
index a625b42..7703c4e 100644
--- a/lib/Object/ToString.cpp
+++ b/lib/Object/ToString.cpp
@@ -106,7 +106,7 @@ std::string Pothos::Object::toString(void) const
             const std::complex<long long> c = *this;
             if (c.imag() == 0) return std::to_string(c.real());
             if (c.real() == 0) return std::to_string(c.imag())+"j";
-            if (c.imag() < 0) return Poco::format("%s-%sj", std::to_string(c.real()), std::to_string(-c.imag()));
+            if (c.imag() < 0) return Poco::format("%s-%sj", std::to_string(c.real()), std::to_string(0-(unsigned long long)(c.imag())));
             return Poco::format("%s+%sj", std::to_string(c.real()), std::to_string(c.imag()));
         }
         if (dtype.isFloat()) return std::to_string(double(*this));
-- 
2.43.0


From 1b1342fc5d9e6eee93b2755702647c22f6f3d26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:22 +0000
Subject: [PATCH 76/76] fix: a toString function registered again for a type
 replaces the former one

---
 include/Pothos/Object/RegisterToString.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/Pothos/Object/RegisterToString.hpp b/include/Pothos/Object/RegisterToString.hpp
index b058e92..a0e7621 100644
--- a/include/Pothos/Object/RegisterToString.hpp
+++ b/include/Pothos/Object/RegisterToString.hpp
@@ -43,10 +43,10 @@ void registerToStringFunc(
     const ToStringFunc<T>& toStringFunc,
     bool registerPointerTypes)
 {
-    // Store our own static copy so the lambdas below don't try to use
+    // Store our own copy in the lambdas below so they don't try to use
     // the reference parameter after the underlying std::function is
     // deleted.
-    static const ToStringFunc<T> func(toStringFunc);
+    const ToStringFunc<T> func(toStringFunc);
 
     const std::string prefix = "/object/tostring";
     Pothos::PluginRegistry::addCall(
@@ -55,17 +55,17 @@ void registerToStringFunc(
 
     if(registerPointerTypes)
     {
-        const std::function<std::string(T*)> ptrToString([&](T* ptr)
+        const std::function<std::string(T*)> ptrToString([func](T* ptr)
         {
             if(nullptr == ptr) return "Null pointer: " + Pothos::Util::typeInfoToString(typeid(T));
             else               return "Pointer: " + func(*ptr);
         });
-        const std::function<std::string(const T*)> constPtrToString([&](const T* ptr)
+        const std::function<std::string(const T*)> constPtrToString([func](const T* ptr)
         {
             if(nullptr == ptr) return "Null pointer: " + Pothos::Util::typeInfoToString(typeid(T));
             else               return "Pointer: " + func(*ptr);
         });
-        const std::function<std::string(const std::shared_ptr<T>&)> sptrToString([&](const std::shared_ptr<T>& sptr)
+        const std::function<std::string(const std::shared_ptr<T>&)> sptrToString([func](const std::shared_ptr<T>& sptr)
         {
             if(nullptr == sptr.get()) return "Null shared pointer: " + Pothos::Util::typeInfoToString(typeid(T));
             else                      return "Shared pointer: " + func(*sptr);
-- 
2.43.0

