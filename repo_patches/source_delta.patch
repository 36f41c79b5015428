From 19d6d0efd4a01b6afd0f3237076086d67dd0190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 001/122] fix: initialise the executed flag of
 SingleTimeExecutor

---
 src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp b/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
index 2db6545..06d3e75 100644
--- a/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
+++ b/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
@@ -46,7 +46,8 @@ class SingleTimeExecutor {
 	///
 	public: explicit SingleTimeExecutor(std::function<void ()> code_)
 		: code(std::move(code_))
-		, destructorCode() {}
+		, destructorCode()
+		, executed(false) {}
 
 	///
 	/// Create a single time executor with a code block and a destructor code block.
@@ -57,7 +58,8 @@ class SingleTimeExecutor {
 	///
 	public: SingleTimeExecutor(std::function<void ()> code_, std::function<void ()> destructorCode_)
 		: code(std::move(code_))
-		, destructorCode(std::move(destructorCode_)) {}
+		, destructorCode(std::move(destructorCode_))
+		, executed(false) {}
 
 	///
 	/// Destroy the single time executor.
-- 
2.43.0


From 20eae3f0f127910848ec4273673583125c3f84f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 002/122] fix: report the outcome of
 SharedMemoryQueue::tryDequeue through its success argument

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 4811e66..57cd47d 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -492,9 +492,12 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 		unsigned int priority;
 
 		if (!tryDequeueNextBuffer(queueBuffer, receivedSize, priority, 0, waitTime)) {
+			success = false;
 			return T();
 		}
 
+		success = true;
+
 		const auto * queueHeader = (const Impl::QueueHeader *) queueBuffer.data();
 
 		if (queueHeader->chunkCount == 1) {
@@ -504,7 +507,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			// The object is split across multiple buffers, potentially interleaved with other buffers.
 			return performMultiChunkDequeue(
 				queueBuffer, receivedSize, priority
-				, [waitTime, this] (CharVector & marshalBuffer,
+				, [waitTime, &success, this] (CharVector & marshalBuffer,
 					                CharVector & queueBuffer,
 					                unsigned long & thisReceivedSize,
 					                unsigned int & thisPriority,
@@ -515,6 +518,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 						);
 
 						marshalBuffer = CharVector();
+						success = false;
 						return false;
 					}
 
@@ -525,7 +529,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			// This is a partially dequeued multi-chunk dequeue which was previously placed on the pending queue.
 			return completeMultiChunkDequeue(
 				queueBuffer, receivedSize, priority
-				, [waitTime, this] (CharVector & marshalBuffer,
+				, [waitTime, &success, this] (CharVector & marshalBuffer,
 					                CharVector & queueBuffer,
 					                unsigned long & thisReceivedSize,
 					                unsigned int & thisPriority,
@@ -535,6 +539,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 							PendingBuffer(std::move(queueBuffer), queueBuffer.size(), thisPriority)
 						);
 						marshalBuffer = CharVector();
+						success = false;
 						return false;
 					}
 
-- 
2.43.0


From 9c5fc9a1040948fcbcc5d17d9a03fec9ba66fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 003/122] fix: use UTC for the time limit of
 SharedMemoryQueue::tryEnqueue

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 57cd47d..bb6a5a3 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -366,7 +366,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 
 		if (marshalBuffer.size() <= chunkSize) {
 			// The message fits in a single buffer.
-			auto timeout = boost::posix_time::microsec_clock::local_time() + boost::posix_time::millisec(waitTime.count());
+			auto timeout = boost::posix_time::microsec_clock::universal_time() + boost::posix_time::millisec(waitTime.count());
 			return queue.timed_send(marshalBuffer.data(), marshalBuffer.size(), priority, timeout);
 		} else {
 			// Oversize objects cannot be try enqueued, thus an exception is thrown.
-- 
2.43.0


From b136afa6d2bbe9d2dcb5a0af44b71e29a7aa02b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 004/122] fix: keep the partially dequeued message when
 SharedMemoryQueue::tryDequeue gives up on it again

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index bb6a5a3..7025f39 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -536,7 +536,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 					                size_t rejected) {
 					if (!tryDequeueNextBuffer(queueBuffer, thisReceivedSize, thisPriority, rejected, waitTime)) {
 						pendingBuffers.emplace_front(
-							PendingBuffer(std::move(queueBuffer), queueBuffer.size(), thisPriority)
+							PendingBuffer(std::move(marshalBuffer), marshalBuffer.size(), thisPriority)
 						);
 						marshalBuffer = CharVector();
 						success = false;
-- 
2.43.0


From 3713dd7b524ca892700bef19b5858466ac572c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 005/122] fix: keep the order of pending buffers in
 SharedMemoryQueue after a multi-buffer dequeue

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 7025f39..87e08a3 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -44,6 +44,7 @@
 #include <boost/iostreams/filtering_stream.hpp>
 #include <boost/iostreams/stream.hpp>
 
+#include <algorithm>
 #include <deque>
 
 // Ignore false positives for constructor field initialisation.
@@ -609,6 +610,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			}
 
 			if (partsLeft == 0) {
+				restorePendingOrder(rejectedPendingBuffers);
 				return unmarshal(marshalBuffer);
 			}
 
@@ -668,11 +670,20 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			}
 
 			if (partsLeft == 0) {
+				restorePendingOrder(rejectedPendingBuffers);
 				return unmarshal(marshalBuffer);
 			}
 		}
 	}
 
+	//
+	// The rejected buffers at the back of the pending list were received before
+	// the buffers that have not been examined. Put them back in front.
+	//
+	private: void restorePendingOrder(size_t rejectedPendingBuffers) {
+		std::rotate(pendingBuffers.begin(), pendingBuffers.end() - rejectedPendingBuffers, pendingBuffers.end());
+	}
+
 	//
 	// Dequeue next buffer form the pending list if the pending list size is greater
 	// than rejectedPendingBuffers, otherwise dequeue from the shared memory queue.
-- 
2.43.0


From 90a7611f9f091395a1206662fd1a0b9ec3dfdd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 006/122] fix: a SharedMemoryQueue with pending buffers is not
 empty

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 87e08a3..ca20ae1 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -555,7 +555,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	}
 
 	public: bool empty() const override {
-		return queue.get_num_msg() == 0;
+		return pendingBuffers.empty() && queue.get_num_msg() == 0;
 	}
 
 	///
-- 
2.43.0


From 16b72fe1a7cbd691856b434324fc22f0955400f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 007/122] fix: opening an existing SharedMemoryQueue with
 OpenOrCreateSelector uses its buffer size

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index ca20ae1..eb59827 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -176,7 +176,6 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			  OpenOrCreateSelector()
 			, capacity
 			, calculateDefaultBufferSize()
-			, true
 			, std::move(name_)
 			, throwOnOversize_
 		) {}
@@ -201,7 +200,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	                          bool throwOnOversize_ = false)
 		: name(std::move(name_))
 		, queue(openOrCreateQueue(capacity, bufferSize_))
-		, chunkSize(bufferSize_)
+		, chunkSize((unsigned int) queue.get_max_msg_size())
 		, queueState(OpenOrCreateSelector(), name + "_queueState")
 		, throwOnOversize(throwOnOversize_) {}
 
-- 
2.43.0


From b8e4a3277a10eee56cec24599123c36f4eb89091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 008/122] fix: MSharedMemoryObject opened with
 OpenOrCreateSelector opens an existing object

---
 src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
index ab0490b..b84be3d 100644
--- a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
@@ -108,13 +108,11 @@ template <typename T> class MSharedMemoryObject {
 	MSharedMemoryObject(OpenOrCreateSelector, const std::string & name, const P & ... params) {
 		const std::string memoryName = name + "_memory";
 
-		boost::interprocess::shared_memory_object::remove(memoryName.c_str());
-
 		segment = boost::interprocess::managed_shared_memory(
 			boost::interprocess::open_or_create, memoryName.c_str(), metadataOverhead + sizeof(T)
 		);
 
-		object = segment.construct<T>((name + "_object").c_str())(params ...);
+		object = segment.find_or_construct<T>((name + "_object").c_str())(params ...);
 	}
 
 	///
-- 
2.43.0


From 0bb1447ed1fc19042cc524e4185d8eed846353b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 009/122] fix: make ThreadLocalInstance usable for types
 without default constructor

---
 src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp b/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
index 3af30cf..4775768 100644
--- a/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
+++ b/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
@@ -26,6 +26,8 @@
 #ifndef COM_BORA_SOFTWARE__BALAU_CONCURRENT__THREAD_LOCAL_INSTANCE
 #define COM_BORA_SOFTWARE__BALAU_CONCURRENT__THREAD_LOCAL_INSTANCE
 
+#include <functional>
+
 #include <boost/thread/tss.hpp>
 
 namespace Balau::Concurrent {
@@ -65,12 +67,12 @@ class ThreadLocalInstance<T, typename std::enable_if<std::is_default_constructib
 };
 
 template <typename T>
-class ThreadLocalInstance<T, std::negation<typename std::enable_if<std::is_default_constructible<T>::value>::type>> {
+class ThreadLocalInstance<T, typename std::enable_if<!std::is_default_constructible<T>::value>::type> {
 	///
 	/// Get the thread local instance, instantiating it with the supplied function if necessary.
 	///
 	public: T & operator () (std::function<T * ()> instantiate) {
-		if (instance.get()) {
+		if (!instance.get()) {
 			instance.reset(instantiate());
 		}
 
-- 
2.43.0


From f336514cb9a5856b414b1386f01d935c3810af11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 010/122] fix: Fork::terminateProcess terminates a running
 process

---
 src/main/cpp/Balau/Concurrent/Fork.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Concurrent/Fork.hpp b/src/main/cpp/Balau/Concurrent/Fork.hpp
index 1e723aa..d634b7b 100644
--- a/src/main/cpp/Balau/Concurrent/Fork.hpp
+++ b/src/main/cpp/Balau/Concurrent/Fork.hpp
@@ -290,10 +290,12 @@ class Fork {
 				}
 
 				default: {
-					kill(pid, SIGKILL);
 					break;
 				}
 			}
+		} else {
+			// The process has not terminated.
+			kill(pid, SIGKILL);
 		}
 
 		return TerminationReport();
-- 
2.43.0


From 5575c6ae069849860372620aa8b01d7fe5b27317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 011/122] fix: USharedMemoryObject opens existing shared memory
 objects

---
 .../Interprocess/USharedMemoryObject.hpp      | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
index 1573e67..8e939dc 100644
--- a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
@@ -91,18 +91,16 @@ template <typename T> class USharedMemoryObject {
 	public: template <typename ... P>
 	USharedMemoryObject(boost::interprocess::open_or_create_t, std::string name_, const P & ... params)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object::remove(name.c_str());
-
-		boost::interprocess::shared_memory_object shm_obj(
+		sharedMemoryObject = boost::interprocess::shared_memory_object(
 			boost::interprocess::open_or_create, name.c_str(), boost::interprocess::read_write
 		);
 
-		boost::interprocess::offset_t size;
+		boost::interprocess::offset_t size = 0;
 
-		if (shm_obj.get_size(size)) {
-			shm_obj.truncate(sizeof(T));
-			boost::interprocess::mapped_region region(shm_obj, boost::interprocess::read_write);
-			object = new (region.get_address()) T(params ...);
+		if (sharedMemoryObject.get_size(size) && size == 0) {
+			sharedMemoryObject.truncate(sizeof(T));
+			mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, boost::interprocess::read_write);
+			object = new (mappedRegion.get_address()) T(params ...);
 		} else {
 			remap();
 		}
@@ -113,7 +111,7 @@ template <typename T> class USharedMemoryObject {
 	///
 	public: USharedMemoryObject(boost::interprocess::open_only_t, std::string name_)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object sharedMemoryObject(
+		sharedMemoryObject = boost::interprocess::shared_memory_object(
 			boost::interprocess::open_only, name.c_str(), boost::interprocess::read_write
 		);
 
@@ -125,7 +123,7 @@ template <typename T> class USharedMemoryObject {
 	///
 	public: USharedMemoryObject(boost::interprocess::open_read_only_t, std::string name_)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object shm_obj(
+		sharedMemoryObject = boost::interprocess::shared_memory_object(
 			boost::interprocess::open_only, name.c_str(), boost::interprocess::read_only
 		);
 
@@ -160,7 +158,7 @@ template <typename T> class USharedMemoryObject {
 	}
 
 	public: void remap() {
-		mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, boost::interprocess::read_write);
+		mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, sharedMemoryObject.get_mode());
 		object = (T *) mappedRegion.get_address();
 	}
 
-- 
2.43.0


From bd4525a56584dae614410c86de55ea2dff286a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 012/122] fix: MSharedMemoryObject can be opened read-only

---
 .../cpp/Balau/Interprocess/MSharedMemoryObject.hpp     | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
index b84be3d..704b53e 100644
--- a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
@@ -146,7 +146,8 @@ template <typename T> class MSharedMemoryObject {
 	public: MSharedMemoryObject(OpenReadOnlySelector, const std::string & name) {
 		const std::string memoryName = name + "_memory";
 		segment = boost::interprocess::managed_shared_memory(boost::interprocess::open_read_only, memoryName.c_str());
-		auto item = segment.find<T>((name + "_object").c_str());
+		// The memory is mapped read-only, thus the segment's mutex cannot be locked.
+		auto item = segment.find_no_lock<T>((name + "_object").c_str());
 
 		if (item.first == nullptr) {
 			ThrowBalauException(
@@ -160,10 +161,9 @@ template <typename T> class MSharedMemoryObject {
 	///
 	/// Destroy the shared memory object.
 	///
-	public: ~MSharedMemoryObject() {
-		segment.destroy<T>((name + "_memory").c_str());
-		boost::interprocess::shared_memory_object::remove((name + "_object").c_str());
-	}
+	/// The shared memory itself persists, as other processes may be using it.
+	///
+	public: ~MSharedMemoryObject() = default;
 
 	///
 	/// Create a shared memory object by moving from a previously created one.
-- 
2.43.0


From 4662a29512b2f1deda1eec41999558914d81a56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 013/122] fix: DependencyGraph iterators can be copied,
 dereferenced and used with edge data

---
 .../cpp/Balau/Container/DependencyGraph.hpp   | 38 ++++++++++---------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/main/cpp/Balau/Container/DependencyGraph.hpp b/src/main/cpp/Balau/Container/DependencyGraph.hpp
index 914a2e4..09879ca 100644
--- a/src/main/cpp/Balau/Container/DependencyGraph.hpp
+++ b/src/main/cpp/Balau/Container/DependencyGraph.hpp
@@ -109,12 +109,14 @@ class DependencyGraph {
 		/// Create an iterator by copying the supplied iterator.
 		///
 		public: iterator(const iterator & copy)
-			: vertexIter(copy.vertexIter) {}
+			: graph(copy.graph)
+			, vertexIter(copy.vertexIter) {}
 
 		///
 		/// Set the current iterator to a copy of the supplied iterator.
 		///
 		public: iterator & operator = (const iterator & copy) {
+			graph = copy.graph;
 			vertexIter = copy.vertexIter;
 			return *this;
 		}
@@ -140,28 +142,28 @@ class DependencyGraph {
 		/// Dereference the iterator in order to obtain the object pointed to.
 		///
 		public: VertexT & operator * () {
-			return graph[*vertexIter];
+			return (*graph)[*vertexIter];
 		}
 
 		///
 		/// Dereference the iterator in order to obtain the object pointed to.
 		///
 		public: const VertexT & operator * () const {
-			return graph[*vertexIter];
+			return (*graph)[*vertexIter];
 		}
 
 		///
 		/// Dereference the iterator in order to obtain the object pointed to.
 		///
-		public: VertexT & operator -> () {
-			return &graph[*vertexIter];
+		public: VertexT * operator -> () {
+			return &(*graph)[*vertexIter];
 		}
 
 		///
 		/// Dereference the iterator in order to obtain the object pointed to.
 		///
-		public: const VertexT & operator -> () const {
-			return &graph[*vertexIter];
+		public: const VertexT * operator -> () const {
+			return &(*graph)[*vertexIter];
 		}
 
 		///
@@ -178,13 +180,13 @@ class DependencyGraph {
 			return vertexIter != rhs.vertexIter;
 		}
 
-		friend class DependencyGraph<VertexT>;
+		friend class DependencyGraph<VertexT, EdgeT, GraphT>;
 
 		private: explicit iterator(Graph & graph_, VertexIterator vertexIter_)
-			: graph(graph_)
+			: graph(&graph_)
 			, vertexIter(vertexIter_) {}
 
-		private: Graph & graph;
+		private: Graph * graph;
 		private: VertexIterator vertexIter;
 	};
 
@@ -196,12 +198,14 @@ class DependencyGraph {
 		/// Create an iterator by copying the supplied iterator.
 		///
 		public: const_iterator(const const_iterator & copy)
-			: vertexIter(copy.vertexIter) {}
+			: graph(copy.graph)
+			, vertexIter(copy.vertexIter) {}
 
 		///
 		/// Set the current iterator to a copy of the supplied iterator.
 		///
 		public: const_iterator & operator = (const const_iterator & copy) {
+			graph = copy.graph;
 			vertexIter = copy.vertexIter;
 			return *this;
 		}
@@ -227,14 +231,14 @@ class DependencyGraph {
 		/// Dereference the iterator in order to obtain the object pointed to.
 		///
 		public: const VertexT & operator * () const {
-			return graph[*vertexIter];
+			return (*graph)[*vertexIter];
 		}
 
 		///
 		/// Dereference the iterator in order to obtain the object pointed to.
 		///
-		public: const VertexT & operator -> () const {
-			return &graph[*vertexIter];
+		public: const VertexT * operator -> () const {
+			return &(*graph)[*vertexIter];
 		}
 
 		///
@@ -251,13 +255,13 @@ class DependencyGraph {
 			return vertexIter != rhs.vertexIter;
 		}
 
-		friend class DependencyGraph<VertexT>;
+		friend class DependencyGraph<VertexT, EdgeT, GraphT>;
 
 		private: explicit const_iterator(const Graph & graph_, VertexIterator vertexIter_)
-			: graph(graph_)
+			: graph(&graph_)
 			, vertexIter(vertexIter_) {}
 
-		private: const Graph & graph;
+		private: const Graph * graph;
 		private: VertexIterator vertexIter;
 	};
 
-- 
2.43.0


From e1c4255a93c873f8ba15c0f6a2a8ebabd6008f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 014/122] fix: ObjectTrieNode::begin and end delimit all the
 children

---
 src/main/cpp/Balau/Container/ObjectTrie.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Container/ObjectTrie.hpp b/src/main/cpp/Balau/Container/ObjectTrie.hpp
index bebd49f..e26f713 100644
--- a/src/main/cpp/Balau/Container/ObjectTrie.hpp
+++ b/src/main/cpp/Balau/Container/ObjectTrie.hpp
@@ -753,28 +753,28 @@ template <typename T> class ObjectTrieNode {
 	/// Get a depth iterator positioned at the beginning of the trie.
 	///
 	public: ObjectTrieNode<T> * begin() {
-		return &children[0];
+		return children.data();
 	}
 
 	///
 	/// Get a const depth iterator positioned at the beginning of the trie.
 	///
 	public: const ObjectTrieNode<T> * begin() const {
-		return &children[0];
+		return children.data();
 	}
 
 	///
 	/// Get an iterator positioned at the end of the vector of children.
 	///
 	public: ObjectTrieNode<T> * end() {
-		return &children.back();
+		return children.data() + children.size();
 	}
 
 	///
 	/// Get a const iterator positioned at the end of the vector of children.
 	///
 	public: const ObjectTrieNode<T> * end() const {
-		return &children.back();
+		return children.data() + children.size();
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0


From 227194b32fac053365a08bcc32e74bd59e90122b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 015/122] fix: ObjectTrie::ConstDepthIterator::getAncestors can
 be instantiated

---
 src/main/cpp/Balau/Container/ObjectTrie.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Container/ObjectTrie.hpp b/src/main/cpp/Balau/Container/ObjectTrie.hpp
index e26f713..9503226 100644
--- a/src/main/cpp/Balau/Container/ObjectTrie.hpp
+++ b/src/main/cpp/Balau/Container/ObjectTrie.hpp
@@ -1111,7 +1111,7 @@ template <typename T> class ObjectTrie {
 		///
 		/// @return a const pointer vector to the node's ancestors and the current node
 		///
-		public: void getAncestors(std::vector<ObjectTrieNode<T> * const> & output) const {
+		public: void getAncestors(std::vector<const ObjectTrieNode<T> *> & output) const {
 			output.clear();
 
 			for (const auto & iteratorNode : nodeStack) {
-- 
2.43.0


From d419bf44540768dfe795c156de6f55f8aaf93cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 016/122] fix: ObjectTrie::cascade applies the copy or move
 function to all the values

---
 src/main/cpp/Balau/Container/ObjectTrie.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Container/ObjectTrie.hpp b/src/main/cpp/Balau/Container/ObjectTrie.hpp
index 9503226..85d6ee6 100644
--- a/src/main/cpp/Balau/Container/ObjectTrie.hpp
+++ b/src/main/cpp/Balau/Container/ObjectTrie.hpp
@@ -813,16 +813,16 @@ template <typename T> class ObjectTrieNode {
 	}
 
 	// Used in the public cascade copy method.
-	private: void cascadeChildren(const ObjectTrieNode<T> & toCascade) {
+	private: template <typename U> void cascadeChildren(const ObjectTrieNode<T> & toCascade, U copyFunction) {
 		for (size_t m = 0; m < toCascade.children.size(); m++) {
 			const ObjectTrieNode<T> & childToCascade = toCascade.children[m];
 			ObjectTrieNode<T> * selfChild = find(childToCascade.value);
 
 			if (selfChild) {
-				selfChild->value = childToCascade.value;
-				selfChild->cascadeChildren(childToCascade);
+				selfChild->value = copyFunction(childToCascade.value);
+				selfChild->cascadeChildren(childToCascade, copyFunction);
 			} else {
-				addAndReturnChild(childToCascade.value).cascadeChildren(childToCascade);
+				addAndReturnChild(copyFunction(childToCascade.value)).cascadeChildren(childToCascade, copyFunction);
 			}
 		}
 	}
@@ -835,9 +835,9 @@ template <typename T> class ObjectTrieNode {
 
 			if (selfChild) {
 				selfChild->value = moveFunction(childToCascade.value);
-				selfChild->cascadeChildren(childToCascade);
+				selfChild->cascadeChildren(childToCascade, moveFunction);
 			} else {
-				addAndReturnChild(moveFunction(childToCascade.value)).cascadeChildren(childToCascade);
+				addAndReturnChild(moveFunction(childToCascade.value)).cascadeChildren(childToCascade, moveFunction);
 			}
 		}
 	}
@@ -2298,7 +2298,7 @@ template <typename T> class ObjectTrie {
 		}
 
 		trieRoot.value = copyFunction(toCascade.trieRoot.value);
-		trieRoot.cascadeChildren(toCascade.trieRoot);
+		trieRoot.cascadeChildren(toCascade.trieRoot, copyFunction);
 	}
 
 	///
-- 
2.43.0


From 066b45b62107f204ed37479eabcdde3ab81f9a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 017/122] fix: ObjectTrie can be copy assigned

---
 src/main/cpp/Balau/Container/ObjectTrie.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Container/ObjectTrie.hpp b/src/main/cpp/Balau/Container/ObjectTrie.hpp
index 85d6ee6..a0e8fea 100644
--- a/src/main/cpp/Balau/Container/ObjectTrie.hpp
+++ b/src/main/cpp/Balau/Container/ObjectTrie.hpp
@@ -799,7 +799,8 @@ template <typename T> class ObjectTrieNode {
 	private: explicit ObjectTrieNode(T && value_)
 		: value(std::move(value_)) {}
 
-	private: ObjectTrieNode<T> & operator = (const ObjectTrieNode<T> & copy) {
+	// Required public for std::vector
+	public: ObjectTrieNode<T> & operator = (const ObjectTrieNode<T> & copy) {
 		value = copy.value;
 		children = copy.children;
 		return *this;
-- 
2.43.0


From 5c266cec326c1f30f3dd49ec9d0a071190ea8495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 018/122] fix: a new ThreadLocalInstance does not see objects
 of a destroyed one

---
 .../Balau/Concurrent/ThreadLocalInstance.hpp  | 49 ++++++++++++++-----
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp b/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
index 4775768..e488819 100644
--- a/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
+++ b/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
@@ -26,12 +26,33 @@
 #ifndef COM_BORA_SOFTWARE__BALAU_CONCURRENT__THREAD_LOCAL_INSTANCE
 #define COM_BORA_SOFTWARE__BALAU_CONCURRENT__THREAD_LOCAL_INSTANCE
 
+#include <atomic>
 #include <functional>
+#include <memory>
 
 #include <boost/thread/tss.hpp>
 
 namespace Balau::Concurrent {
 
+namespace Impl {
+
+//
+// The Boost thread specific pointers are identified by their addresses. The id identifies
+// the owner of the object, as an object left behind by a destroyed thread local instance
+// could otherwise be found by a new thread local instance with the same address.
+//
+template <typename T> struct ThreadLocalInstanceHolder {
+	unsigned long long id;
+	std::unique_ptr<T> object;
+};
+
+inline unsigned long long nextThreadLocalInstanceId() {
+	static std::atomic<unsigned long long> counter { 0 };
+	return ++counter;
+}
+
+} // namespace Impl
+
 ///
 /// A thread local instance that can be used as a class member instance variable.
 ///
@@ -43,27 +64,30 @@ class ThreadLocalInstance<T, typename std::enable_if<std::is_default_constructib
 	/// Get the thread local instance, instantiating it with the default constructor if necessary.
 	///
 	public: T & operator () () {
-		if (!instance.get()) {
-			instance.reset(new T);
+		if (!instance.get() || instance->id != id) {
+			instance.reset(new Holder { id, std::unique_ptr<T>(new T) });
 		}
 
-		return *instance.get();
+		return *instance->object;
 	}
 
 	///
 	/// Get the thread local instance, instantiating it with the supplied function if necessary.
 	///
 	public: T & operator () (std::function<T * ()> instantiate) {
-		if (!instance.get()) {
-			instance.reset(instantiate());
+		if (!instance.get() || instance->id != id) {
+			instance.reset(new Holder { id, std::unique_ptr<T>(instantiate()) });
 		}
 
-		return *instance.get();
+		return *instance->object;
 	}
 
 	///////////////////////// Private implementation //////////////////////////
 
-	private: boost::thread_specific_ptr<T> instance;
+	private: using Holder = Impl::ThreadLocalInstanceHolder<T>;
+
+	private: const unsigned long long id = Impl::nextThreadLocalInstanceId();
+	private: boost::thread_specific_ptr<Holder> instance;
 };
 
 template <typename T>
@@ -72,16 +96,19 @@ class ThreadLocalInstance<T, typename std::enable_if<!std::is_default_constructi
 	/// Get the thread local instance, instantiating it with the supplied function if necessary.
 	///
 	public: T & operator () (std::function<T * ()> instantiate) {
-		if (!instance.get()) {
-			instance.reset(instantiate());
+		if (!instance.get() || instance->id != id) {
+			instance.reset(new Holder { id, std::unique_ptr<T>(instantiate()) });
 		}
 
-		return *instance.get();
+		return *instance->object;
 	}
 
 	///////////////////////// Private implementation //////////////////////////
 
-	private: boost::thread_specific_ptr<T> instance;
+	private: using Holder = Impl::ThreadLocalInstanceHolder<T>;
+
+	private: const unsigned long long id = Impl::nextThreadLocalInstanceId();
+	private: boost::thread_specific_ptr<Holder> instance;
 };
 
 } // namespace Balau::Concurrent
-- 
2.43.0


From 613e43d5836952df4ed1cc585b391b02aaad1c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 019/122] fix: MovableOnScopeExit can be instantiated

---
 src/main/cpp/Balau/Type/MovableOnScopeExit.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp b/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
index a7d8f85..5bed010 100644
--- a/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
+++ b/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
@@ -48,7 +48,7 @@ class MovableOnScopeExit final {
 	/// Run the function on scope exit.
 	///
 	public: template <typename FunctionT> explicit MovableOnScopeExit(FunctionT function)
-		: exiter(new ContainerImpl<FunctionT>(function)) {}
+		: exiter(new ContainerImpl(function)) {}
 
 	///
 	/// Move the scope exit running to a different instance.
@@ -82,8 +82,8 @@ class MovableOnScopeExit final {
 		public: virtual void executeNow() = 0;
 	};
 
-	private: template <typename FunctionT> struct ContainerImpl : public ContainerBase {
-		explicit ContainerImpl(FunctionT function_) : function(function_) {}
+	private: struct ContainerImpl : public ContainerBase {
+		explicit ContainerImpl(std::function<void ()> function_) : function(std::move(function_)) {}
 
 		~ContainerImpl() override {
 			function();
@@ -96,13 +96,17 @@ class MovableOnScopeExit final {
 			function = [] () {};
 		}
 
+		public: void reset(std::function<void ()> function_) override {
+			function = std::move(function_);
+		}
+
 		public: void executeNow() override {
 			function();
 			clear();
 		}
 
 		friend class MovableOnScopeExit;
-		private: FunctionT function;
+		private: std::function<void ()> function;
 	};
 
 	private: std::unique_ptr<ContainerBase> exiter;
-- 
2.43.0


From 49a674bce1c6ab4a36d09fdd0ecefce6039e45b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 020/122] fix: Injector const promotion searches the whole
 injector hierarchy

A request for a const reference or a const shared pointer only tried the
non-const binding of the root injector, and the default value variants of
the const requests did not compile.
---
 src/main/cpp/Balau/Application/Injector.hpp | 148 +++++++++++++-------
 1 file changed, 94 insertions(+), 54 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 65f02a7..332c850 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1022,7 +1022,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1055,7 +1055,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1088,7 +1088,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<BaseT>(name);
 		}
 
-		std::shared_ptr<BaseT> get(std::string_view name, std::shared_ptr<BaseT> & defaultValue) const {
+		std::shared_ptr<BaseT> get(std::string_view name, const std::shared_ptr<BaseT> & defaultValue) const {
 			return injector->getSharedImpl<BaseT>(name, defaultValue);
 		}
 
@@ -1121,7 +1121,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<BaseT>(name);
 		}
 
-		std::shared_ptr<BaseT> get(std::string_view name, std::shared_ptr<BaseT> & defaultValue) const {
+		std::shared_ptr<BaseT> get(std::string_view name, const std::shared_ptr<BaseT> & defaultValue) const {
 			return injector->getSharedImpl<BaseT>(name, defaultValue);
 		}
 
@@ -1154,7 +1154,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1187,7 +1187,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1255,19 +1255,31 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		}
 	}
 
+	// Find the binding in this injector or in its nearest ancestor that has one.
+	private: std::pair<const Injector *, const std::unique_ptr<Impl::AbstractBinding> *>
+	findBinding(const Impl::BindingKeyView & keyView) const {
+		for (const Injector * injector = this; injector != nullptr; injector = injector->parent.get()) {
+			const auto * binding = injector->bindings->find(keyView);
+
+			if (binding != nullptr) {
+				return { injector, binding };
+			}
+		}
+
+		return { nullptr, nullptr };
+	}
+
 	private: template <typename T>
 	T & getReferenceImpl(std::string_view name) const {
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>), name);
 
-		const auto * binding = bindings->find(keyView);
+		const auto [owner, binding] = findBinding(keyView);
 
 		if (binding != nullptr) {
-			return getReferenceInstance<T>(*binding);
-		} else if (parent) {
-			return parent->getReferenceImpl<T>(name);
+			return owner->getReferenceInstance<T>(*binding);
 		} else {
 			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>::isConst) {
+			if constexpr (std::is_const<T>::value) {
 				return getReferenceImpl<typename std::remove_const<T>::type>(name);
 			} else {
 				ThrowBalauException(Exception::NoBindingException, keyView.toKey());
@@ -1279,20 +1291,24 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	T & getReferenceImpl(std::string_view name, T & defaultValue) const {
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>), name);
 
-		const auto * binding = bindings->find(keyView);
+		const auto [owner, binding] = findBinding(keyView);
 
 		if (binding != nullptr) {
-			return getReferenceInstance<T>(*binding);
-		} else if (parent) {
-			return parent->getReferenceImpl<T>(name, defaultValue);
-		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>::isConst) {
-				return getReferenceImpl<typename std::remove_const<T>::type>(name, defaultValue);
-			} else {
-				return defaultValue;
+			return owner->getReferenceInstance<T>(*binding);
+		}
+
+		// Try a non-const binding?
+		if constexpr (std::is_const<T>::value) {
+			using U = typename std::remove_const<T>::type;
+			const Impl::BindingKeyView promotedKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Reference, U>), name);
+			const auto [promotedOwner, promotedBinding] = findBinding(promotedKeyView);
+
+			if (promotedBinding != nullptr) {
+				return promotedOwner->getReferenceInstance<U>(*promotedBinding);
 			}
 		}
+
+		return defaultValue;
 	}
 
 	private: template <typename BaseT, typename DeleterT>
@@ -1345,23 +1361,27 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		const auto typeIndex = std::type_index(typeid(BaseT));
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>), name);
 
-		const auto * binding = bindings->find(keyView);
+		const auto * localBinding = bindings->find(keyView);
 
-		if (binding != nullptr) {
-			return getSharedInstance<BaseT>(*binding);
+		if (localBinding != nullptr) {
+			return getSharedInstance<BaseT>(*localBinding);
 		} else if (typeIndex == std::type_index(typeid(Injector))) {
 			// If we are here, then BaseT == Injector and the cast disappears.
 			auto ptr = std::const_pointer_cast<Injector>(shared_from_this());
 			return std::reinterpret_pointer_cast<BaseT>(ptr);
-		} else if (parent) {
-			return parent->getSharedImpl<BaseT>(name);
+		}
+
+		const auto [owner, binding] = findBinding(keyView);
+
+		if (binding != nullptr) {
+			return owner->getSharedInstance<BaseT>(*binding);
+		}
+
+		// Try a non-const binding?
+		if constexpr (std::is_const<BaseT>::value) {
+			return getSharedImpl<typename std::remove_const<BaseT>::type>(name);
 		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst) {
-				return getSharedImpl<typename std::remove_const<BaseT>::type>(name);
-			} else {
-				ThrowBalauException(Exception::NoBindingException, keyView.toKey());
-			}
+			ThrowBalauException(Exception::NoBindingException, keyView.toKey());
 		}
 	}
 
@@ -1370,24 +1390,34 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		const auto typeIndex = std::type_index(typeid(BaseT));
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>), name);
 
-		const auto * binding = bindings->find(keyView);
+		const auto * localBinding = bindings->find(keyView);
 
-		if (binding != nullptr) {
-			return getSharedInstance<BaseT>(*binding);
+		if (localBinding != nullptr) {
+			return getSharedInstance<BaseT>(*localBinding);
 		} else if (typeIndex == std::type_index(typeid(Injector))) {
 			// If we are here, then BaseT == Injector and the cast disappears.
 			auto ptr = std::const_pointer_cast<Injector>(shared_from_this());
 			return std::reinterpret_pointer_cast<BaseT>(ptr);
-		} else if (parent) {
-			return parent->getSharedImpl<BaseT>(name, defaultValue);
-		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst) {
-				return getSharedImpl<typename std::remove_const<BaseT>::type>(name, defaultValue);
-			} else {
-				return defaultValue;
+		}
+
+		const auto [owner, binding] = findBinding(keyView);
+
+		if (binding != nullptr) {
+			return owner->getSharedInstance<BaseT>(*binding);
+		}
+
+		// Try a non-const binding?
+		if constexpr (std::is_const<BaseT>::value) {
+			using U = typename std::remove_const<BaseT>::type;
+			const Impl::BindingKeyView promotedKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Shared, U>), name);
+			const auto [promotedOwner, promotedBinding] = findBinding(promotedKeyView);
+
+			if (promotedBinding != nullptr) {
+				return promotedOwner->getSharedInstance<U>(*promotedBinding);
 			}
 		}
+
+		return defaultValue;
 	}
 
 	private: template <typename BaseT>
@@ -1395,24 +1425,34 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		const auto typeIndex = std::type_index(typeid(BaseT));
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>), name);
 
-		const auto * binding = bindings->find(keyView);
+		const auto * localBinding = bindings->find(keyView);
 
-		if (binding != nullptr) {
-			return getSharedInstance<BaseT>(*binding);
+		if (localBinding != nullptr) {
+			return getSharedInstance<BaseT>(*localBinding);
 		} else if (typeIndex == std::type_index(typeid(Injector))) {
 			// If we are here, then BaseT == Injector and the cast disappears.
 			auto ptr = std::const_pointer_cast<Injector>(shared_from_this());
 			return std::reinterpret_pointer_cast<BaseT>(ptr);
-		} else if (parent) {
-			return parent->getSharedImpl<BaseT>(name, defaultValueSupplier);
-		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst) {
-				return getSharedImpl<typename std::remove_const<BaseT>::type>(name, defaultValueSupplier);
-			} else {
-				return defaultValueSupplier();
+		}
+
+		const auto [owner, binding] = findBinding(keyView);
+
+		if (binding != nullptr) {
+			return owner->getSharedInstance<BaseT>(*binding);
+		}
+
+		// Try a non-const binding?
+		if constexpr (std::is_const<BaseT>::value) {
+			using U = typename std::remove_const<BaseT>::type;
+			const Impl::BindingKeyView promotedKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Shared, U>), name);
+			const auto [promotedOwner, promotedBinding] = findBinding(promotedKeyView);
+
+			if (promotedBinding != nullptr) {
+				return promotedOwner->getSharedInstance<U>(*promotedBinding);
 			}
 		}
+
+		return defaultValueSupplier();
 	}
 
 	private: template <typename BaseT>
-- 
2.43.0


From 70d3e5412ae369019eac9f8b553c10135ea9ad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 021/122] fix: Injector unique pointer get-instance methods
 with default values

The variants of getUnique that take a default value or a default value
supplier, and getUniqueOrNull, did not compile.
---
 src/main/cpp/Balau/Application/Injector.hpp | 26 ++++++++++-----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 332c850..9c6b544 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -450,7 +450,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @return a unique pointer containing the new instance or the supplied default
 	///
 	public: template <typename BaseT, typename DeleterT = std::default_delete<BaseT>>
-	std::unique_ptr<BaseT, DeleterT> getUnique(std::unique_ptr<BaseT> && defaultValue) const {
+	std::unique_ptr<BaseT, DeleterT> getUnique(std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
 		return GetInstance<std::unique_ptr<BaseT, DeleterT>>(this).get("", std::move(defaultValue));
 	}
 
@@ -483,7 +483,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @return a unique pointer containing the new instance or the supplied default
 	///
 	public: template <typename BaseT, typename DeleterT = std::default_delete<BaseT>>
-	std::unique_ptr<BaseT, DeleterT> getUnique(std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
+	std::unique_ptr<BaseT, DeleterT> getUnique(const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
 		return GetInstance<std::unique_ptr<BaseT, DeleterT>>(this).get("", defaultValueSupplier);
 	}
 
@@ -500,7 +500,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @return a unique pointer containing the new instance or the supplied default
 	///
 	public: template <typename BaseT, typename DeleterT = std::default_delete<BaseT>>
-	std::unique_ptr<BaseT, DeleterT> getUnique(std::string_view name, std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
+	std::unique_ptr<BaseT, DeleterT> getUnique(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
 		return GetInstance<std::unique_ptr<BaseT, DeleterT>>(this).get(name, defaultValueSupplier);
 	}
 
@@ -767,8 +767,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
+			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
@@ -800,8 +800,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
+			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
@@ -833,8 +833,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
+			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
@@ -866,8 +866,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
+			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
@@ -1327,7 +1327,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	}
 
 	private: template <typename BaseT, typename DeleterT>
-	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, std::unique_ptr<BaseT> && defaultValue) const {
+	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
 
 		const auto * binding = bindings->find(keyView);
@@ -1342,7 +1342,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	}
 
 	private: template <typename BaseT, typename DeleterT>
-	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, std::function<std::unique_ptr<BaseT> ()> & defaultValueSupplier) const {
+	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
 
 		const auto * binding = bindings->find(keyView);
-- 
2.43.0


From 820d480a7fd9a967636bb1399c980a8a5338b386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 022/122] fix: Injector requests for unique pointers to const
 are provided by the non-const unique bindings

The deleter of the requested type was used in the binding key, thus the
documented promotion never found a binding.
---
 .../cpp/Balau/Application/Impl/BindingKey.hpp | 14 ++++-
 src/main/cpp/Balau/Application/Injector.hpp   | 60 ++++++++++++++-----
 2 files changed, 56 insertions(+), 18 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
index 75c5ea2..268e442 100644
--- a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
+++ b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
@@ -87,6 +87,16 @@ inline std::string toString(const BindingMetaType metaType) {
 // Dummy type that is used for non-unique binding key types.
 struct NoDeleter {};
 
+// Unique pointers to const are provided by the bindings of unique pointers
+// to non-const, thus the default deleter of the latter is used in the key.
+template <typename DeleterT> struct NonConstDeleter {
+	using type = DeleterT;
+};
+
+template <typename T> struct NonConstDeleter<std::default_delete<const T>> {
+	using type = std::default_delete<T>;
+};
+
 //
 // Instantiations of this template class are used in the binding key in order
 // to encapsulate the const qualifier and the meta-type information inside a
@@ -296,14 +306,14 @@ template <typename T, typename DeleterT> struct CreateBindingKey<const std::uniq
 // Create a "Unique" binding key.
 template <typename T, typename DeleterT> struct CreateBindingKey<std::unique_ptr<const T, DeleterT>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, DeleterT>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, typename NonConstDeleter<DeleterT>::type>), std::move(name));
 	}
 };
 
 // Create a "Unique" binding key.
 template <typename T, typename DeleterT> struct CreateBindingKey<const std::unique_ptr<const T, DeleterT>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, DeleterT>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, typename NonConstDeleter<DeleterT>::type>), std::move(name));
 	}
 };
 
diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 9c6b544..0290bf1 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -829,16 +829,30 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	// This immediately promotes to std::unique_ptr<T>.
 	//
 	private: template <typename BaseT, typename DeleterT> struct GetInstance<std::unique_ptr<const BaseT, DeleterT>> {
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name);
+		using PromotedDeleterT = typename Impl::NonConstDeleter<DeleterT>::type;
+
+		std::unique_ptr<const BaseT, DeleterT> get(std::string_view name) const {
+			return injector->getUniqueImpl<BaseT, PromotedDeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
+		std::unique_ptr<const BaseT, DeleterT> get(std::string_view name, std::unique_ptr<const BaseT, DeleterT> && defaultValue) const {
+			const auto [owner, binding] = injector->findBinding(createBindingKeyView(name));
+
+			if (binding != nullptr) {
+				return owner->template createUniqueInstance<BaseT, PromotedDeleterT>(*binding);
+			}
+
+			return std::move(defaultValue);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValueSupplier);
+		std::unique_ptr<const BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<const BaseT, DeleterT> ()> & defaultValueSupplier) const {
+			const auto [owner, binding] = injector->findBinding(createBindingKeyView(name));
+
+			if (binding != nullptr) {
+				return owner->template createUniqueInstance<BaseT, PromotedDeleterT>(*binding);
+			}
+
+			return defaultValueSupplier();
 		}
 
 		bool hasBinding(std::string_view name) const {
@@ -846,11 +860,11 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		}
 
 		static Impl::BindingKey createBindingKey(std::string name) {
-			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), std::move(name));
+			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, PromotedDeleterT>), std::move(name));
 		}
 
 		static Impl::BindingKeyView createBindingKeyView(std::string_view name) {
-			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
+			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, PromotedDeleterT>), name);
 		}
 
 		explicit GetInstance(const Injector * injector_) : injector(injector_) {}
@@ -862,16 +876,30 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	// This immediately promotes to std::unique_ptr<T>.
 	//
 	private: template <typename BaseT, typename DeleterT> struct GetInstance<const std::unique_ptr<const BaseT, DeleterT>> {
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name);
+		using PromotedDeleterT = typename Impl::NonConstDeleter<DeleterT>::type;
+
+		std::unique_ptr<const BaseT, DeleterT> get(std::string_view name) const {
+			return injector->getUniqueImpl<BaseT, PromotedDeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
+		std::unique_ptr<const BaseT, DeleterT> get(std::string_view name, std::unique_ptr<const BaseT, DeleterT> && defaultValue) const {
+			const auto [owner, binding] = injector->findBinding(createBindingKeyView(name));
+
+			if (binding != nullptr) {
+				return owner->template createUniqueInstance<BaseT, PromotedDeleterT>(*binding);
+			}
+
+			return std::move(defaultValue);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValueSupplier);
+		std::unique_ptr<const BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<const BaseT, DeleterT> ()> & defaultValueSupplier) const {
+			const auto [owner, binding] = injector->findBinding(createBindingKeyView(name));
+
+			if (binding != nullptr) {
+				return owner->template createUniqueInstance<BaseT, PromotedDeleterT>(*binding);
+			}
+
+			return defaultValueSupplier();
 		}
 
 		bool hasBinding(std::string_view name) const {
@@ -879,11 +907,11 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		}
 
 		static Impl::BindingKey createBindingKey(std::string name) {
-			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), std::move(name));
+			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, PromotedDeleterT>), std::move(name));
 		}
 
 		static Impl::BindingKeyView createBindingKeyView(std::string_view name) {
-			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
+			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, PromotedDeleterT>), name);
 		}
 
 		explicit GetInstance(const Injector * injector_) : injector(injector_) {}
-- 
2.43.0


From 52fb279ab148d8109ebe20e9c39217df0eed3cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 023/122] fix: Injector validation accepts the dependencies
 that resolution can satisfy

Dependencies on weak pointers, dependencies on const references and const
shared pointers satisfied by a non-const binding, and dependencies of child
injector bindings satisfied by a binding of a parent injector were reported
as missing.
---
 .../cpp/Balau/Application/Impl/Binding.hpp    | 29 ++++++++++--
 .../cpp/Balau/Application/Impl/BindingKey.hpp | 44 ++++++++++++++++---
 src/main/cpp/Balau/Application/Injector.hpp   |  6 ++-
 3 files changed, 68 insertions(+), 11 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/Binding.hpp b/src/main/cpp/Balau/Application/Impl/Binding.hpp
index ff059d7..1b27f99 100644
--- a/src/main/cpp/Balau/Application/Impl/Binding.hpp
+++ b/src/main/cpp/Balau/Application/Impl/Binding.hpp
@@ -26,6 +26,8 @@
 #include <Balau/Concurrent/ThreadLocalInstance.hpp>
 #include <Balau/Exception/InjectorExceptions.hpp>
 
+#include <functional>
+
 // Avoid false positives.
 #pragma clang diagnostic push
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
@@ -70,7 +72,11 @@ class AbstractBinding {
 	//
 	// Also handled are the injector binding key special cases.
 	//
+	// Dependencies that are satisfied by the binding of a parent injector do not form
+	// edges, because the bindings of a parent cannot depend on the bindings of a child.
+	//
 	private: void registerDependencies(BindingGraph & bindingGraph,
+	                                   const std::function<bool (const BindingKey &)> & parentHasBinding,
 	                                   const BindingKey & weakInjectorKey,
 	                                   const BindingKey & constWeakInjectorKey,
 	                                   const BindingKey & sharedInjectorKey,
@@ -86,9 +92,26 @@ class AbstractBinding {
 				|| dependencyKey == sharedInjectorKey
 				|| dependencyKey == constSharedInjectorKey) {
 				continue; // Special case of injector being injected.
-			} else if (bindingGraph.hasDependency(dependencyKey)) {
-				bindingGraph.addRelationship(dependencyKey, thisKey);
-			} else {
+			}
+
+			// The key itself, followed by the promotions, each one checked over
+			// the whole hierarchy, in the same way as an instance request.
+			std::vector<BindingKey> candidateKeys = dependencyKey.getPromotions();
+			candidateKeys.insert(candidateKeys.begin(), dependencyKey);
+			bool satisfied = false;
+
+			for (const auto & candidateKey : candidateKeys) {
+				if (bindingGraph.hasDependency(candidateKey)) {
+					bindingGraph.addRelationship(candidateKey, thisKey);
+					satisfied = true;
+					break;
+				} else if (parentHasBinding(candidateKey)) {
+					satisfied = true;
+					break;
+				}
+			}
+
+			if (!satisfied) {
 				ThrowBalauException(Exception::MissingDependencyException, thisKey, dependencyKey);
 			}
 		}
diff --git a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
index 268e442..3c80515 100644
--- a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
+++ b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
@@ -27,6 +27,7 @@
 #include <string>
 #include <typeindex>
 #include <utility>
+#include <vector>
 
 namespace Balau::Impl {
 
@@ -226,6 +227,27 @@ class BindingKey final {
 		return name;
 	}
 
+	//
+	// The keys of the bindings that satisfy a dependency on this key when there
+	// is no binding with this key itself, in order of preference.
+	//
+	// The promotions do not form part of the identity of the key.
+	//
+	public: std::vector<BindingKey> getPromotions() const {
+		std::vector<BindingKey> keys;
+
+		for (const auto & promotion : promotions) {
+			keys.emplace_back(promotion, name);
+		}
+
+		return keys;
+	}
+
+	public: BindingKey withPromotions(std::vector<std::type_index> promotions_) && {
+		promotions = std::move(promotions_);
+		return std::move(*this);
+	}
+
 	public: size_t hashcode() const noexcept {
 		return std::hash<std::type_index>()(type) ^ (41 * std::hash<std::string>()(name));
 	}
@@ -241,6 +263,7 @@ class BindingKey final {
 
 	private: std::type_index type;
 	private: std::string name;
+	private: std::vector<std::type_index> promotions;
 
 	#ifdef BALAU_DEBUG
 	// Displays the demangled binding key type in the debugger.
@@ -327,7 +350,8 @@ template <typename T> struct CreateBindingKey<T &> {
 // Create a const "Reference" binding key.
 template <typename T> struct CreateBindingKey<const T &> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Reference, const T>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Reference, const T>), std::move(name))
+			.withPromotions({ typeid(BindingKeyType<Impl::BindingMetaType::Reference, T>) });
 	}
 };
 
@@ -348,42 +372,48 @@ template <typename T> struct CreateBindingKey<const std::shared_ptr<T>> {
 // Create a "Shared" const binding key.
 template <typename T> struct CreateBindingKey<std::shared_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), std::move(name))
+			.withPromotions({ typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) });
 	}
 };
 
 // Create a const "Shared" const binding key.
 template <typename T> struct CreateBindingKey<const std::shared_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), std::move(name))
+			.withPromotions({ typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) });
 	}
 };
 
 // Create a "Shared" weak binding key.
 template <typename T> struct CreateBindingKey<std::weak_ptr<T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>), std::move(name))
+			.withPromotions({ typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) });
 	}
 };
 
 // Create a const weak "Shared" binding key.
 template <typename T> struct CreateBindingKey<const std::weak_ptr<T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>), std::move(name))
+			.withPromotions({ typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) });
 	}
 };
 
 // Create a weak "Shared" const binding key.
 template <typename T> struct CreateBindingKey<std::weak_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>), std::move(name))
+			.withPromotions({ typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) });
 	}
 };
 
 // Create a const weak "Shared" const binding key.
 template <typename T> struct CreateBindingKey<const std::weak_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>), std::move(name))
+			.withPromotions({ typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) });
 	}
 };
 
diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 0290bf1..b5b4bd3 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1739,9 +1739,13 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		const Impl::BindingKey sharedKey(typeid(Impl::BindingKeyType<shared, Injector>), "");
 		const Impl::BindingKey constSharedKey(typeid(Impl::BindingKeyType<shared, const Injector>), "");
 
+		const auto parentHasBinding = [this] (const Impl::BindingKey & key) {
+			return parent && parent->hasBinding(Impl::BindingKeyView(key));
+		};
+
 		// Validate and create the edges of the dependency graph.
 		for (const auto & binding : (*bindings)) {
-			binding.value->registerDependencies(graph, weakKey, constWeakKey, sharedKey, constSharedKey);
+			binding.value->registerDependencies(graph, parentHasBinding, weakKey, constWeakKey, sharedKey, constSharedKey);
 		}
 
 		std::vector<std::pair<Impl::BindingKey, Impl::BindingKey>> cycleEdges;
-- 
2.43.0


From ccf8271378fbe363d857c36d71402bd892326bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:07 +0000
Subject: [PATCH 024/122] fix: Static singleton registration in application
 configurations

ApplicationConfiguration::registerStaticSingleton did not compile and its
registrations were dropped by the injector. Both registration methods kept
a view of the binding name.
---
 src/main/cpp/Balau/Application/ApplicationConfiguration.hpp | 6 +++++-
 src/main/cpp/Balau/Application/Injector.hpp                 | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
index ff5de47..54e4825 100644
--- a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
@@ -99,7 +99,11 @@ class ApplicationConfiguration : public InjectorConfiguration {
 	/// @param name an optional binding name
 	///
 	protected: template <typename T> void registerStaticSingleton(std::shared_ptr<T> * ptrPtr, std::string_view name = std::string_view()) const {
-		staticSingletonPostConstructionCalls.emplace_back(new StaticSingletonRegistration<T>(ptrPtr, name));
+		// The call is generic because the injector class is an incomplete type here.
+		postConstructionCalls.push_back(
+			[ptrPtr, name = std::string(name)] (const auto & injector) { *ptrPtr = injector.template getShared<T>(name); }
+		);
+
 		preDestructionCalls.push_back([ptrPtr] () { ptrPtr->reset(); });
 	}
 
diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index b5b4bd3..9394871 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -126,7 +126,10 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @param name an optional binding name
 	///
 	public: template <typename T> void registerStaticSingleton(std::shared_ptr<T> * ptrPtr, std::string_view name = std::string_view()) const {
-		registerPostConstructionCallImpl([ptrPtr, name] (const Injector & injector) { *ptrPtr  = injector.getShared<T>(name); });
+		registerPostConstructionCallImpl(
+			[ptrPtr, name = std::string(name)] (const Injector & injector) { *ptrPtr = injector.getShared<T>(name); }
+		);
+
 		registerPreDestructionCallImpl([ptrPtr] () { ptrPtr->reset(); });
 	}
 
-- 
2.43.0


From d218524257ef2ce347cf1aa6fdc9d0bcf6a0dcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:16 +0000
Subject: [PATCH 025/122] fix: Injector callbacks of configurations are
 registered in constructed lists

The callback lists were constructed after the bindings, thus the callbacks
registered by configurations were stored in lists that were not constructed.
---
 src/main/cpp/Balau/Application/Injector.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 9394871..85a3a74 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1810,14 +1810,15 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		return builder.str();
 	}
 
-	// Main injector state.
-	private: const std::shared_ptr<const Injector> parent;
-	private: const std::shared_ptr<const Impl::BindingMap> bindings;
-
 	// Data structures for callbacks.
+	// These must be constructed before the bindings, the creation of which registers the calls.
 	private: mutable std::list<std::function<void (const Injector& )>> postConstructionCalls;
 	private: mutable std::list<std::function<void ()>> preDestructionCalls;
 	private: mutable std::recursive_mutex callSync;
+
+	// Main injector state.
+	private: const std::shared_ptr<const Injector> parent;
+	private: const std::shared_ptr<const Impl::BindingMap> bindings;
 };
 
 } // namespace Balau
-- 
2.43.0


From 48077b0668a6c38b4c14a2930bcaedfd046d2b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 026/122] fix: Injector extra configurations of extra
 configurations are included

---
 src/main/cpp/Balau/Application/Injector.hpp | 28 ++++++++++++---------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 85a3a74..b88275d 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1641,11 +1641,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			, conf ...
 		);
 
-		for (const auto & c : extraConfiguration) {
-			Util::Containers::append(builders, c->execute());
-			Util::Containers::append(postConstructionCalls, c->getPostConstructionCalls());
-			Util::Containers::append(preDestructionCalls, c->getPreDestructionCalls());
-		}
+		appendExtraConfiguration(builders, std::move(extraConfiguration));
 
 		auto theBindings = std::make_shared<Impl::BindingMap>();
 
@@ -1665,20 +1661,16 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 
 	private: std::shared_ptr<Impl::BindingMap> createBindings(const std::vector<std::shared_ptr<InjectorConfiguration>> & conf) {
 		std::vector<std::shared_ptr<Impl::BindingBuilderBase>> builders;
+		std::vector<const InjectorConfiguration *> extraConfiguration;
 
 		for (const auto & c : conf) {
 			Util::Containers::append(builders, c->execute());
 			Util::Containers::append(postConstructionCalls, c->getPostConstructionCalls());
 			Util::Containers::append(preDestructionCalls, c->getPreDestructionCalls());
+			Util::Containers::append(extraConfiguration, c->getExtraConfiguration());
 		}
 
-		for (const auto & c : conf) {
-			for (const auto * c2 : c->getExtraConfiguration()) {
-				Util::Vectors::append(builders, c2->execute());
-				Util::Containers::append(postConstructionCalls, c2->getPostConstructionCalls());
-				Util::Containers::append(preDestructionCalls, c2->getPreDestructionCalls());
-			}
-		}
+		appendExtraConfiguration(builders, std::move(extraConfiguration));
 
 		auto theBindings = std::make_shared<Impl::BindingMap>();
 
@@ -1696,6 +1688,18 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		return theBindings;
 	}
 
+	// Extra configuration objects may also specify extra configuration.
+	private: void appendExtraConfiguration(std::vector<std::shared_ptr<Impl::BindingBuilderBase>> & builders,
+	                                       std::vector<const InjectorConfiguration *> && extraConfiguration) {
+		for (std::size_t m = 0; m < extraConfiguration.size(); ++m) {
+			const auto * c = extraConfiguration[m];
+			Util::Containers::append(builders, c->execute());
+			Util::Containers::append(postConstructionCalls, c->getPostConstructionCalls());
+			Util::Containers::append(preDestructionCalls, c->getPreDestructionCalls());
+			Util::Containers::append(extraConfiguration, c->getExtraConfiguration());
+		}
+	}
+
 	private: void registerPostConstructionCallImpl(const std::function<void (const Injector &)> & call) const {
 		std::lock_guard<std::recursive_mutex> lock(callSync);
 		postConstructionCalls.push_back(call);
-- 
2.43.0


From 77986ed89c2380966cf74c46c3d49456e4d998b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 027/122] fix: Application configurations can be used to create
 several injectors

The extra configurations and callbacks of the previous use were kept and
registered again.
---
 .../cpp/Balau/Application/ApplicationConfiguration.hpp   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
index 54e4825..e86e9b1 100644
--- a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
@@ -115,15 +115,18 @@ class ApplicationConfiguration : public InjectorConfiguration {
 	}
 
 	public: std::vector<const InjectorConfiguration *> getExtraConfiguration() const override {
-		return extraConfiguration;
+		// Move the vector, as for the builders, because configure is run again if the configuration is used again.
+		return std::move(extraConfiguration);
 	}
 
 	public: std::list<std::function<void (const Injector& )>> getPostConstructionCalls() const override {
-		return postConstructionCalls;
+		// Move the calls, as for the builders, because configure is run again if the configuration is used again.
+		return std::move(postConstructionCalls);
 	}
 
 	public: std::list<std::function<void ()>> getPreDestructionCalls() const override {
-		return preDestructionCalls;
+		// Move the calls, as for the builders, because configure is run again if the configuration is used again.
+		return std::move(preDestructionCalls);
 	}
 
 	public: std::list<std::unique_ptr<StaticSingletonRegistrationBase>> getStaticSingletonPostConstructionCalls() const override {
-- 
2.43.0


From 73c5edb460198bc064f43af746e53afa441a1ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 028/122] fix: Injection header macro for sixteen dependencies

Commas were missing between the constructor parameters.
---
 .../cpp/Balau/Application/Impl/InjectorHeaderMacros.hpp     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/InjectorHeaderMacros.hpp b/src/main/cpp/Balau/Application/Impl/InjectorHeaderMacros.hpp
index 45a2f03..d7e7348 100644
--- a/src/main/cpp/Balau/Application/Impl/InjectorHeaderMacros.hpp
+++ b/src/main/cpp/Balau/Application/Impl/InjectorHeaderMacros.hpp
@@ -182,9 +182,9 @@ class Injector;
 #define BALAU_InjectHeaderConstruct__17(TYPE, F0, F1, F2, F3, F4, F5, F6, F7, F8, F9, F10, F11, F12, F13, F14, F15) \
 	BALAU_InjectHeader(TYPE);                                                                       \
 	                                                                                                \
-	public: TYPE(BALAU_HIPF(F0),  BALAU_HIPF(F1),  BALAU_HIPF(F2),  BALAU_HIPF(F3)                  \
-	             BALAU_HIPF(F4),  BALAU_HIPF(F5),  BALAU_HIPF(F6),  BALAU_HIPF(F7)                  \
-	             BALAU_HIPF(F8),  BALAU_HIPF(F9),  BALAU_HIPF(F10), BALAU_HIPF(F11)                 \
+	public: TYPE(BALAU_HIPF(F0),  BALAU_HIPF(F1),  BALAU_HIPF(F2),  BALAU_HIPF(F3),                 \
+	             BALAU_HIPF(F4),  BALAU_HIPF(F5),  BALAU_HIPF(F6),  BALAU_HIPF(F7),                 \
+	             BALAU_HIPF(F8),  BALAU_HIPF(F9),  BALAU_HIPF(F10), BALAU_HIPF(F11),                \
 	             BALAU_HIPF(F12), BALAU_HIPF(F13), BALAU_HIPF(F14), BALAU_HIPF(F15))                \
 		: BALAU_HIMF(F0),  BALAU_HIMF(F1),  BALAU_HIMF(F2),  BALAU_HIMF(F3)                         \
 		, BALAU_HIMF(F4),  BALAU_HIMF(F5),  BALAU_HIMF(F6),  BALAU_HIMF(F7)                         \
-- 
2.43.0


From 5add4e0d7a3e0b98fda0adbd0a3bfb523775c180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:17 +0000
Subject: [PATCH 029/122] fix: Inject construct macros for sixteen dependencies

---
 src/main/cpp/Balau/Application/Impl/InjectorMacros.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/InjectorMacros.hpp b/src/main/cpp/Balau/Application/Impl/InjectorMacros.hpp
index 36695e0..2d19b50 100644
--- a/src/main/cpp/Balau/Application/Impl/InjectorMacros.hpp
+++ b/src/main/cpp/Balau/Application/Impl/InjectorMacros.hpp
@@ -546,9 +546,9 @@
 #define BALAU_InjectConstructNamed_33(TYPE, F0, N0, F1, N1, F2, N2, F3, N3, F4, N4, F5, N5, F6, N6, F7, N7, F8, N8, F9, N9, F10, N10, F11, N11, F12, N12, F13, N13, F14, N14, F15, N15) \
 	BALAU_InjectNamed_33(TYPE, F0, N0, F1, N1, F2, N2, F3, N3, F4, N4, F5, N5, F6, N6, F7, N7, F8, N8, F9, N9, F10, N10, F11, N11, F12, N12, F13, N13, F14, N14, F15, N15) \
 	                                                                                                \
-	public: TYPE(BALAU_IPF(F0),  BALAU_IPF(F1),  BALAU_IPF(F2),  BALAU_IPF(F3)                      \
-	             BALAU_IPF(F4),  BALAU_IPF(F5),  BALAU_IPF(F6),  BALAU_IPF(F7)                      \
-	             BALAU_IPF(F8),  BALAU_IPF(F9),  BALAU_IPF(F10), BALAU_IPF(F11)                     \
+	public: TYPE(BALAU_IPF(F0),  BALAU_IPF(F1),  BALAU_IPF(F2),  BALAU_IPF(F3),                     \
+	             BALAU_IPF(F4),  BALAU_IPF(F5),  BALAU_IPF(F6),  BALAU_IPF(F7),                     \
+	             BALAU_IPF(F8),  BALAU_IPF(F9),  BALAU_IPF(F10), BALAU_IPF(F11),                    \
 	             BALAU_IPF(F12), BALAU_IPF(F13), BALAU_IPF(F14), BALAU_IPF(F15))                    \
 		: BALAU_IMF(F0),  BALAU_IMF(F1),  BALAU_IMF(F2),  BALAU_IMF(F3)                             \
 		, BALAU_IMF(F4),  BALAU_IMF(F5),  BALAU_IMF(F6),  BALAU_IMF(F7)                             \
-- 
2.43.0


From e90c0585ca0a439a0c01f6c8012df405267c1d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 030/122] fix: Views onto short scanned texts stay valid when
 the text is moved

---
 src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
index 1ad720e..321c271 100644
--- a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
+++ b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
@@ -85,13 +85,17 @@ template <typename TokenT> class AbstractScanner {
 		: currentChar(0)
 		, uri(std::move(uri_))
 		, text(::toString(uri->byteReadResource()->readStream()))
-		, currentEndOffset(0) {}
+		, currentEndOffset(0) {
+		ensureStableText();
+	}
 
 	protected: AbstractScanner(std::shared_ptr<Resource::Uri> uri_, std::istream & inputStream_)
 		: currentChar(0)
 		, uri(std::move(uri_))
 		, text(::toString(inputStream_))
-		, currentEndOffset(0) {}
+		, currentEndOffset(0) {
+		ensureStableText();
+	}
 
 	protected: void readNextChar() {
 		if (currentEndOffset == (int) text.length()) {
@@ -250,6 +254,12 @@ template <typename TokenT> class AbstractScanner {
 		);
 	}
 
+	// The token texts are views onto the text, and the text is moved with them. The text
+	// must thus not be stored inside the string object (short string optimisation).
+	private: void ensureStableText() {
+		text.reserve(sizeof(std::string));
+	}
+
 	//
 	// This method is implemented by derived classes and contains the actual scanning logic.
 	//
-- 
2.43.0


From 787f3c79aa28f2ab4193de726ee26d5a6646df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 031/122] fix: Scanners report invalid UTF-8 text

---
 src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
index 321c271..1f850a8 100644
--- a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
+++ b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
@@ -101,9 +101,9 @@ template <typename TokenT> class AbstractScanner {
 		if (currentEndOffset == (int) text.length()) {
 			currentChar = std::char_traits<char32_t>::eof();
 		} else {
-			currentChar = Character::getNextUtf8(text, currentEndOffset);
+			currentChar = Character::getNextUtf8Safe(text, currentEndOffset);
 
-			if (currentChar < 0) {
+			if ((std::int32_t) currentChar < 0) {
 				ThrowBalauException(
 					  Exception::SyntaxErrorException
 					, "Invalid UTF-8 text found during parsing of string literal", calculateCurrentCodeSpan()
@@ -122,9 +122,9 @@ template <typename TokenT> class AbstractScanner {
 		if (currentEndOffset == (int) text.length()) {
 			currentChar = std::char_traits<char32_t>::eof();
 		} else {
-			currentChar = Character::getNextUtf8(text, currentEndOffset);
+			currentChar = Character::getNextUtf8Safe(text, currentEndOffset);
 
-			if (currentChar < 0) {
+			if ((std::int32_t) currentChar < 0) {
 				container.push_back(errorReport(calculateCurrentCodeSpan()));
 				return false;
 			}
@@ -249,6 +249,10 @@ template <typename TokenT> class AbstractScanner {
 	}
 
 	protected: CodeSpan calculateCurrentCodeSpan() {
+		if (tokens.empty()) {
+			return CodeSpan(1, 1, 1, 1);
+		}
+
 		return RandomAccessScannedTokens<TokenT>::determineCodeSpan(
 			text, tokens, startOffsets, (unsigned int) tokens.size() - 1
 		);
-- 
2.43.0


From 7faab871c829b5caebe118af063495d06968f318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 032/122] fix: Property parser accepts exclamation mark
 comments

---
 src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
index b71fab4..ceaab66 100644
--- a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
@@ -388,7 +388,7 @@ class PropertyParser {
 	}
 
 	private: std::unique_ptr<AST::PropertyNode> produceComment() {
-		scannedTokens.expect(PropertyToken::Hash, "Bug? Expected hash token to begin comment production.");
+		scannedTokens.consume(); // '#' or '!'
 		ScannedToken token = scannedTokens.get();
 		CodeSpan startCodeSpan = token.codeSpan;
 		std::string_view text = token.text;
-- 
2.43.0


From 1722af019532e7e7b9a35da6f91fdf8e1c296929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 033/122] fix: Property parser empty comments do not contain
 the line break

---
 src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
index ceaab66..9960156 100644
--- a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
@@ -371,7 +371,7 @@ class PropertyParser {
 		scannedTokens.expect(PropertyToken::Arobase, "Bug? Expected arobase token to begin comment production.");
 		ScannedToken token = scannedTokens.get();
 		CodeSpan startCodeSpan = token.codeSpan;
-		std::string_view text = token.text;
+		std::string_view text = token.text.substr(0, 0);
 
 		while (token.token != PropertyToken::LineBreak && token.token != PropertyToken::EndOfFile) {
 			text = extend(text, token.text);
@@ -391,7 +391,7 @@ class PropertyParser {
 		scannedTokens.consume(); // '#' or '!'
 		ScannedToken token = scannedTokens.get();
 		CodeSpan startCodeSpan = token.codeSpan;
-		std::string_view text = token.text;
+		std::string_view text = token.text.substr(0, 0);
 
 		while (token.token != PropertyToken::LineBreak && token.token != PropertyToken::EndOfFile) {
 			text = extend(text, token.text);
-- 
2.43.0


From 3a949557f881ed50b5302dd09bf254b781935b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 034/122] fix: Property parser comments and include directives
 end at the end of the line

---
 .../Balau/Lang/Property/Parser/PropertyParser.hpp    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
index 9960156..e7c6c83 100644
--- a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
@@ -374,6 +374,12 @@ class PropertyParser {
 		std::string_view text = token.text.substr(0, 0);
 
 		while (token.token != PropertyToken::LineBreak && token.token != PropertyToken::EndOfFile) {
+			if (token.token == PropertyToken::EscapedLineBreak) {
+				// There is no line continuation here, thus only the backslash is part of the text.
+				text = extend(text, token.text.substr(0, 1));
+				break;
+			}
+
 			text = extend(text, token.text);
 			scannedTokens.consume();
 			token = scannedTokens.get();
@@ -394,6 +400,12 @@ class PropertyParser {
 		std::string_view text = token.text.substr(0, 0);
 
 		while (token.token != PropertyToken::LineBreak && token.token != PropertyToken::EndOfFile) {
+			if (token.token == PropertyToken::EscapedLineBreak) {
+				// There is no line continuation here, thus only the backslash is part of the text.
+				text = extend(text, token.text.substr(0, 1));
+				break;
+			}
+
 			text = extend(text, token.text);
 			scannedTokens.consume();
 			token = scannedTokens.get();
-- 
2.43.0


From b764a0e69c51e1a980a83f66c9263ca2899bc55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 035/122] fix: Property text normalisation handles escapes
 directly after a line continuation

---
 .../Balau/Lang/Property/Lang/PropertyAst.hpp  | 37 +++++++++----------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
index 670622d..b1945d9 100644
--- a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
@@ -115,7 +115,7 @@ class PropertyNode { // Abstract
 				switch (c) {
 					case U'\r':
 					case U'\n': {
-						skipLineContinuation(input, inOffset, output, outOffset);
+						skipLineContinuation(input, inOffset, c);
 						break;
 					}
 
@@ -147,33 +147,30 @@ class PropertyNode { // Abstract
 	protected: PropertyNode(PropertyNode && rhs) noexcept
 		: codeSpan(rhs.codeSpan) {}
 
-	private: static void skipLineContinuation(const std::string_view & input,
-	                                          int & inOffset,
-	                                          std::string & output,
-	                                          int & outOffset) {
-		if (inOffset == (int) input.length()) {
-			return; // Last character pair is an escaped CR or LF.
-		}
+	// Skips the rest of the escaped line break and the leading blanks of the next line.
+	private: static void skipLineContinuation(const std::string_view & input, int & inOffset, char32_t lineBreak) {
+		int nextOffset = inOffset;
+		char32_t c;
 
-		char32_t c = Character::getNextUtf8Safe(input, inOffset);
+		if (nextOffset < (int) input.length()) {
+			c = Character::getNextUtf8Safe(input, nextOffset);
 
-		if (c == U'\r' || c == U'\n') {
-			if (inOffset == (int) input.length()) {
-				return; // Last character triplet is an escaped CRLF or LFCR.
+			if ((c == U'\r' || c == U'\n') && c != lineBreak) {
+				inOffset = nextOffset; // CRLF or LFCR.
 			}
-
-			c = Character::getNextUtf8Safe(input, inOffset);
 		}
 
-		while (Character::isBlank(c)) {
-			if (inOffset == (int) input.length()) {
-				return; // End of string.
+		nextOffset = inOffset;
+
+		while (nextOffset < (int) input.length()) {
+			c = Character::getNextUtf8Safe(input, nextOffset);
+
+			if (!Character::isBlank(c)) {
+				break;
 			}
 
-			c = Character::getNextUtf8Safe(input, inOffset);
+			inOffset = nextOffset;
 		}
-
-		Character::setUtf8AndAdvanceOffset(output, outOffset, c);
 	}
 };
 
-- 
2.43.0


From 0b0a5377741c9527b2564ff236eec86667768466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 036/122] fix: Property parser keys that start with line
 continuations

---
 .../Lang/Property/Parser/PropertyParser.hpp   | 38 ++-----------------
 1 file changed, 4 insertions(+), 34 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
index e7c6c83..19565cc 100644
--- a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
@@ -141,41 +141,11 @@ class PropertyParser {
 		scannedTokens.consume();
 		ScannedToken token = scannedTokens.get();
 
-		if (startToken.token == PropertyToken::EscapedLineBreak) {
+		if (startToken.token == PropertyToken::EscapedLineBreak && token.token == PropertyToken::Blank) {
 			// Line continuation.
-			if (token.token == PropertyToken::Blank) {
-				key = extend(key, token.text);
-				scannedTokens.consume();
-				token = scannedTokens.get();
-			}
-
-			switch (token.token) {
-				case PropertyToken::Text:
-				case PropertyToken::EscapedOpenCurly:
-				case PropertyToken::EscapedCloseCurly:
-				case PropertyToken::EscapedArobase:
-				case PropertyToken::EscapedColon:
-				case PropertyToken::EscapedEquals:
-				case PropertyToken::EscapedHash:
-				case PropertyToken::EscapedExclamation:
-				case PropertyToken::EscapedBackSlash:
-				case PropertyToken::EscapedBlank:
-				case PropertyToken::EscapedChar:
-				case PropertyToken::EscapedLineBreak: {
-					key = extend(key, token.text);
-					scannedTokens.consume();
-					token = scannedTokens.get();
-					break;
-				}
-
-				default: {
-					ThrowBalauException(
-						Exception::SyntaxErrorException
-					, "Invalid input: " + std::string(token.text)
-					, token.codeSpan
-					);
-				}
-			}
+			key = extend(key, token.text);
+			scannedTokens.consume();
+			token = scannedTokens.get();
 		}
 
 		bool keyFinished = false;
-- 
2.43.0


From 4c4628d0a4603ac03233a6fa41b84599d6d8a4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 037/122] fix: Command line parser forgets the final values of
 the previous command line

---
 src/main/cpp/Balau/Application/CommandLine.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index ce26fba..ff0f9ae 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -234,6 +234,7 @@ template <typename KeyT> class CommandLine {
 		using ::toString;
 
 		parsedValuesByKey.clear();
+		finalValues.clear();
 
 		if (args.empty() || (ignoreFirst && args.size() == 1)) {
 			if (commandLineHasFinalValue == HasFinalValue::Yes) {
-- 
2.43.0


From 287b9aea5f4a51fd3120ed3c9758706bfe7fcd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 038/122] fix: Command line parser detects missing values in
 the switch equals value style

---
 src/main/cpp/Balau/Application/CommandLine.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index ff0f9ae..9865db3 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -693,7 +693,10 @@ template <typename KeyT> class CommandLine {
 			m++;
 		}
 
-		for (size_t m = 0; m < (commandLineHasFinalValue == HasFinalValue::Yes ? cleanedArgs.size() - 1 : cleanedArgs.size()); m++) {
+		// The final value is not available as the value of an option.
+		const size_t optionArgCount = commandLineHasFinalValue == HasFinalValue::Yes ? cleanedArgs.size() - 1 : cleanedArgs.size();
+
+		for (size_t m = 0; m < optionArgCount; m++) {
 			const std::string optionSwitch = toString(Util::Strings::trim(cleanedArgs[m]));
 			auto iter = keysBySwitch.find(optionSwitch);
 
@@ -705,10 +708,12 @@ template <typename KeyT> class CommandLine {
 			const auto & option = optionsByKey.at(key);
 
 			if (option.hasValue) {
-				if (commandLineHasFinalValue == HasFinalValue::Yes && cleanedArgs.size() - m < 2) {
-					ThrowBalauException(Exception::MissingFinalValueException, "");
-				} else if (cleanedArgs.size() - m < 1) {
-					ThrowBalauException(Exception::MissingOptionValueException, optionSwitch);
+				if (m + 1 >= optionArgCount) {
+					if (commandLineHasFinalValue == HasFinalValue::Yes) {
+						ThrowBalauException(Exception::MissingFinalValueException, "");
+					} else {
+						ThrowBalauException(Exception::MissingOptionValueException, optionSwitch);
+					}
 				}
 
 				m++;
-- 
2.43.0


From 2ec5d5f9adae59216aab7d22c8ed2be5763ed8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 039/122] fix: Command line parser supports optional final
 values in the switch equals value style

---
 src/main/cpp/Balau/Application/CommandLine.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index 9865db3..a448fe6 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -701,6 +701,12 @@ template <typename KeyT> class CommandLine {
 			auto iter = keysBySwitch.find(optionSwitch);
 
 			if (iter == keysBySwitch.end()) {
+				if (commandLineHasFinalValue == HasFinalValue::Maybe && m + 1 == optionArgCount) {
+					// Not a switch.
+					finalValues.push_back(optionSwitch);
+					break;
+				}
+
 				ThrowBalauException(Exception::OptionNotFoundException, optionSwitch);
 			}
 
-- 
2.43.0


From 58c3eb7ccf4b1097fcdc793a2d260c145ee3fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 040/122] fix: Command line help text ends the line of options
 without documentation

---
 src/main/cpp/Balau/Application/CommandLine.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index a448fe6..523251c 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -636,6 +636,10 @@ template <typename KeyT> class CommandLine {
 			size_t charactersWritten = 0;
 			bool first = true;
 
+			if (docText.empty()) {
+				builder << "\n";
+			}
+
 			while (charactersWritten < docText.length()) {
 				const size_t charactersRemaining = docText.length() - charactersWritten;
 
-- 
2.43.0


From 5c0193b36f16d51b3d188df44a9c73a4502c828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 041/122] fix: Command line parser detects missing final values
 in the switch space value style

---
 src/main/cpp/Balau/Application/CommandLine.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index 523251c..55c9e3d 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -153,6 +153,7 @@ template <typename KeyT> class CommandLine {
 		keysBySwitch[shortSwitch] = helpKey;
 		keysBySwitch[longSwitch] = helpKey;
 		optionsByKey[helpKey] = Option(helpKey, shortSwitch, longSwitch, false, helpDocumentation);
+		optionsByKey[helpKey].isHelp = true;
 		return *this;
 	}
 
@@ -742,6 +743,7 @@ template <typename KeyT> class CommandLine {
 	                                    const std::vector<std::string> & args,
 	                                    bool ignoreFirst) {
 		size_t m = ignoreFirst ? 1 : 0;
+		bool helpRequested = false;
 
 		for (; m < args.size(); m++) {
 			using ::toString;
@@ -785,6 +787,12 @@ template <typename KeyT> class CommandLine {
 			} else {
 				parsedValuesByKey[key] = "";
 			}
+
+			helpRequested = helpRequested || option.isHelp;
+		}
+
+		if (commandLineHasFinalValue == HasFinalValue::Yes && finalValues.empty() && !helpRequested) {
+			ThrowBalauException(Exception::MissingFinalValueException, "");
 		}
 	}
 
@@ -891,6 +899,7 @@ template <typename KeyT> class CommandLine {
 		std::string shortSwitch;
 		std::string longSwitch;
 		bool hasValue;
+		bool isHelp = false;
 		std::string documentation;
 
 		Option() : hasValue(false) {}
-- 
2.43.0


From 892c69fa8b50cd905e6eaf58507fdc2e18994bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 042/122] fix: Command line parser rejects trailing characters
 and negative unsigned numbers

---
 .../cpp/Balau/Application/CommandLine.hpp     | 71 +++++++++++++------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index 55c9e3d..ab68c1d 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -312,7 +312,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: short getOptionAsShort(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<int>(str); };
 		return getOptionAs<short, int>(key, "a short integer", parse);
 	}
 
@@ -323,7 +323,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned short getOptionAsUnsignedShort(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<unsigned long long>(str); };
 		return getOptionAs<unsigned short, unsigned long long>(key, "an unsigned short integer", parse);
 	}
 
@@ -334,7 +334,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: int getOptionAsInt(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<int>(str); };
 		return getOptionAs<int, int>(key, "an integer", parse);
 	}
 
@@ -345,7 +345,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned int getOptionAsUnsignedInt(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<unsigned long long>(str); };
 		return getOptionAs<unsigned int, unsigned long long>(key, "an unsigned integer", parse);
 	}
 
@@ -356,7 +356,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: long long getOptionAsLong(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoll(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<long long>(str); };
 		return getOptionAs<long long, long long>(key, "a long integer", parse);
 	}
 
@@ -367,7 +367,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned long long getOptionAsUnsignedLong(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<unsigned long long>(str); };
 		return getOptionAs<unsigned long long, unsigned long long>(key, "an unsigned long long integer", parse);
 	}
 
@@ -380,7 +380,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: short getOptionAsShortOrDefault(KeyT key, short defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<int>(str); };
 		return getOptionAs<short, int>(key, "a short integer", parse, true, defaultValue);
 	}
 
@@ -391,7 +391,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned short getOptionAsUnsignedShortOrDefault(KeyT key, unsigned short defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<unsigned long long>(str); };
 		return getOptionAs<unsigned short, unsigned long long>(key, "an unsigned short integer", parse, true, defaultValue);
 	}
 
@@ -402,7 +402,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: int getOptionAsIntOrDefault(KeyT key, int defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<int>(str); };
 		return getOptionAs<int, int>(key, "an integer", parse, true, defaultValue);
 	}
 
@@ -413,7 +413,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned int getOptionAsUnsignedIntOrDefault(KeyT key, unsigned int defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<unsigned long long>(str); };
 		return getOptionAs<unsigned int, unsigned long long>(key, "an unsigned integer", parse, true, defaultValue);
 	}
 
@@ -424,7 +424,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: long long getOptionAsLongOrDefault(KeyT key, long long defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoll(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<long long>(str); };
 		return getOptionAs<long long, long long>(key, "a long integer", parse, true, defaultValue);
 	}
 
@@ -435,7 +435,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned long long getOptionAsUnsignedLongOrDefault(KeyT key, unsigned long long defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<unsigned long long>(str); };
 		return getOptionAs<unsigned long long, unsigned long long>(key, "an unsigned long long integer", parse, true, defaultValue);
 	}
 
@@ -448,7 +448,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getOptionAsFloat(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<float>(str); };
 		return getOptionAs<float, float>(key, "a single precision floating point value", parse);
 	}
 
@@ -459,7 +459,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getOptionAsDouble(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<double>(str); };
 		return getOptionAs<double, double>(key, "a double precision floating point value", parse);
 	}
 
@@ -472,7 +472,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getOptionAsFloatOrDefault(KeyT key, float defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<float>(str); };
 		return getOptionAs<float, float>(key, "a single precision floating point value", parse, true, defaultValue);
 	}
 
@@ -483,7 +483,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getOptionAsDoubleOrDefault(KeyT key, double defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<double>(str); };
 		return getOptionAs<double, double>(key, "a double precision floating point value", parse, true, defaultValue);
 	}
 
@@ -516,7 +516,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getFinalValueAsFloat(size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<float>(str); };
 		return getFinalValueAs<float>("a single precision floating point value", parse, index);
 	}
 
@@ -527,7 +527,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getFinalValueAsDouble(size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<double>(str); };
 		return getFinalValueAs<double>("a double precision floating point value", parse, index);
 	}
 
@@ -551,7 +551,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getFinalValueAsFloatOrDefault(float defaultValue, size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<float>(str); };
 		return getFinalValueAs<float>("a single precision floating point value", parse, index, true, defaultValue);
 	}
 
@@ -562,7 +562,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getFinalValueAsDoubleOrDefault(double defaultValue, size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str) { return parseNumber<double>(str); };
 		return getFinalValueAs<double>("a double precision floating point value", parse, index, true, defaultValue);
 	}
 
@@ -796,6 +796,37 @@ template <typename KeyT> class CommandLine {
 		}
 	}
 
+	//
+	// Parse the whole string as a number.
+	//
+	private: template <typename N> static N parseNumber(const std::string & str) {
+		size_t end = 0;
+		N value;
+
+		if constexpr (std::is_same<N, int>::value) {
+			value = std::stoi(str, &end);
+		} else if constexpr (std::is_same<N, long long>::value) {
+			value = std::stoll(str, &end);
+		} else if constexpr (std::is_same<N, unsigned long long>::value) {
+			value = std::stoull(str, &end);
+		} else if constexpr (std::is_same<N, float>::value) {
+			value = std::stof(str, &end);
+		} else {
+			value = std::stod(str, &end);
+		}
+
+		if (end != str.length()) {
+			throw std::invalid_argument("Characters follow the number.");
+		}
+
+		// The unsigned conversion functions negate the values of negative numbers.
+		if (std::is_unsigned<N>::value && value != 0 && str.front() == '-') {
+			throw std::out_of_range("The number is negative.");
+		}
+
+		return value;
+	}
+
 	//
 	// Option numeric conversion function.
 	//  - T is the required type.
-- 
2.43.0


From 6adaede3cc7ce9b9b36034969c70d2153f848470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 043/122] fix: Environment configuration of strings reads the
 type specifications from the specifications string

---
 src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index 8d8f0bc..48f8c9e 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -244,7 +244,7 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 	///
 	public: EnvironmentConfiguration(const std::string & input, const std::string & typeSpecifications_)
 		: propertyStringsHierarchy(Impl::EnvironmentConfigurationBuilderUtils::createPropertyStrings({ std::shared_ptr<Resource::Uri>(new Resource::StringUri(input)) }))
-		, typeSpecificationsUris(Util::Vectors::pushBack(std::shared_ptr<Resource::Uri>(new Resource::StringUri(input)))) {}
+		, typeSpecificationsUris(Util::Vectors::pushBack(std::shared_ptr<Resource::Uri>(new Resource::StringUri(typeSpecifications_)))) {}
 
 	///
 	/// Create an environment configuration by specifying the source properties file.
-- 
2.43.0


From d41db1ec65b287812d86a2a35c0591c72cab1496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 044/122] fix: Environment configuration binds the unescaped
 names and values of properties

---
 .../Impl/EnvironmentConfigurationBuilderUtils.hpp          | 7 +++++--
 .../Application/Impl/PropertyTypeSpecificationVisitor.hpp  | 7 ++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
index 6e206a8..0a59b38 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
@@ -59,12 +59,15 @@ class EnvironmentConfigurationBuilderUtils {
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::ValueProperty & object) override {
 			auto & pl = static_cast<PropertyTrieCreatorPayload &>(payload);
-			pl.nodeStack.top()->add(PropertyString(std::string(object.getName()), std::string(object.getValue())));
+			pl.nodeStack.top()->add(PropertyString(
+					Lang::Property::AST::PropertyNode::normalise(object.getName())
+					, Lang::Property::AST::PropertyNode::normalise(object.getValue())
+				));
 		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::CompositeProperty & object) override {
 			auto & pl = static_cast<PropertyTrieCreatorPayload &>(payload);
-			auto & node = pl.nodeStack.top()->addAndReturnChild(PropertyString(std::string(object.getName())));
+			auto & node = pl.nodeStack.top()->addAndReturnChild(PropertyString(Lang::Property::AST::PropertyNode::normalise(object.getName())));
 			pl.nodeStack.push(&node);
 
 			for (auto & childNode : object.getNodes()) {
diff --git a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
index 443aa0f..a1ce7d7 100644
--- a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
+++ b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
@@ -77,7 +77,8 @@ class PropertyTypeSpecificationVisitor : public Lang::Property::PropertyVisitor
 	public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::ValueProperty & object) {
 		auto & pl = static_cast<PropertyTypeSpecificationVisitorPayload &>(payload);
 
-		auto splitValue = Util::Strings::split(object.getValue(), PropertyTypeSpecificationVisitorUtilities<>::defaultValueDelimiter);
+		const std::string value = Lang::Property::AST::PropertyNode::normalise(object.getValue());
+		auto splitValue = Util::Strings::split(value, PropertyTypeSpecificationVisitorUtilities<>::defaultValueDelimiter);
 
 		std::string typeSpecification;
 		std::string defaultValue;
@@ -114,7 +115,7 @@ class PropertyTypeSpecificationVisitor : public Lang::Property::PropertyVisitor
 			}
 		}
 
-		auto factory = getBindingBuilderFactory(typeSpecification, std::string(object.getName()), defaultValue);
+		auto factory = getBindingBuilderFactory(typeSpecification, Lang::Property::AST::PropertyNode::normalise(object.getName()), defaultValue);
 		pl.nodeVectorStack.top().emplace_back(factory);
 	}
 
@@ -122,7 +123,7 @@ class PropertyTypeSpecificationVisitor : public Lang::Property::PropertyVisitor
 		auto & pl = static_cast<PropertyTypeSpecificationVisitorPayload &>(payload);
 		pl.nodeVectorStack.push(std::vector<PropertyBindingBuilderFactoryPtr>());
 
-		auto factory = PropertyBindingBuilderFactoryPtr(new CompositePropertyBindingBuilderFactory(std::string(object.getName())));
+		auto factory = PropertyBindingBuilderFactoryPtr(new CompositePropertyBindingBuilderFactory(Lang::Property::AST::PropertyNode::normalise(object.getName())));
 		auto composite = std::static_pointer_cast<CompositePropertyBindingBuilderFactory>(factory);
 
 		for (auto & childNode : object.getNodes()) {
-- 
2.43.0


From a2de1c866643a7eb54a6a29a13f4a6076e724c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 045/122] fix: Type specification default values that contain
 equals characters are not truncated

---
 .../Impl/PropertyTypeSpecificationVisitor.hpp | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
index a1ce7d7..3188335 100644
--- a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
+++ b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
@@ -27,8 +27,6 @@
 #include <Balau/Lang/Property/Util/PropertyVisitor.hpp>
 #include <Balau/Resource/UriResolve.hpp>
 
-#include <numeric>
-
 namespace Balau {
 
 namespace Impl {
@@ -96,22 +94,11 @@ class PropertyTypeSpecificationVisitor : public Lang::Property::PropertyVisitor
 				break;
 			}
 
-			case 2: {
-				typeSpecification = std::string(splitValue[0]);
-				defaultValue = std::string(splitValue[1]);
-				break;
-			}
-
 			default: {
-				// The multiple default value text contains one or more '='.. combine into a single piece of text.
-				// It is up to the fromString function to determine if the text is value or not.
+				// The default value is all the text after the first delimiter. It may contain one or more '='.
+				// It is up to the fromString function to determine if the text is valid or not.
 				typeSpecification = std::string(splitValue[0]);
-
-				const size_t length = std::accumulate(
-					splitValue.begin(), splitValue.end(), 0U, [] (size_t l, auto & s) { return l + s.length(); }
-				) - splitValue[0].length();
-
-				defaultValue = std::string(splitValue[1].data(), length);
+				defaultValue = value.substr((size_t) (splitValue[1].data() - value.data()));
 			}
 		}
 
-- 
2.43.0


From d2d907361ef4f482373635eac75042f16bd03c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:44 +0000
Subject: [PATCH 046/122] fix: Environment configuration ignores the type
 specification of a composite property

---
 .../Application/Impl/EnvironmentConfigurationBuilder.hpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
index acab863..6d29607 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
@@ -259,7 +259,7 @@ class EnvironmentConfigurationBuilder {
 						//);
 					}
 
-					if (factoryNodeIter != bindingBuilderFactoryVector.end()) {
+					if (factoryNodeIter != bindingBuilderFactoryVector.end() && (*factoryNodeIter)->isComposite()) {
 						auto childLevel = std::unique_ptr<BindingMap>(new BindingMap);
 						auto & ptr = *factoryNodeIter;
 						const auto & compositeBindingBuilderFactory = *static_cast<const CompositePropertyBindingBuilderFactory *>(ptr.get());
@@ -347,7 +347,7 @@ class EnvironmentConfigurationBuilder {
 						//);
 					}
 
-					if (factoryNodeIter != bindingBuilderFactoryVector.end()) {
+					if (factoryNodeIter != bindingBuilderFactoryVector.end() && (*factoryNodeIter)->isComposite()) {
 						auto childLevel = std::unique_ptr<BindingMap>(new BindingMap);
 						auto & ptr = *factoryNodeIter;
 						const auto & compositeBindingBuilderFactory = *static_cast<const CompositePropertyBindingBuilderFactory *>(ptr.get());
-- 
2.43.0


From 432fb15a9293dea5f90c78d8b1b63dc12f5840f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:44 +0000
Subject: [PATCH 047/122] fix: Environment configuration detects incompatible
 root type specifications

---
 .../Impl/EnvironmentConfigurationBuilder.hpp    | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
index 6d29607..144cb90 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
@@ -94,9 +94,22 @@ class EnvironmentConfigurationBuilder {
 	//
 	private: static void appendFactories(PropertyBindingBuilderFactoryPtrVector & bindingBuilderFactoryVector,
 	                                     const PropertyBindingBuilderFactoryPtr & factory) {
+		const auto existingIter = std::find_if(
+			  bindingBuilderFactoryVector.begin()
+			, bindingBuilderFactoryVector.end()
+			, [&factory] (const auto & existing) { return existing->name == factory->name; }
+		);
+
+		const bool compatible = existingIter == bindingBuilderFactoryVector.end()
+			|| (*existingIter)->isComposite() == factory->isComposite();
+
 		if (!factory->isComposite()) {
 			// Simple factory.
 
+			if (!compatible) {
+				ThrowBalauException(Exception::EnvironmentConfigurationException, "Incompatible type specifications found.");
+			}
+
 			Util::Vectors::pushBackOrReplace(
 				  bindingBuilderFactoryVector
 				, factory
@@ -110,6 +123,10 @@ class EnvironmentConfigurationBuilder {
 
 			// Don't create an empty composite child.
 			if (!compositeFactory.children.empty()) {
+				if (!compatible) {
+					ThrowBalauException(Exception::EnvironmentConfigurationException, "Incompatible type specifications found.");
+				}
+
 				Util::Vectors::pushBackOrReplace(
 					  bindingBuilderFactoryVector
 					, factory
-- 
2.43.0


From ae811f19a735a7ce039a1b1e0e32555064b28853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 048/122] fix: Environment configurations can be used for more
 than one injector

---
 src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index 48f8c9e..e9d3243 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -444,6 +444,9 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 				}
 			}
 
+			// The factories are declared again by the next configure() call.
+			allBindingBuilderFactories.clear();
+
 			builders = Impl::EnvironmentConfigurationBuilder::build(
 				typeSpecificationsUris, bindingBuilderFactoriesVector, propertyStringsHierarchy
 			);
-- 
2.43.0


From 8986f328f9f0cbf8d00e0052c30ed2dc25ef202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 049/122] fix: Nested include directives of environment
 properties are relative to the including file

---
 .../Impl/EnvironmentConfigurationBuilderUtils.hpp     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
index 0a59b38..deede2c 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
@@ -48,8 +48,9 @@ class EnvironmentConfigurationBuilderUtils {
 	};
 
 	private: class PropertyTrieCreator : public Lang::Property::PropertyVisitor {
-		public: PropertyTrieCreator(const std::shared_ptr<Resource::Uri> & uri_)
-			: uri(uri_) {}
+		public: PropertyTrieCreator(const std::shared_ptr<Resource::Uri> & uri_) {
+			uris.push(uri_);
+		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::Properties & object) override {
 			for (auto & node : object.getNodes()) {
@@ -78,9 +79,11 @@ class EnvironmentConfigurationBuilderUtils {
 		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::IncludePropertyNode & object) override {
-			std::shared_ptr<Resource::Uri> resolvedUri = Resource::UriResolve::resolve(*uri, Util::Strings::trim(object.getText()));
+			std::shared_ptr<Resource::Uri> resolvedUri = Resource::UriResolve::resolve(*uris.top(), Util::Strings::trim(object.getText()));
 			auto properties = Lang::Property::PropertyParserService::parse(resolvedUri);
+			uris.push(resolvedUri);
 			visit(payload, properties);
+			uris.pop();
 		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::CommentPropertyNode & object) override {
@@ -91,7 +94,7 @@ class EnvironmentConfigurationBuilderUtils {
 			// NOP
 		}
 
-		private: const std::shared_ptr<Resource::Uri> uri;
+		private: std::stack<std::shared_ptr<Resource::Uri>> uris;
 	};
 
 	// Parse the properties sources and create an object trie containing property string objects.
-- 
2.43.0


From e6cf040d3c4d1cf33184d2f938b603ee95ad2fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 050/122] fix: Unique type specifications with a default value
 compile

---
 .../Balau/Application/EnvironmentConfiguration.hpp   | 12 ++++++++----
 .../Impl/PropertyBindingBuilderFactory.hpp           |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index e9d3243..8b0a4a1 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -372,10 +372,14 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 	///
 	protected: template <typename BaseT>
 	Impl::PropertyBindingBuilderFactoryPtr unique(std::string name, std::unique_ptr<BaseT> && defaultValue) const {
-		Impl::PropertyBindingBuilderFactoryPtr factory = Impl::getBindingBuilderFactory(typeid(BaseT), name, "");
-		auto f = factory->clone(name, defaultValue);
-		allBindingBuilderFactories.emplace_back(f);
-		return f;
+		auto cloner = Impl::UniquePropertyBindingBuilderFactory<BaseT>::getClonerFunction(name);
+
+		auto factory = Impl::PropertyBindingBuilderFactoryPtr(
+			new Impl::UniquePropertyBindingBuilderFactory<BaseT>(std::move(name), cloner, std::move(defaultValue))
+		);
+
+		allBindingBuilderFactories.emplace_back(factory);
+		return factory;
 	}
 
 	///
diff --git a/src/main/cpp/Balau/Application/Impl/PropertyBindingBuilderFactory.hpp b/src/main/cpp/Balau/Application/Impl/PropertyBindingBuilderFactory.hpp
index 4a00945..25ed49b 100644
--- a/src/main/cpp/Balau/Application/Impl/PropertyBindingBuilderFactory.hpp
+++ b/src/main/cpp/Balau/Application/Impl/PropertyBindingBuilderFactory.hpp
@@ -437,7 +437,7 @@ template <typename BaseT> class UniquePropertyBindingBuilderFactory : public Pro
 		, clonerFunction(getClonerFunction(name))
 		, defaultValue(std::move(defaultValue_)) {}
 
-	// For testing only.
+	// Get the cloner function that was registered for the base type.
 	private: static UniquePropertyCloner<BaseT> getClonerFunction(const std::string & name) {
 		auto factory = getBindingBuilderFactory(typeid(BaseT), name, "");
 		auto typedFactory = std::dynamic_pointer_cast<UniquePropertyBindingBuilderFactory<BaseT>>(factory);
-- 
2.43.0


From cd00f99ce6f96f69fc22502b61b0f50ac6184228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 051/122] fix: EnvironmentProperties getUnique with a default
 value compiles

---
 src/main/cpp/Balau/Application/EnvironmentProperties.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentProperties.hpp b/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
index 44a62b8..7f35ee8 100644
--- a/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
@@ -411,7 +411,7 @@ class EnvironmentProperties {
 	///
 	public: template <typename BaseT> std::unique_ptr<BaseT> getUnique(std::string_view name, std::unique_ptr<BaseT> && defaultValue) const {
 		return getUnique<BaseT>(
-			Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, std::default_delete<BaseT>>), name), defaultValue
+			Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, std::default_delete<BaseT>>), name), std::move(defaultValue)
 		);
 	}
 
-- 
2.43.0


From 0e3f4f5d6084d35eafb3d13fa0771acf5c66e7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 052/122] fix: Assigned EnvironmentProperties iterators refer
 to the container of the assigned iterator

---
 src/main/cpp/Balau/Application/EnvironmentProperties.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentProperties.hpp b/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
index 7f35ee8..b192bee 100644
--- a/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
@@ -247,6 +247,7 @@ class EnvironmentProperties {
 		/// Set the current iterator to a copy of the supplied iterator.
 		///
 		public: iterator & operator = (const iterator & copy) {
+			owner = copy.owner;
 			mapIterator = copy.mapIterator;
 			return *this;
 		}
@@ -272,7 +273,7 @@ class EnvironmentProperties {
 		/// Dereference the iterator in order to obtain the object pointed to.
 		///
 		public: Item operator * () const {
-			return Item(owner, Impl::BindingKeyView(mapIterator->key));
+			return Item(*owner, Impl::BindingKeyView(mapIterator->key));
 		}
 
 		///
@@ -292,10 +293,10 @@ class EnvironmentProperties {
 		friend class EnvironmentProperties;
 
 		private: explicit iterator(const EnvironmentProperties & owner_, Impl::BindingMap::ConstIterator mapIterator_)
-			: owner(owner_)
+			: owner(&owner_)
 			, mapIterator(mapIterator_) {}
 
-		private: const EnvironmentProperties & owner;
+		private: const EnvironmentProperties * owner;
 		private: Impl::BindingMap::ConstIterator mapIterator;
 	};
 
-- 
2.43.0


From 1c1664dcab963306881236d63a7885c82f3be555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:51 +0000
Subject: [PATCH 053/122] fix: Environment configurations of shared pointer
 type specification URIs compile

---
 .../cpp/Balau/Application/EnvironmentConfiguration.hpp     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index 8b0a4a1..f27d9f5 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -234,7 +234,12 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 	                         const std::shared_ptr<Resource::Uri> & firstTypeSpecifications,
 	                         const UriT & ... moreTypeSpecifications)
 		: propertyStringsHierarchy(Impl::EnvironmentConfigurationBuilderUtils::createPropertyStrings({ input }))
-		, typeSpecificationsUris(Util::Vectors::pushBack(firstTypeSpecifications, moreTypeSpecifications ...)) {}
+		, typeSpecificationsUris(
+			Util::Vectors::pushBack(
+				  std::shared_ptr<Resource::Uri>(firstTypeSpecifications)
+				, std::shared_ptr<Resource::Uri>(moreTypeSpecifications) ...
+			)
+		) {}
 
 	///
 	/// Create an environment configuration by specifying a string for the source properties text and the property types via a properties file.
-- 
2.43.0


From 3e4f4e203bec03b4afbbaa299828174f674f85f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 054/122] fix: Integer to string conversion has room for the
 minimum value of a type

---
 src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp b/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp
index a628f3d..aca6841 100644
--- a/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp
+++ b/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp
@@ -38,7 +38,8 @@ template <typename T, unsigned long N = std::numeric_limits<T>::max()> struct Ch
 };
 
 template <typename T> struct CharacterCount<T, 0> {
-	static constexpr size_t count = 1;
+	// The sign and the terminating null character.
+	static constexpr size_t count = 2;
 };
 
 template <typename AllocatorT, typename T>
-- 
2.43.0


From 1ab9ef7c61358af02c7e26af2d12cb7a56b7a927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:59 +0000
Subject: [PATCH 055/122] fix: String to number conversion detects numbers that
 are out of the range of the type

---
 .../cpp/Balau/Type/Impl/FromStringImpl.hpp    | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
index 6ac0ba3..7b886d2 100644
--- a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
+++ b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
@@ -25,6 +25,9 @@
 #include <boost/lexical_cast.hpp>
 #include <boost/locale.hpp>
 
+#include <cerrno>
+#include <cmath>
+
 namespace Balau::Impl {
 
 // Checks that the string is not empty and throws a conversion exception if it is.
@@ -75,6 +78,21 @@ inline void validateIntegerConversion(const std::string & value, const char * st
 	}
 }
 
+// Checks that the converted number is in the range of the type, as reported by the strto* functions.
+inline void validateConversionRange(const std::string & value, bool inRange) {
+	if (!inRange) {
+		ThrowBalauException(
+			  Balau::Exception::ConversionException
+			, ::toString("String to numeric conversion of \"", value, "\" is out of bounds.")
+		);
+	}
+}
+
+// The strtoul and strtoull functions accept negative numbers and return the negated unsigned value.
+inline bool isNegativeNumber(const std::string & value, bool isZero) {
+	return !isZero && value.find('-') != std::string::npos;
+}
+
 template <typename DstT, typename SrcT> void checkLowerLimit(SrcT n) {
 	const SrcT lowerLimit = std::numeric_limits<DstT>::lowest();
 
@@ -124,8 +142,10 @@ inline long stringToLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long n = std::strtol(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE);
 	return n;
 }
 
@@ -133,8 +153,10 @@ inline long stringToLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long n = std::strtol(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE);
 	return n;
 }
 
@@ -142,8 +164,10 @@ inline long long stringToLongLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long long n = std::strtoll(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE);
 	return n;
 }
 
@@ -151,8 +175,10 @@ inline long long stringToLongLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long long n = std::strtoll(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE);
 	return n;
 }
 
@@ -160,8 +186,10 @@ inline unsigned long stringToUnsignedLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long n = std::strtoul(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE && !Impl::isNegativeNumber(s, n == 0));
 	return n;
 }
 
@@ -169,8 +197,10 @@ inline unsigned long stringToUnsignedLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long n = std::strtoul(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE && !Impl::isNegativeNumber(s, n == 0));
 	return n;
 }
 
@@ -178,8 +208,10 @@ inline unsigned long long stringToUnsignedLongLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long long n = std::strtoull(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE && !Impl::isNegativeNumber(s, n == 0));
 	return n;
 }
 
@@ -187,8 +219,10 @@ inline unsigned long long stringToUnsignedLongLong(std::string_view value, int b
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long long n = std::strtoull(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE && !Impl::isNegativeNumber(s, n == 0));
 	return n;
 }
 
@@ -196,8 +230,10 @@ inline float stringToFloat(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	float n = std::strtof(s.c_str(), &strEnd);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE || !std::isinf(n));
 	return n;
 }
 
@@ -205,8 +241,10 @@ inline double stringToDouble(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	double n = std::strtod(s.c_str(), &strEnd);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE || !std::isinf(n));
 	return n;
 }
 
@@ -214,8 +252,10 @@ inline long double stringToLongDouble(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long double n = std::strtold(s.c_str(), &strEnd);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, errno != ERANGE || !std::isinf(n));
 	return n;
 }
 
-- 
2.43.0


From 6d97fc8d161df34ea830899fb2914ad33cf721fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:14 +0000
Subject: [PATCH 056/122] fix: Default values of type specifications can start
 with equals characters

---
 .../Impl/PropertyTypeSpecificationVisitor.hpp | 37 ++++++++-----------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
index 3188335..bf91a3c 100644
--- a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
+++ b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
@@ -27,6 +27,8 @@
 #include <Balau/Lang/Property/Util/PropertyVisitor.hpp>
 #include <Balau/Resource/UriResolve.hpp>
 
+#include <regex>
+
 namespace Balau {
 
 namespace Impl {
@@ -76,30 +78,23 @@ class PropertyTypeSpecificationVisitor : public Lang::Property::PropertyVisitor
 		auto & pl = static_cast<PropertyTypeSpecificationVisitorPayload &>(payload);
 
 		const std::string value = Lang::Property::AST::PropertyNode::normalise(object.getValue());
-		auto splitValue = Util::Strings::split(value, PropertyTypeSpecificationVisitorUtilities<>::defaultValueDelimiter);
 
-		std::string typeSpecification;
+		if (value.empty()) {
+			ThrowBalauException(
+				Exception::EnvironmentConfigurationException
+			, ::toString("Missing type specification for property ", object.getName(), " sourced from ", *uris.top(), ".")
+			);
+		}
+
+		std::string typeSpecification = value;
 		std::string defaultValue;
+		std::smatch delimiter;
 
-		switch (splitValue.size()) {
-			case 0: {
-				ThrowBalauException(
-					Exception::EnvironmentConfigurationException
-				, ::toString("Missing type specification for property ", object.getName(), " sourced from ", *uris.top(), ".")
-				);
-			}
-
-			case 1: {
-				typeSpecification = std::string(splitValue[0]);
-				break;
-			}
-
-			default: {
-				// The default value is all the text after the first delimiter. It may contain one or more '='.
-				// It is up to the fromString function to determine if the text is valid or not.
-				typeSpecification = std::string(splitValue[0]);
-				defaultValue = value.substr((size_t) (splitValue[1].data() - value.data()));
-			}
+		if (std::regex_search(value, delimiter, PropertyTypeSpecificationVisitorUtilities<>::defaultValueDelimiter)) {
+			// The default value is all the text after the first delimiter. It may contain one or more '='.
+			// It is up to the fromString function to determine if the text is valid or not.
+			typeSpecification = delimiter.prefix();
+			defaultValue = delimiter.suffix();
 		}
 
 		auto factory = getBindingBuilderFactory(typeSpecification, Lang::Property::AST::PropertyNode::normalise(object.getName()), defaultValue);
-- 
2.43.0


From f6ef16d976643a84417e1c2ecf4c1134d2f06429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:06 +0000
Subject: [PATCH 057/122] fix: Existence and type of files are those of the
 file system at the time of the call

---
 src/main/cpp/Balau/Resource/File.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/File.hpp b/src/main/cpp/Balau/Resource/File.hpp
index d18b354..ed388df 100644
--- a/src/main/cpp/Balau/Resource/File.hpp
+++ b/src/main/cpp/Balau/Resource/File.hpp
@@ -385,7 +385,7 @@ class File : public Uri {
 	/// @return true if an item exits in the file system for the file URI
 	///
 	public: bool exists() const {
-		return boost::filesystem::exists(entry);
+		return boost::filesystem::exists(entry.path());
 	}
 
 	///
@@ -422,7 +422,7 @@ class File : public Uri {
 	/// @return true if the file URI points to a directory
 	///
 	public: bool isRegularDirectory() const override {
-		return boost::filesystem::is_directory(entry);
+		return boost::filesystem::is_directory(entry.path());
 	}
 
 	///
@@ -431,7 +431,7 @@ class File : public Uri {
 	/// @return true if the file URI points to a regular file
 	///
 	public: bool isRegularFile() const override {
-		return boost::filesystem::is_regular_file(entry);
+		return boost::filesystem::is_regular_file(entry.path());
 	}
 
 	///
-- 
2.43.0


From c89f65dc85fd1d4562c074ffb8cf8b00f52c149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:06 +0000
Subject: [PATCH 058/122] fix: Log messages with fewer parameters than
 placeholders do not read past the parameters

---
 src/main/cpp/Balau/Logging/Logger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 98eac46..10e6c50 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -282,13 +282,14 @@ void Logger::logMessage(const SourceCodeLocation & location,
 	auto timePoint = System::SystemClock().now();
 	auto messageItems = textToMessageItems(message, parameterCount);
 	LoggerOStringStream messageTextStream;
+	LoggerStringVector replacementParameters;
 	const LoggerStringVector * finalParameters;
 
 	if (parameters.size() < parameterCount) {
 		// The logging message does not have enough parameters.
-		LoggerStringVector replacementParameters = parameters;
+		replacementParameters = parameters;
 
-		while (parameterCount < parameters.size()) {
+		while (replacementParameters.size() < parameterCount) {
 			replacementParameters.emplace_back("????");
 		}
 
-- 
2.43.0


From 4e7b5c90f31512a5b69997d64e83e363c3feebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:06 +0000
Subject: [PATCH 059/122] fix: Logging namespaces with stream options do not
 inherit stream options of their ancestors

---
 .../cpp/Balau/Logging/Impl/LoggingState.cpp   | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index 1153364..13a0a95 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -662,16 +662,18 @@ void LoggingState::propagateConfiguration(LoggerTree & theLoggers) {
 			Logger & parentLogger = *parent->value.getLogger();
 			auto & parentProps = parentLogger.properties;
 
+			const bool hasStream = std::any_of(
+				  loggerProps.begin()
+				, loggerProps.end()
+				, [&streamStr] (const auto & loggerProp) { return Strings::endsWith(loggerProp.first, streamStr); }
+			);
+
 			for (auto & parentProp : parentProps) {
-				if (Strings::endsWith(parentProp.first, streamStr)) {
-					// Special treatment is required for stream properties.
-					// Do not propagate the parent's stream properties if
-					// there is a single stream property in the child.
-					for (auto & loggerProp : loggerProps) {
-						if (Strings::endsWith(loggerProp.first, streamStr)) {
-							continue;
-						}
-					}
+				// Special treatment is required for stream properties.
+				// Do not propagate the parent's stream properties if
+				// there is a single stream property in the child.
+				if (hasStream && Strings::endsWith(parentProp.first, streamStr)) {
+					continue;
 				}
 
 				if (loggerProps.find(parentProp.first) == loggerProps.end()) {
-- 
2.43.0


From d508bb4486273365cbd4d85748c25bae03bf8421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:06 +0000
Subject: [PATCH 060/122] fix: Logging files that cannot be opened do not
 terminate the application from the updater thread

---
 src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
index 10e07f3..f2076f4 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
@@ -42,7 +42,7 @@ std::regex FileLoggingStream::dateRegExExact(
 FileLoggingStream::FileLoggingStream(std::shared_ptr<System::Clock> clock_, std::string_view uri)
 	: clock(std::move(clock_))
 	, pathComponents(Util::Vectors::toStringVector(Strings::split(uri, dateRegEx, false)))
-	, running(Strings::occurrences(uri, dateRegEx) == 0) {
+	, running(Strings::occurrences(uri, dateRegEx) != 0) {
 
 	// Only run the updater thread if the URI contains date placeholders.
 	if (running) {
@@ -50,6 +50,8 @@ FileLoggingStream::FileLoggingStream(std::shared_ptr<System::Clock> clock_, std:
 		updater = std::thread(updateFunction, this);
 		// Wait until the updater thread unlocks this thread.
 		syncCondition.wait(lock);
+	} else {
+		createNewStream();
 	}
 }
 
-- 
2.43.0


From 01968ff0689ac8f0874072aac356e876fefb7bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:06 +0000
Subject: [PATCH 061/122] fix: Log messages without a source code location are
 not cut at the %filepath specifier

---
 src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp b/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
index 15396ac..d21dfdd 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
@@ -203,7 +203,9 @@ class FilenameLoggerItem : public LogItem {
 // The full path of the file in which the log message is found.
 class FilePathLoggerItem : public LogItem {
 	public: void write(LoggerItemParameters & parameters) const override {
-		parameters.builder << parameters.location;
+		if (parameters.location != nullptr) {
+			parameters.builder << parameters.location;
+		}
 	}
 };
 
-- 
2.43.0


From b05e20c663ed750b3d9b5373b4187647f50ad14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:06 +0000
Subject: [PATCH 062/122] fix: Parameter placeholders in log messages may
 follow an opening bracket

---
 src/main/cpp/Balau/Logging/Logger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 10e6c50..6cefbc1 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -148,6 +148,10 @@ std::vector<std::unique_ptr<MessageItem>> textToMessageItems(std::string_view me
 				// Jump the "{}" and reset.
 				textStart += 2;
 				textEnd = textStart;
+			} else if (*iter == '{') {
+				// The second bracket may be the start of a parameter placeholder.
+				++textEnd;
+				continue;
 			} else {
 				textEnd += 2;
 			}
-- 
2.43.0


From 8d11a780b3217899a8ccaac59773bda5a4c4dc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:06 +0000
Subject: [PATCH 063/122] fix: Log message formats can end with the double
 quotation specifier

---
 src/main/cpp/Balau/Logging/Impl/LoggingState.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index 13a0a95..bb7ba9f 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -687,17 +687,11 @@ void LoggingState::propagateConfiguration(LoggerTree & theLoggers) {
 }
 
 inline std::string removeOptionalQuotes(const std::string & text) {
-	std::string ret = text;
-
-	if (!ret.empty() && ret[0] == '"') {
-		ret = ret.substr(1);
-	}
-
-	if (!ret.empty() && ret.back() == '"') {
-		ret = ret.substr(0, ret.length() - 1);
+	if (text.length() > 1 && text[0] == '"' && text.back() == '"') {
+		return text.substr(1, text.length() - 2);
 	}
 
-	return ret;
+	return text;
 }
 
 void LoggingState::setStreams(LoggerTree & theLoggers) {
-- 
2.43.0


From ae82381350b800e2d6861b698402c2b0fe8ebc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:06 +0000
Subject: [PATCH 064/122] fix: Logging to the none level does not read past the
 streams of the logger

---
 src/main/cpp/Balau/Logging/Logger.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 6cefbc1..c0019e1 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -236,6 +236,10 @@ void Logger::logMessage(const SourceCodeLocation & location,
                         LoggingLevel level,
                         const Logger & logger,
                         std::string_view message) {
+	if (level == LoggingLevel::NONE) {
+		return; // Never results in logging.
+	}
+
 	// Apart from compiler ordering restrictions, these atomic reads are free on x86/x64.
 	const LogItemVector * const loggerItems = logger.logItems.load(std::memory_order_acquire);
 	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_relaxed);
@@ -274,6 +278,10 @@ void Logger::logMessage(const SourceCodeLocation & location,
                         const Logger & logger,
                         std::string_view message,
                         const LoggerStringVector & parameters) {
+	if (level == LoggingLevel::NONE) {
+		return; // Never results in logging.
+	}
+
 	// Apart from compiler ordering restrictions, these atomic reads are free on x86/x64.
 	const LogItemVector * const loggerItems = logger.logItems.load(std::memory_order_acquire);
 	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_relaxed);
-- 
2.43.0


From bcfd784b6b89f214f073ea644ca1425f2e16b2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:06 +0000
Subject: [PATCH 065/122] fix: Include statements in logging configurations

---
 src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp | 3 ++-
 src/main/cpp/Balau/Logging/Impl/LoggingState.cpp          | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp b/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
index c8d7097..7db0123 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
@@ -33,8 +33,9 @@ class LoggerPropertyVisitor : private Lang::Property::PropertyVisitor {
 		LoggerTreeNode * currentLoggerTreeNode = nullptr;
 	};
 
-	public: LoggerTree visit(const Lang::Property::AST::Properties & properties) {
+	public: LoggerTree visit(const std::shared_ptr<Resource::Uri> & uri, const Lang::Property::AST::Properties & properties) {
 		LoggerPropertyAstPayload payload;
+		uris.push(uri);
 		visit(payload, properties);
 		return payload.loggerTree;
 	}
diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index bb7ba9f..588b059 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -903,10 +903,10 @@ void LoggingState::setFormats(LoggerTree & theLoggers) {
 
 LoggerTree LoggingState::parseConfiguration(const std::string & configurationText) {
 	printLoggingDebugMessage("parseConfiguration called with text:\n" + configurationText);
-	Resource::StringUri input(configurationText);
+	std::shared_ptr<Resource::Uri> input = std::make_shared<Resource::StringUri>(configurationText);
 	Lang::Property::AST::Properties properties = Lang::Property::PropertyParserService::parse(input);
 	LoggerPropertyVisitor visitor;
-	return visitor.visit(properties);
+	return visitor.visit(input, properties);
 }
 
 LoggerTree LoggingState::parseConfiguration(const std::unique_ptr<EnvironmentProperties> & configuration) {
-- 
2.43.0


From 8d0f3acc9b3146b3acf06b2222811d5b511b4dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:02 +0000
Subject: [PATCH 066/122] fix: the abbreviated namespace of a logger whose
 descendant was configured first

---
 src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp b/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp
index 9213025..a82d1ca 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp
@@ -103,7 +103,7 @@ class LoggerConfigurationVisitor {
 			for (size_t m = 0; m < nameSpace.size(); m++) {
 				std::string identifier = std::string(nameSpace[m]);
 				nameSpaceStr += prefix + identifier;
-				std::string thisNs = ns + prefix + (m < nameSpace.size() - 1 ? identifier.substr(0, 1) : identifier);
+				std::string thisNs = ns + prefix + identifier;
 				ns += prefix + identifier.substr(0, 1);
 				prefix = ".";
 				loggerTreeNode = &loggerTreeNode->findOrAddChild(
-- 
2.43.0


From 505ecced7f3c576da4d89ecdd190a31a50304b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:34 +0000
Subject: [PATCH 067/122] fix: getting the configuration of a logger while the
 logging system is reconfigured

---
 src/main/cpp/Balau/Logging/Impl/LoggingState.cpp | 5 +++++
 src/main/cpp/Balau/Logging/Impl/LoggingState.hpp | 3 +++
 src/main/cpp/Balau/Logging/Logger.cpp            | 2 +-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index 588b059..7f7cbe6 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -223,6 +223,11 @@ void LoggingState::flushAll() {
 	performFlushAll();
 }
 
+std::map<std::string, std::string> LoggingState::getProperties(const Logger & logger) {
+	std::lock_guard<std::mutex> lock(loggingStateHolder().mutex);
+	return logger.properties;
+}
+
 void LoggingState::configure(std::string_view configurationText,
                              const std::map<std::string, std::string> & placeholders) {
 	std::lock_guard<std::mutex> lock(loggingStateHolder().mutex);
diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp
index 5d19941..d7da225 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp
@@ -64,6 +64,9 @@ class LoggingState final {
 	// Flush all logging streams.
 	void flushAll();
 
+	// Get a copy of the configuration properties of the supplied logger.
+	std::map<std::string, std::string> getProperties(const Logger & logger);
+
 	// Reconfigure the logging system from the supplied configuration text.
 	void configure(std::string_view configurationText, const std::map<std::string, std::string> & placeholders);
 
diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index c0019e1..782d0b8 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -82,7 +82,7 @@ std::string Logger::getConfiguration() const {
 
 	stream << nameSpace << " {\n";
 
-	for (const auto & property : properties) {
+	for (const auto & property : LoggingState::loggingSystemState().getProperties(*this)) {
 		stream << "    " << property.first << " = " << property.second << "\n";
 	}
 
-- 
2.43.0


From f2d62de2a8e710e1d1f1072b224d168e62a3ea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:02 +0000
Subject: [PATCH 068/122] fix: a crash of the first test in the multi-process
 execution models of the test runner

---
 .../Testing/Impl/MultiProcessTestRunnerExecutor.hpp    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
index cb22811..e6df74c 100644
--- a/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
@@ -59,7 +59,8 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 		// Shared atomic int, providing the next test case index to run.
 		std::atomic_uint nextTestIndex { 0 };
 
-		// Non shared ints, providing the current test case index that a child process is running.
+		// Non shared ints, providing one more than the current test case index that a child process is running.
+		// Zero represents no test case.
 		// These are checked when a child process starts up in order to determine if a child process seg-faulted.
 		std::array<unsigned int, TestRunnerLimits::MaxConcurrency> currentTestIndices { 0 };
 	};
@@ -138,8 +139,8 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 		// Check for previous failed test due to segfault of previous child process.
 		unsigned int testIndex = getCurrentTestIndex(childProcessIndex);
 
-		if (testIndex != 0) {
-			reportSegFaultedTest(pidStr, tests[testIndex]);
+		if (testIndex != 0 && testIndex <= tests.size()) {
+			reportSegFaultedTest(pidStr, tests[testIndex - 1]);
 		}
 
 		if (singleShot) {
@@ -198,6 +199,7 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 		return str.str();
 	}
 
+	// Returns one more than the index of the child process' current test case, or zero if there is none.
 	private: unsigned int getCurrentTestIndex(unsigned int childProcessIndex) {
 		return sharedState->currentTestIndices[childProcessIndex];
 	}
@@ -208,7 +210,7 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 
 	private: unsigned int claimNextTestIndex(unsigned int childProcessIndex) {
 		unsigned int thisTestIndex = sharedState->nextTestIndex++;
-		sharedState->currentTestIndices[childProcessIndex] = thisTestIndex;
+		sharedState->currentTestIndices[childProcessIndex] = thisTestIndex + 1;
 		return thisTestIndex;
 	}
 };
-- 
2.43.0


From c42ebbcc741566e109e236583b948481ffce0a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:03 +0000
Subject: [PATCH 069/122] fix: a test that exits its process in the worker
 processes execution model of the test runner

---
 .../Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp | 8 +++++++-
 .../Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp    | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
index e6df74c..d123726 100644
--- a/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
@@ -139,7 +139,7 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 		// Check for previous failed test due to segfault of previous child process.
 		unsigned int testIndex = getCurrentTestIndex(childProcessIndex);
 
-		if (testIndex != 0 && testIndex <= tests.size()) {
+		if (hasUnfinishedTest(childProcessIndex)) {
 			reportSegFaultedTest(pidStr, tests[testIndex - 1]);
 		}
 
@@ -199,6 +199,12 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 		return str.str();
 	}
 
+	// Did the child process with the specified index terminate whilst it was running a test?
+	protected: bool hasUnfinishedTest(unsigned int childProcessIndex) {
+		const unsigned int testIndex = getCurrentTestIndex(childProcessIndex);
+		return testIndex != 0 && testIndex <= tests.size();
+	}
+
 	// Returns one more than the index of the child process' current test case, or zero if there is none.
 	private: unsigned int getCurrentTestIndex(unsigned int childProcessIndex) {
 		return sharedState->currentTestIndices[childProcessIndex];
diff --git a/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp
index 0aef7a0..00a04ef 100644
--- a/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp
@@ -123,9 +123,13 @@ class WorkerProcessesTestRunnerExecutor : public MultiProcessTestRunnerExecutor
 							);
 						}
 
+						// A test that exits the child process prevents the child process from finishing its work.
+						const bool unfinished = hasUnfinishedTest((unsigned int) pidIndexByPid.at(pid));
+
 						pidIndexByPid.erase(pid);
 						// Negative entry in pid vector indicates no regen.
-						pid = -1;
+						pid = unfinished ? 0 : -1;
+						childProcessesRegenRequired = childProcessesRegenRequired || unfinished;
 
 						break;
 					}
-- 
2.43.0


From c125ea0f2889aee2cbd5c0fbbe61c8d891ac1f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:12 +0000
Subject: [PATCH 070/122] fix: test runs without a report generator

---
 src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
index d4fc30e..6c568a4 100644
--- a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
@@ -306,8 +306,10 @@ class TestRunnerExecutor {
 							totalCoreTime += groupDuration;
 							writer << " Group duration (core clock time) = " << durationStr(groupDuration) << "\n";
 
-							// Call the report generator for this completed test group.
-							reportGenerator->generate(*test.group, groupDuration, groupTestResults);
+							// Call the report generator (if there is one) for this completed test group.
+							if (reportGenerator) {
+								reportGenerator->generate(*test.group, groupDuration, groupTestResults);
+							}
 
 							break;
 						}
-- 
2.43.0


From 71e8be9bc17e20d3390896dd7b3c17254a466182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:53 +0000
Subject: [PATCH 071/122] fix: test reports of groups with the same name in
 different namespaces

---
 src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
index 6c568a4..455eb32 100644
--- a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
@@ -296,7 +296,7 @@ class TestRunnerExecutor {
 					groupTestResults.reserve(groupCount);
 
 					for (auto & thisTestResult : testResults) {
-						if (thisTestResult.groupIndex == testResult.groupIndex) {
+						if (tests[thisTestResult.testIndex].group->getGroupName() == testGroupName) {
 							groupTestResults.push_back(&thisTestResult);
 							groupDuration += std::chrono::nanoseconds(thisTestResult.duration);
 						}
-- 
2.43.0


From 952a3b9b5b40c1dc28550eaa986bd1e213dae02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:05 +0000
Subject: [PATCH 072/122] fix: zippers and unzippers that were never opened

---
 src/main/cpp/Balau/Util/Zip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 4d0e60e..0686c74 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -752,7 +752,7 @@ class Unzipper {
 		ThrowBalauException(Exception::ZipException, errorMessage + ": " + std::string(errorString) + ".", path);
 	}
 
-	protected: void * archive;
+	protected: void * archive = nullptr;
 	protected: Resource::File path;
 };
 
-- 
2.43.0


From ca1f02d9eb982c7a16d0edfadcaaa30e6e32e69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:05 +0000
Subject: [PATCH 073/122] fix: zip entries larger than 2048 bytes read as
 strings

---
 src/main/cpp/Balau/Util/Zip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 0686c74..62598e6 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -637,7 +637,7 @@ class Unzipper {
 		std::array<char, 1024 * 2> buffer {};
 
 		while (bytesRemaining > 0) {
-			long long bytesRead = zip_fread(zipFile, buffer.data(), bytesRemaining);
+			long long bytesRead = zip_fread(zipFile, buffer.data(), buffer.size());
 
 			if (bytesRead < 0) {
 				// TODO check that this is the right thing to do.
-- 
2.43.0


From 51f5ffe951a111f628ecb8dbd96e7006e6f27f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:05 +0000
Subject: [PATCH 074/122] fix: access by index to entries of a zip archive that
 is not open

---
 src/main/cpp/Balau/Util/Zip.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 62598e6..575a0a2 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -364,6 +364,7 @@ class Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: std::string getEntryName(long long index) const {
+		Impl::ZipUtilities<>::checkOpen(*this);
 		ZipEntryInfo info;
 
 		try {
@@ -409,6 +410,7 @@ class Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: void getEntryInfo(long long index, ZipEntryInfo & info) const {
+		Impl::ZipUtilities<>::checkOpen(*this);
 		zip_stat_t sb {};
 
 		if (zip_stat_index(Impl::ZipUtilities<>::cast(archive), index, 0, &sb) < 0) {
@@ -454,6 +456,7 @@ class Unzipper {
 	/// @throw ZipException if the entry comment could not be obtained
 	///
 	public: std::string readEntryComment(long long index) const {
+		Impl::ZipUtilities<>::checkOpen(*this);
 		const char * comment = zip_file_get_comment(
 			Impl::ZipUtilities<>::cast(archive)
 			, index
-- 
2.43.0


From ca2a121e1e3b9e8551b84bbd33e3a4a11bcc7971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:05 +0000
Subject: [PATCH 075/122] fix: data supplied to a zipper in memory that changes
 or goes away before the commit

---
 src/main/cpp/Balau/Util/Zip.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 575a0a2..0cd268d 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -42,6 +42,7 @@
 
 #include <algorithm>
 #include <chrono>
+#include <cstdlib>
 #include <iosfwd>
 #include <sstream>
 
@@ -899,7 +900,7 @@ class Zipper : public Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: void putEntry(const std::string & name, const std::vector<char> & bytes) {
-		putEntry(name, [&bytes, this] () { return zip_source_buffer(Impl::ZipUtilities<>::cast(archive), bytes.data(), bytes.size(), 0); });
+		putEntry(name, [&bytes, this] () { return createBufferSource(bytes.data(), bytes.size()); });
 	}
 
 	///
@@ -914,7 +915,7 @@ class Zipper : public Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: void putEntry(const std::string & name, const std::string & bytes) {
-		putEntry(name, [&bytes, this] () { return zip_source_buffer(Impl::ZipUtilities<>::cast(archive), bytes.c_str(), bytes.length(), 0); });
+		putEntry(name, [&bytes, this] () { return createBufferSource(bytes.data(), bytes.length()); });
 	}
 
 	///
@@ -1016,6 +1017,24 @@ class Zipper : public Unzipper {
 
 	////////////////////////// Private implementation /////////////////////////
 
+	// Create a source from a copy of the data, which LibZip reads when the transaction is committed.
+	private: zip_source * createBufferSource(const char * data, size_t size) {
+		void * copy = std::malloc(size > 0 ? size : 1);
+
+		if (copy == nullptr) {
+			return nullptr;
+		}
+
+		std::copy_n(data, size, static_cast<char *>(copy));
+		zip_source * const source = zip_source_buffer(Impl::ZipUtilities<>::cast(archive), copy, size, 1);
+
+		if (source == nullptr) {
+			std::free(copy);
+		}
+
+		return source;
+	}
+
 	// Common implementation for putEntry methods.
 	private: template <typename SourceFunctionT> void putEntry(const std::string & name, SourceFunctionT getSource) {
 		Impl::ZipUtilities<>::checkOpen(*this);
-- 
2.43.0


From 840cf4f37dce3621d4f9527716c6a9e69d7382d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:32 +0000
Subject: [PATCH 076/122] fix: renaming and deleting directories in zip
 archives

---
 src/main/cpp/Balau/Util/Zip.hpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 0cd268d..35ce472 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -1060,14 +1060,29 @@ class Zipper : public Unzipper {
 		throwZipException("Could not create a zip source object to write with");
 	}
 
+	// Get the names of the entries as modified so far in the transaction.
+	private: std::vector<std::string> currentEntryNames() const {
+		std::vector<std::string> names;
+		const long long count = zip_get_num_entries(Impl::ZipUtilities<>::cast(archive), 0);
+
+		for (long long m = 0; m < count; m++) {
+			const char * name = zip_get_name(Impl::ZipUtilities<>::cast(archive), m, 0);
+
+			// Entries that have been deleted have no name.
+			if (name != nullptr) {
+				names.emplace_back(name);
+			}
+		}
+
+		return names;
+	}
+
 	// Rename a directory entry and all its descendants.
 	private: void renameDirectory(const std::string & cleanName, const std::string & newCleanName) {
-		std::vector<std::string> names = entryNames();
-
-		for (auto & entryName : names) {
+		for (auto & entryName : currentEntryNames()) {
 			if (Strings::startsWith(entryName, cleanName)) {
 				std::string newEntryName = newCleanName + entryName.substr(cleanName.length());
-				renameFile(cleanName, newEntryName);
+				renameFile(entryName, newEntryName);
 			}
 		}
 	}
@@ -1083,11 +1098,9 @@ class Zipper : public Unzipper {
 
 	// Delete a directory entry and all its descendants.
 	private: void deleteDirectory(const std::string & cleanName) {
-		std::vector<std::string> names = entryNames();
-
-		for (auto & entryName : names) {
+		for (auto & entryName : currentEntryNames()) {
 			if (Strings::startsWith(entryName, cleanName)) {
-				deleteFile(cleanName);
+				deleteFile(entryName);
 			}
 		}
 	}
-- 
2.43.0


From b3eee84df88bfa3927f3d3f1a983e45517dd734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:32 +0000
Subject: [PATCH 077/122] fix: entry names of the original zip archive in a
 transaction that deleted entries

---
 src/main/cpp/Balau/Util/Zip.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 35ce472..597d94f 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -293,7 +293,7 @@ class Unzipper {
 	///
 	public: long long entryCount() const {
 		Impl::ZipUtilities<>::checkOpen(*this);
-		const long long count = zip_get_num_entries(Impl::ZipUtilities<>::cast(archive), 0);
+		const long long count = zip_get_num_entries(Impl::ZipUtilities<>::cast(archive), ZIP_FL_UNCHANGED);
 
 		if (count < 0) {
 			// Should never happen, as checkOpen is called first.
@@ -320,7 +320,7 @@ class Unzipper {
 		const long long count = entryCount();
 
 		for (long long m = 0; m < count; m++) {
-			if (zip_stat_index(Impl::ZipUtilities<>::cast(archive), m, 0, &sb) != 0) {
+			if (zip_stat_index(Impl::ZipUtilities<>::cast(archive), m, ZIP_FL_UNCHANGED, &sb) != 0) {
 				throwZipException("Could not read information for entry number " + ::toString(m));
 			}
 
-- 
2.43.0


From 116ebcde823f5bddb1a60cc4f34943d52b20ddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:32 +0000
Subject: [PATCH 078/122] fix: the password of zip file URIs was not used

---
 src/main/cpp/Balau/Resource/ZipFile.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/ZipFile.hpp b/src/main/cpp/Balau/Resource/ZipFile.hpp
index f826863..7be7a7b 100644
--- a/src/main/cpp/Balau/Resource/ZipFile.hpp
+++ b/src/main/cpp/Balau/Resource/ZipFile.hpp
@@ -209,7 +209,8 @@ class ZipFile : public File {
 	/// Create a new zip file by moving the contents of the supplied instance.
 	///
 	public: ZipFile(ZipFile && zipFile) noexcept
-		: File(std::move(zipFile)) {}
+		: File(std::move(zipFile))
+		, password(std::move(zipFile.password)) {}
 
 	///
 	/// Assign the zip file by copying the supplied instance.
@@ -266,7 +267,7 @@ class ZipFile : public File {
 	}
 
 	public: std::unique_ptr<RecursiveUriIterator> recursiveIterator() const override {
-		return std::unique_ptr<RecursiveUriIterator>(new RecursiveZipFileUriIterator(*this, false, ""));
+		return std::unique_ptr<RecursiveUriIterator>(new RecursiveZipFileUriIterator(*this, false, password));
 	}
 
 	public: std::unique_ptr<UriIterator> iterator() const override {
-- 
2.43.0


From a127f9e9f3d1a9a765f72ac33df819e810e97af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:43 +0000
Subject: [PATCH 079/122] fix: the input stream of the contents of a gzipped
 file

---
 src/main/cpp/Balau/Util/Compression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Compression.hpp b/src/main/cpp/Balau/Util/Compression.hpp
index afabcb2..97bc730 100644
--- a/src/main/cpp/Balau/Util/Compression.hpp
+++ b/src/main/cpp/Balau/Util/Compression.hpp
@@ -36,6 +36,7 @@
 #include <iosfwd>
 #include <sstream>
 
+#include <boost/iostreams/device/file.hpp>
 #include <boost/iostreams/filtering_stream.hpp>
 
 namespace Balau {
@@ -131,11 +132,10 @@ struct GZip final {
 	/// @return an input stream wrapper supplying a uncompressed stream
 	///
 	static void gunzip(const Resource::File & input, std::unique_ptr<std::istream> & stream) {
-		boost::filesystem::ifstream inputStream(input.getEntry(), std::ios::binary);
 		stream = std::make_unique<boost::iostreams::filtering_istream>();
 		auto * filterStream = static_cast<boost::iostreams::filtering_istream *>(stream.get());
 		filterStream->push(boost::iostreams::gzip_decompressor());
-		filterStream->push(inputStream);
+		filterStream->push(boost::iostreams::file_source(input.toRawString(), std::ios::binary));
 	}
 
 	///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 2cadf32d810edca0b0c41b74cef8e2649f213d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:20 +0000
Subject: [PATCH 080/122] fix: damaged zip entries were read without an error

---
 src/main/cpp/Balau/Util/Zip.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 597d94f..cb3b3fd 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -598,7 +598,7 @@ class Unzipper {
 		while (bytesRemaining > 0) {
 			long long bytesRead = zip_fread(zipFile, data, bytesRemaining);
 
-			if (bytesRead < 0) {
+			if (bytesRead <= 0) {
 				// TODO check that this is the right thing to do.
 				if (cleanName.empty()) {
 					throwZipException("Could not read data for entry with index " + ::toString(info.index));
@@ -611,6 +611,7 @@ class Unzipper {
 			bytesRemaining -= bytesRead;
 		}
 
+		checkEndOfEntry(zipFile, info);
 		return bytes;
 	}
 
@@ -643,7 +644,7 @@ class Unzipper {
 		while (bytesRemaining > 0) {
 			long long bytesRead = zip_fread(zipFile, buffer.data(), buffer.size());
 
-			if (bytesRead < 0) {
+			if (bytesRead <= 0) {
 				// TODO check that this is the right thing to do.
 				if (cleanName.empty()) {
 					throwZipException("Could not read data for entry with index " + ::toString(info.index));
@@ -657,9 +658,19 @@ class Unzipper {
 			bytesRemaining -= bytesRead;
 		}
 
+		checkEndOfEntry(zipFile, info);
 		return str;
 	}
 
+	// LibZip verifies the data of an entry when the end of the data is read.
+	private: void checkEndOfEntry(zip_file_t * zipFile, const ZipEntryInfo & info) const {
+		char c;
+
+		if (zip_fread(zipFile, &c, 1) != 0) {
+			throwZipException("The data is damaged for entry with name " + info.name);
+		}
+	}
+
 	// Used in the cleanUpName method.
 	protected: enum class EntryType {
 		Directory, File, Either
-- 
2.43.0


From 5799f4b11ebb8731c58de21f5af00e56dffded36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:34 +0000
Subject: [PATCH 081/122] fix: the URI of the resources of zip entries that no
 longer exist

---
 src/main/cpp/Balau/Resource/ZipEntry.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/ZipEntry.hpp b/src/main/cpp/Balau/Resource/ZipEntry.hpp
index b1c3b12..013ffcd 100644
--- a/src/main/cpp/Balau/Resource/ZipEntry.hpp
+++ b/src/main/cpp/Balau/Resource/ZipEntry.hpp
@@ -360,7 +360,7 @@ class ZipEntryByteReadResource : public ByteReadResource {
 		: entry(entry_)
 		, stream(new boost::iostreams::stream<Impl::ZipEntrySource>(Impl::ZipEntrySource(entry.archive, entry.entryIndex))) {}
 
-	private: const ZipEntry & entry;
+	private: const ZipEntry entry;
 	private: std::unique_ptr<boost::iostreams::stream<Impl::ZipEntrySource>> stream;
 };
 
@@ -406,7 +406,7 @@ class ZipEntryUtf8To32ReadResource : public Utf8To32ReadResource {
 
 	friend class ZipEntry;
 
-	private: const ZipEntry & entry;
+	private: const ZipEntry entry;
 	private: std::unique_ptr<boost::iostreams::stream<Impl::ZipEntrySource>> utf8Stream;
 	private: std::istream & ref;
 	private: std::unique_ptr<istream_utf8_utf32> utf32Stream;
-- 
2.43.0


From 4580450afaf4879ec107f3f86a94ae867bea4000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:18 +0000
Subject: [PATCH 082/122] fix: paths normalised with "." components or with
 ".." that goes back past an already removed component

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 33 +++----------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index cf4a049..7e1daf5 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -68,38 +68,15 @@ struct UriComponents {
 		const auto pathComponents = Util::Strings::split(path, "/");
 		const bool absolute = Util::Strings::startsWith(path, "/");
 		std::vector<std::string_view> newPathComponents;
-		std::vector<size_t> pendingComponents;
-		size_t index = 0;
-		bool lastWasDotDot = false;
 
 		for (const auto & pathComponent : pathComponents) {
-			if (pathComponent == "..") {
-				if (!pendingComponents.empty()) {
-					pendingComponents.pop_back();
-					lastWasDotDot = true;
-				} else {
-					newPathComponents.push_back(pathComponent);
-				}
+			if (pathComponent == ".") {
+				continue;
+			} else if (pathComponent == ".." && !newPathComponents.empty() && newPathComponents.back() != "..") {
+				newPathComponents.pop_back();
 			} else {
-				if (lastWasDotDot) {
-					// Commit pending components.
-					for (size_t componentIndex : pendingComponents) {
-						newPathComponents.push_back(pathComponents[componentIndex]);
-					}
-
-					pendingComponents.clear();
-					lastWasDotDot = false;
-				}
-
-				pendingComponents.push_back(index);
+				newPathComponents.push_back(pathComponent);
 			}
-
-			++index;
-		}
-
-		// Commit remaining pending components.
-		for (size_t componentIndex : pendingComponents) {
-			newPathComponents.push_back(pathComponents[componentIndex]);
 		}
 
 		return (absolute ? "/" : "") + Util::Strings::joinContainer("/", newPathComponents);
-- 
2.43.0


From 7fe4c35ac2209689d95801edc205d04c3f5e27eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:18 +0000
Subject: [PATCH 083/122] fix: URIs without a scheme or with an invalid port
 were accepted or raised standard library exceptions

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index 7e1daf5..83831a1 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -166,6 +166,10 @@ struct UriComponents {
 			}
 		}
 
+		if (c != U':') {
+			ThrowBalauException(Exception::InvalidUriException, "Invalid scheme (no colon).");
+		}
+
 		schemeEndOffset = short(offset - 1);
 		int userinfoEnd = -1;
 
@@ -304,10 +308,20 @@ struct UriComponents {
 
 		// Pre-convert the port into an unsigned short if it is set.
 		if (portOffset != -1) {
-			const unsigned long p = std::stoul(uri.substr((size_t) portOffset));
+			unsigned long p = 0;
 
-			if (p > UINT16_MAX) {
-				ThrowBalauException(Exception::InvalidUriException, std::string("Invalid port number: ") + ::toString(p));
+			for (int i = portOffset; i < pathOffset; ++i) {
+				const char digit = uri[(size_t) i];
+
+				if (digit < '0' || digit > '9') {
+					ThrowBalauException(Exception::InvalidUriException, "Invalid port (not a decimal number).");
+				}
+
+				p = p * 10 + (unsigned long) (digit - '0');
+
+				if (p > UINT16_MAX) {
+					ThrowBalauException(Exception::InvalidUriException, "Invalid port number (too large).");
+				}
 			}
 
 			parsedPort = (unsigned short) p;
-- 
2.43.0


From a5972ac319de4adc554b9b006112601d4a838725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:18 +0000
Subject: [PATCH 084/122] fix: URIs with an empty query or fragment

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index 83831a1..91a8946 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -289,7 +289,7 @@ struct UriComponents {
 		}
 
 		// Optional query section.
-		if (offset < length && c == U'?') {
+		if (c == U'?' && offset > pathOffset) {
 			queryOffset = short(offset);
 
 			while (offset < length) {
@@ -302,7 +302,7 @@ struct UriComponents {
 		}
 
 		// Optional fragment section.
-		if (offset < length) {
+		if (c == U'#' && offset > pathOffset) {
 			fragmentOffset = short(offset);
 		}
 
-- 
2.43.0


From 0b074c55dfc1b918c37b6d0bbc3d7569e5aa8c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:18 +0000
Subject: [PATCH 085/122] fix: URIs with user information but no host

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index 91a8946..3c69e1d 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -214,6 +214,10 @@ struct UriComponents {
 						pathOffset = short(offset);
 						break;
 					} else if (userinfoEnd == -1 && c == U'@') { // End of userinfo.
+						if (hostOffset != -1) {
+							ThrowBalauException(Exception::InvalidUriException, "[ is not allowed in user information.");
+						}
+
 						userinfoEnd = offset - 1;
 						userinfoOffset = short(schemeEndOffset + 3);
 					} else if (c == U':' && (userinfoEnd != -1 || offset > schemeEndOffset + 2)) { // Start of port.
@@ -244,7 +248,7 @@ struct UriComponents {
 				}
 
 				if (hostOffset == -1) {
-					if (userinfoOffset != -1 && offset > userinfoEnd + 1) {
+					if (userinfoOffset != -1) {
 						hostOffset = short(userinfoEnd + 1);
 					} else if (offset > schemeEndOffset + 2) {
 						hostOffset = short(schemeEndOffset + 3);
@@ -259,13 +263,11 @@ struct UriComponents {
 				ThrowBalauException(
 					Exception::InvalidUriException, "Authority section does not contain host information."
 				);
-			} else if (portOffset != -1) {
-				if (portOffset == hostOffset + 1) {
-					ThrowBalauException(
-						Exception::InvalidUriException, "Authority section does not contain host information."
-					);
-				}
-			} else if (offset == hostOffset + 1) {
+			}
+
+			const int hostEnd = portOffset != -1 ? portOffset - 1 : pathOffset != -1 ? pathOffset : offset;
+
+			if (hostEnd == hostOffset) {
 				ThrowBalauException(
 					Exception::InvalidUriException, "Authority section does not contain host information."
 				);
-- 
2.43.0


From bfee5de63893fdd47d42c96bd594e2e8f60258f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:43 +0000
Subject: [PATCH 086/122] fix: relative paths resolved against HTTP URLs, user
 information and port of the resolved URLs

---
 src/main/cpp/Balau/Resource/UriResolve.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriResolve.hpp b/src/main/cpp/Balau/Resource/UriResolve.hpp
index 1b62191..ba31e3d 100644
--- a/src/main/cpp/Balau/Resource/UriResolve.hpp
+++ b/src/main/cpp/Balau/Resource/UriResolve.hpp
@@ -96,6 +96,18 @@ class UriResolve {
 	};
 
 	friend struct UriResolveVisitor;
+
+	// The scheme and authority of the URL, including the user information and the port.
+	private: static std::string schemeAndAuthority(const UriComponents & components) {
+		const std::string & uri = components.getUri();
+		return uri.substr(0, uri.length() - components.pathQueryFragment().length());
+	}
+
+	// The path without the text that follows the last forward slash.
+	private: static std::string basePath(std::string_view path) {
+		const size_t lastSlash = path.rfind('/');
+		return lastSlash == std::string_view::npos ? std::string("/") : std::string(path.substr(0, lastSlash + 1));
+	}
 };
 
 inline std::unique_ptr<Uri> UriResolve::resolve(const Uri & uri, std::string_view path) {
@@ -183,15 +195,16 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const Http & http, std::string_v
 	}
 
 	const UriComponents components(http);
+	const std::string urlBase = schemeAndAuthority(components);
 
 	if (Util::Strings::startsWith(str, "/")) {
 		// Absolute path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), str);
+		std::string url = ::toString(urlBase, str);
 		return std::unique_ptr<Uri>(new Http(url));
 	} else {
 		// Relative path.
 		// TODO normalise path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), "/", components.path(), "/", str);
+		std::string url = ::toString(urlBase, basePath(components.path()), str);
 		return std::unique_ptr<Uri>(new Http(url));
 	}
 }
@@ -209,15 +222,16 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const Https & https, std::string
 	}
 
 	const UriComponents components(https);
+	const std::string urlBase = schemeAndAuthority(components);
 
 	if (Util::Strings::startsWith(str, "/")) {
 		// Absolute path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), str);
+		std::string url = ::toString(urlBase, str);
 		return std::unique_ptr<Uri>(new Https(url));
 	} else {
 		// Relative path.
 		// TODO normalise path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), "/", components.path(), "/", str);
+		std::string url = ::toString(urlBase, basePath(components.path()), str);
 		return std::unique_ptr<Uri>(new Https(url));
 	}
 }
-- 
2.43.0


From 4c8010640ec9e394c584be798caa971164ae8b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:43 +0000
Subject: [PATCH 087/122] fix: paths resolved against zip entries

---
 src/main/cpp/Balau/Resource/UriResolve.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriResolve.hpp b/src/main/cpp/Balau/Resource/UriResolve.hpp
index ba31e3d..af2b8c3 100644
--- a/src/main/cpp/Balau/Resource/UriResolve.hpp
+++ b/src/main/cpp/Balau/Resource/UriResolve.hpp
@@ -271,12 +271,16 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const ZipEntry & zipEntry, std::
 
 	if (Util::Strings::startsWith(str, "/")) {
 		// Absolute path.
-		return std::unique_ptr<Uri>(new ZipEntry(zipEntry.archive, zipEntry.archive.getEntryIndex(str)));
+		// The names of zip entries do not have a leading slash.
+		const std::string entryName = str.substr(1);
+		return std::unique_ptr<Uri>(new ZipEntry(zipEntry.archive, zipEntry.archive.getEntryIndex(entryName)));
 	} else {
 		// Relative path.
 		const std::string entryName = zipEntry.archive.getEntryName(zipEntry.entryIndex);
-		const std::string normalisedName = UriComponents::normalizePath(entryName);
-		const auto newName = normalisedName + str;
+		const size_t lastSlash = entryName.rfind('/');
+		const std::string base = lastSlash == std::string::npos ? std::string() : entryName.substr(0, lastSlash + 1);
+		const std::string normalisedName = UriComponents::normalizePath(base + str);
+		const auto newName = normalisedName + (Util::Strings::endsWith(str, "/") ? "/" : "");
 		return std::unique_ptr<Uri>(new ZipEntry(zipEntry.archive, zipEntry.archive.getEntryIndex(newName)));
 	}
 }
-- 
2.43.0


From 7e580743331b6259e7e579c0a7c2652463281aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:43 +0000
Subject: [PATCH 088/122] fix: relative paths resolved against zip files

---
 src/main/cpp/Balau/Resource/UriResolve.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Resource/UriResolve.hpp b/src/main/cpp/Balau/Resource/UriResolve.hpp
index af2b8c3..e1b3c5a 100644
--- a/src/main/cpp/Balau/Resource/UriResolve.hpp
+++ b/src/main/cpp/Balau/Resource/UriResolve.hpp
@@ -300,7 +300,7 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const ZipFile & zipFile, std::st
 	boost::filesystem::path p(str);
 
 	if (p.is_relative()) {
-		auto p2 = boost::filesystem::relative(p, zipFile.entry.path());
+		auto p2 = (zipFile.entry.path().parent_path() / p).lexically_normal();
 		return std::unique_ptr<Uri>(new ZipFile(File(p2)));
 	} else { // absolute
 		return std::unique_ptr<Uri>(new ZipFile(File(p)));
-- 
2.43.0


From 242dffe14e472e98637c27262d4da0312a218feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 089/122] fix: user information and port of a URL with an
 appended path component

---
 src/main/cpp/Balau/Resource/Url.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Resource/Url.hpp b/src/main/cpp/Balau/Resource/Url.hpp
index d9b0da6..a7282f4 100644
--- a/src/main/cpp/Balau/Resource/Url.hpp
+++ b/src/main/cpp/Balau/Resource/Url.hpp
@@ -73,8 +73,14 @@ class Url : public Uri {
 		const UriComponents components(uri);
 		// TODO normalise path.
 
+		const std::string & base = components.getUri();
+		const std::string_view path = components.path();
+
 		std::string url = ::toString(
-			components.scheme(), "://", components.host(), components.path(), "/", pathComponent
+			  base.substr(0, base.length() - components.pathQueryFragment().length())
+			, path
+			, Util::Strings::endsWith(path, "/") ? "" : "/"
+			, pathComponent
 		);
 
 		if (components.hasQuery()) {
-- 
2.43.0


From 04ed514c33bebc9f68a12602331e4af841e59ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 090/122] fix: files created from file URI strings

---
 src/main/cpp/Balau/Resource/UriFromString.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/Balau/Resource/UriFromString.hpp b/src/main/cpp/Balau/Resource/UriFromString.hpp
index 3048d2d..bc879af 100644
--- a/src/main/cpp/Balau/Resource/UriFromString.hpp
+++ b/src/main/cpp/Balau/Resource/UriFromString.hpp
@@ -63,6 +63,12 @@ inline void fromString(std::unique_ptr<Uri> & uri, std::string_view value) {
 
 	if (scheme == "file") {
 		auto s = value.substr(value.find(':') + 1);
+
+		// Skip the empty authority.
+		if (Util::Strings::startsWith(s, "//")) {
+			s = s.substr(2);
+		}
+
 		path = std::string(s.data(), s.length());
 	} else { // Implicit file schema or zip archive.
 		path = std::string(value);
-- 
2.43.0


From 98aad601c2136d56b009ad3f0cfcf167106e1ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:08 +0000
Subject: [PATCH 091/122] fix: a crash when a moved-from file resource is
 destroyed

---
 src/main/cpp/Balau/Resource/File.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/File.hpp b/src/main/cpp/Balau/Resource/File.hpp
index ed388df..76ba63c 100644
--- a/src/main/cpp/Balau/Resource/File.hpp
+++ b/src/main/cpp/Balau/Resource/File.hpp
@@ -741,7 +741,10 @@ class FileByteReadResource : public ByteReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		// The stream of a moved-from resource is null.
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -792,7 +795,10 @@ class FileByteWriteResource : public ByteWriteResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		// The stream of a moved-from resource is null.
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -849,7 +855,10 @@ class FileUtf8To32ReadResource : public Utf8To32ReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		// The stream of a moved-from resource is null.
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -906,7 +915,10 @@ class FileUtf32To8WriteResource : public Utf32To8WriteResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		// The stream of a moved-from resource is null.
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0


From 5732e8aad19b9531416b38fc465d831eb23be2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:08 +0000
Subject: [PATCH 092/122] fix: reading directories as files

---
 src/main/cpp/Balau/Util/Files.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Files.hpp b/src/main/cpp/Balau/Util/Files.hpp
index 895e52f..5d33720 100644
--- a/src/main/cpp/Balau/Util/Files.hpp
+++ b/src/main/cpp/Balau/Util/Files.hpp
@@ -98,7 +98,7 @@ struct Files final {
 	/// @throw FileNotFoundException if the file does not exist or is not a regular file
 	///
 	static std::vector<std::string> toLines(const Resource::File & file) {
-		if (!file.exists()) {
+		if (!file.isRegularFile()) {
 			ThrowBalauException(Exception::FileNotFoundException, file);
 		}
 
@@ -119,7 +119,7 @@ struct Files final {
 	/// @throw FileNotFoundException if the file does not exist or is not a regular file
 	///
 	static std::string readToString(const Resource::File & file) {
-		if (!file.exists()) {
+		if (!file.isRegularFile()) {
 			ThrowBalauException(Exception::FileNotFoundException, file);
 		}
 
@@ -134,7 +134,7 @@ struct Files final {
 	/// @throw FileNotFoundException if the file does not exist or is not a regular file
 	///
 	static std::vector<char> readToVector(const Resource::File & file) {
-		if (!file.exists()) {
+		if (!file.isRegularFile()) {
 			ThrowBalauException(Exception::FileNotFoundException, file);
 		}
 
-- 
2.43.0


From 5189a06eb5f8ff8c2c3bd64182323f6886296726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:08 +0000
Subject: [PATCH 093/122] fix: the bytes written to string URIs were lost

---
 src/main/cpp/Balau/Resource/StringUri.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/StringUri.hpp b/src/main/cpp/Balau/Resource/StringUri.hpp
index 8e584e6..f3b40a3 100644
--- a/src/main/cpp/Balau/Resource/StringUri.hpp
+++ b/src/main/cpp/Balau/Resource/StringUri.hpp
@@ -252,12 +252,13 @@ class StringUriByteWriteResource : public ByteWriteResource {
 	/// Create a new string Uri byte write resource from the supplied String URI.
 	///
 	public: explicit StringUriByteWriteResource(StringUri & stringUri_)
-		: stringUri(std::make_unique<StringUri>(stringUri_))
-		, stream(stringUri->getString()) {}
+		: stringUri(&stringUri_) {}
 
 	public: StringUriByteWriteResource(StringUriByteWriteResource && rhs) noexcept
-		: stringUri(std::move(rhs.stringUri))
-		, stream(std::move(rhs.stream)) {}
+		: stringUri(rhs.stringUri)
+		, stream(std::move(rhs.stream)) {
+		rhs.stringUri = nullptr;
+	}
 
 	public: ~StringUriByteWriteResource() override {
 		close();
@@ -271,11 +272,16 @@ class StringUriByteWriteResource : public ByteWriteResource {
 		return *stringUri;
 	}
 
-	public: void close() override {}
+	public: void close() override {
+		if (stringUri) {
+			stringUri->append(std::string_view(stream.str()));
+			stream.str("");
+		}
+	}
 
 	////////////////////////// Private implementation /////////////////////////
 
-	private: std::unique_ptr<StringUri> stringUri;
+	private: StringUri * stringUri;
 	private: std::ostringstream stream;
 };
 
-- 
2.43.0


From e53229bd0a4bb0005e47bddbac001669d1455a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:08 +0000
Subject: [PATCH 094/122] fix: closing and moving UTF-32 write resources of
 string URIs

---
 src/main/cpp/Balau/Resource/StringUri.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/cpp/Balau/Resource/StringUri.hpp b/src/main/cpp/Balau/Resource/StringUri.hpp
index f3b40a3..c349d20 100644
--- a/src/main/cpp/Balau/Resource/StringUri.hpp
+++ b/src/main/cpp/Balau/Resource/StringUri.hpp
@@ -347,6 +347,7 @@ class StringUriUtf32To8WriteResource : public Utf32To8WriteResource {
 
 	public: StringUriUtf32To8WriteResource(StringUriUtf32To8WriteResource && rhs) noexcept
 		: stringUri(rhs.stringUri)
+		, closed(rhs.closed)
 		, utf8Stream(std::move(rhs.utf8Stream))
 		, ref(rhs.ref)
 		, utf32Stream(std::move(rhs.utf32Stream)) {}
@@ -364,6 +365,13 @@ class StringUriUtf32To8WriteResource : public Utf32To8WriteResource {
 	}
 
 	public: void close() override {
+		// Moved from or closed already.
+		if (!utf32Stream || closed) {
+			return;
+		}
+
+		closed = true;
+
 		// TODO Determine why the temporary padding is required.. is this a defect?
 		*utf32Stream << U"XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX";
 		utf32Stream->flush();
@@ -376,6 +384,7 @@ class StringUriUtf32To8WriteResource : public Utf32To8WriteResource {
 	////////////////////////// Private implementation /////////////////////////
 
 	private: StringUri & stringUri;
+	private: bool closed = false;
 	private: std::unique_ptr<std::ostringstream> utf8Stream;
 	private: std::ostream & ref;
 	private: std::unique_ptr<ostream_utf32_utf8> utf32Stream;
-- 
2.43.0


From b650a7f76b5abc24ac955be28b59783352f21a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:32 +0000
Subject: [PATCH 095/122] fix: text written to string URIs was cut off

---
 src/main/cpp/Balau/Resource/StringUri.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/StringUri.hpp b/src/main/cpp/Balau/Resource/StringUri.hpp
index c349d20..00082bf 100644
--- a/src/main/cpp/Balau/Resource/StringUri.hpp
+++ b/src/main/cpp/Balau/Resource/StringUri.hpp
@@ -372,13 +372,9 @@ class StringUriUtf32To8WriteResource : public Utf32To8WriteResource {
 
 		closed = true;
 
-		// TODO Determine why the temporary padding is required.. is this a defect?
-		*utf32Stream << U"XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX";
-		utf32Stream->flush();
-		auto s = utf8Stream->str();
-		std::string_view sv = s;
-		std::string_view sv2 = sv.substr(0, sv.length() - 100);
-		stringUri.append(sv2);
+		// Closing the stream converts the text that is still in its buffers.
+		utf32Stream->close();
+		stringUri.append(std::string_view(utf8Stream->str()));
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0


From 04347722c4b225d29f46471bda9bdb73720d4420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:45 +0000
Subject: [PATCH 096/122] fix: octal digits are the digits up to 7

---
 src/main/cpp/Balau/Type/Character.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Type/Character.hpp b/src/main/cpp/Balau/Type/Character.hpp
index b44c4ee..3809b88 100644
--- a/src/main/cpp/Balau/Type/Character.hpp
+++ b/src/main/cpp/Balau/Type/Character.hpp
@@ -71,7 +71,7 @@ struct Character {
 	/// Is the specified code point one of the ASCII characters 0-7.
 	///
 	static bool isOctalDigit(char32_t c) {
-		return c >= U'0' && c <= U'9';
+		return c >= U'0' && c <= U'7';
 	}
 
 	///
-- 
2.43.0


From 85ff1c97e4f277664122008b65e05880eee439ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:45 +0000
Subject: [PATCH 097/122] fix: the last code point is valid

---
 src/main/cpp/Balau/Type/Character.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Type/Character.hpp b/src/main/cpp/Balau/Type/Character.hpp
index 3809b88..95631c4 100644
--- a/src/main/cpp/Balau/Type/Character.hpp
+++ b/src/main/cpp/Balau/Type/Character.hpp
@@ -301,7 +301,7 @@ struct Character {
 	/////////////////////////////// Validation ////////////////////////////////
 
 	static bool isValid(char32_t c) {
-		return c < 0x10FFFF; // Maximum Unicode code point value.
+		return c <= 0x10FFFF; // Maximum Unicode code point value.
 	}
 
 	//////////////////////////////// Mutation /////////////////////////////////
-- 
2.43.0


From b46d25cf9a88b8851dacc1006c41bfdec024b3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:45 +0000
Subject: [PATCH 098/122] fix: counting and replacing the occurrences of an
 empty string did not end

---
 src/main/cpp/Balau/Util/Impl/StringsImpl.hpp | 4 ++++
 src/main/cpp/Balau/Util/Strings.hpp          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp b/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
index 4d5e42c..1a2a841 100644
--- a/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
@@ -43,6 +43,10 @@ void replaceAllImpl(StringT<CharT, T ...> & input, const MatchT & match, const R
 		*count = 0;
 	}
 
+	if (matchLength == 0) {
+		return; // Empty strings do not occur.
+	}
+
 	while (true) {
 		pos = input.find(match, pos);
 
diff --git a/src/main/cpp/Balau/Util/Strings.hpp b/src/main/cpp/Balau/Util/Strings.hpp
index f9c96d0..9bcc558 100644
--- a/src/main/cpp/Balau/Util/Strings.hpp
+++ b/src/main/cpp/Balau/Util/Strings.hpp
@@ -223,6 +223,10 @@ struct Strings final {
 	///
 	template <typename CharT, typename ... T, template <typename ...> class StringT, typename SubstrT>
 	static size_t occurrences(const StringT<CharT, T ...> & str, const SubstrT & substring) {
+		if (Balau::Util::Impl::length(substring) == 0) {
+			return 0; // Empty strings do not occur.
+		}
+
 		size_t index = 0;
 		size_t count = 0;
 
-- 
2.43.0


From 5e9a682bd819072991195c411d64a23702a832ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:45 +0000
Subject: [PATCH 099/122] fix: tabs at the ends of simplified strings

---
 src/main/cpp/Balau/Util/Strings.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Strings.hpp b/src/main/cpp/Balau/Util/Strings.hpp
index 9bcc558..b4cb76a 100644
--- a/src/main/cpp/Balau/Util/Strings.hpp
+++ b/src/main/cpp/Balau/Util/Strings.hpp
@@ -839,8 +839,8 @@ struct Strings final {
 	///
 	static std::string simplify(const std::string_view & input) {
 		static const std::regex conflater("[\t ]+");
-		auto trimmed = trim(input);
-		return replaceAll(trimmed, conflater, " ");
+		const std::string conflated = replaceAll(input, conflater, " ");
+		return std::string(trim(conflated));
 	}
 
 	///////////////////////////////////
-- 
2.43.0


From 92303d718663fa787db77a594a73f8e95d35ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:23 +0000
Subject: [PATCH 100/122] fix: UTF-16 and UTF-32 character to string functions
 accept constant and temporary characters

The functions took their argument by non-constant reference, so constant and
temporary characters were promoted to integers and converted to the digits of
their code points instead.
---
 src/main/cpp/Balau/Type/ToStringA.hpp | 8 ++++----
 src/main/cpp/Balau/Type/ToStringS.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/Balau/Type/ToStringA.hpp b/src/main/cpp/Balau/Type/ToStringA.hpp
index 268640d..d1533a9 100644
--- a/src/main/cpp/Balau/Type/ToStringA.hpp
+++ b/src/main/cpp/Balau/Type/ToStringA.hpp
@@ -579,7 +579,7 @@ inline Balau::U16String<AllocatorT> toString16(char value) {
 /// Convert the supplied UTF-16 character to a UTF-16 string.
 ///
 template <typename AllocatorT>
-inline Balau::U16String<AllocatorT> toString16(char16_t & value) {
+inline Balau::U16String<AllocatorT> toString16(char16_t value) {
 	Balau::U16String<AllocatorT> str;
 	str += value;
 	return str;
@@ -589,7 +589,7 @@ inline Balau::U16String<AllocatorT> toString16(char16_t & value) {
 /// Convert the supplied code point to a UTF-16 string.
 ///
 template <typename AllocatorT>
-inline Balau::U16String<AllocatorT> toString16(char32_t & value) {
+inline Balau::U16String<AllocatorT> toString16(char32_t value) {
 	Balau::U32String<AllocatorT> str;
 	str += value;
 	return toString16<AllocatorT>(str);
@@ -969,7 +969,7 @@ inline Balau::U32String<AllocatorT> toString32(char value) {
 /// Convert the supplied UTF-16 character to a UTF-32 string.
 ///
 template <typename AllocatorT>
-inline Balau::U32String<AllocatorT> toString32(char16_t & value) {
+inline Balau::U32String<AllocatorT> toString32(char16_t value) {
 	Balau::U16String<AllocatorT> str;
 	str += value;
 	return toString32<AllocatorT>(str);
@@ -979,7 +979,7 @@ inline Balau::U32String<AllocatorT> toString32(char16_t & value) {
 /// Convert the supplied code point to a UTF-32 string.
 ///
 template <typename AllocatorT>
-inline Balau::U32String<AllocatorT> toString32(char32_t & value) {
+inline Balau::U32String<AllocatorT> toString32(char32_t value) {
 	Balau::U32String<AllocatorT> str;
 	str += value;
 	return str;
diff --git a/src/main/cpp/Balau/Type/ToStringS.hpp b/src/main/cpp/Balau/Type/ToStringS.hpp
index d41f0d4..696e548 100644
--- a/src/main/cpp/Balau/Type/ToStringS.hpp
+++ b/src/main/cpp/Balau/Type/ToStringS.hpp
@@ -469,7 +469,7 @@ inline std::u16string toString16(char value) {
 ///
 /// Convert the supplied UTF-16 character to a UTF-16 string.
 ///
-inline std::u16string toString16(char16_t & value) {
+inline std::u16string toString16(char16_t value) {
 	std::u16string str;
 	str += value;
 	return str;
@@ -478,7 +478,7 @@ inline std::u16string toString16(char16_t & value) {
 ///
 /// Convert the supplied code point to a UTF-16 string.
 ///
-inline std::u16string toString16(char32_t & value) {
+inline std::u16string toString16(char32_t value) {
 	std::u32string str;
 	str += value;
 	return toString16(str);
@@ -810,7 +810,7 @@ inline std::u32string toString32(char value) {
 ///
 /// Convert the supplied UTF-16 character to a UTF-32 string.
 ///
-inline std::u32string toString32(char16_t & value) {
+inline std::u32string toString32(char16_t value) {
 	std::u16string str;
 	str += value;
 	return toString32(str);
@@ -819,7 +819,7 @@ inline std::u32string toString32(char16_t & value) {
 ///
 /// Convert the supplied code point to a UTF-32 string.
 ///
-inline std::u32string toString32(char32_t & value) {
+inline std::u32string toString32(char32_t value) {
 	std::u32string str;
 	str += value;
 	return str;
-- 
2.43.0


From b28529e18cf995b7521090e6b66de6a122e0d827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:00 +0000
Subject: [PATCH 101/122] fix: isNotNull matcher held a reference to a
 destroyed temporary

---
 src/main/cpp/Balau/Testing/Matchers.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Matchers.hpp b/src/main/cpp/Balau/Testing/Matchers.hpp
index 61bfc4c..ab32b27 100644
--- a/src/main/cpp/Balau/Testing/Matchers.hpp
+++ b/src/main/cpp/Balau/Testing/Matchers.hpp
@@ -50,7 +50,9 @@ inline ExpectedValue<E, MatcherCompareNotEqual, EvNotUsed, EvNotUsed> isNot(cons
 /// Is the actual value not equal to the supplied expected value?
 ///
 inline ExpectedValue<void *, MatcherCompareNotEqual, EvNotUsed, EvNotUsed> isNotNull() {
-	return ExpectedValue<void *, MatcherCompareNotEqual, EvNotUsed, EvNotUsed>(nullptr);
+	// The expected value is held by reference.
+	static void * const null = nullptr;
+	return ExpectedValue<void *, MatcherCompareNotEqual, EvNotUsed, EvNotUsed>(null);
 }
 
 ///
-- 
2.43.0


From 84253c273683a9692505731c65e157d43a7ec007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:00 +0000
Subject: [PATCH 102/122] fix: startsWith matcher compared the memory of vector
 elements instead of the elements

---
 src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
index 12fdc07..9c118bb 100644
--- a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
@@ -247,7 +247,7 @@ template <typename AE> class MatcherFunction<std::vector<AE>, std::vector<AE>, E
 
 	public: bool matches(const std::vector<AE> & actual, const std::vector<AE> & expected) const {
 		// Compilation error? Do the types have the operator functions in scope?
-		return actual.size() >= expected.size() && std::memcmp(actual.data(), expected.data(), expected.size() * sizeof(AE)) == 0;
+		return actual.size() >= expected.size() && std::equal(expected.begin(), expected.end(), actual.begin());
 	}
 
 	public: EvNotUsed value() { return EvNotUsed(); }
-- 
2.43.0


From e82185bd75f603b56104c01b9a19aac50316d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:10 +0000
Subject: [PATCH 103/122] fix: container assertion rendering discarded the
 visible form of control characters

---
 src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
index f93d541..aa08d1a 100644
--- a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
@@ -203,11 +203,11 @@ template <typename ... A, typename ... E, template <typename ...> class Containe
 std::string renderHelper(const ContainerA<A ...> & actual, const ContainerE<E ...> & expected) {
 	auto replaceNonPrintableCharacters = [] (const std::string & input) -> std::string {
 		std::string output = input;
-		Util::Strings::replaceAll(output, "\r\n", "<CRLF>");
-		Util::Strings::replaceAll(output, "\n\r", "<LFCR>");
-		Util::Strings::replaceAll(output, "\n",   "<LF>");
-		Util::Strings::replaceAll(output, "\r",   "<CR>");
-		Util::Strings::replaceAll(output, "\t",   "<TAB>");
+		output = Util::Strings::replaceAll(output, "\r\n", "<CRLF>");
+		output = Util::Strings::replaceAll(output, "\n\r", "<LFCR>");
+		output = Util::Strings::replaceAll(output, "\n",   "<LF>");
+		output = Util::Strings::replaceAll(output, "\r",   "<CR>");
+		output = Util::Strings::replaceAll(output, "\t",   "<TAB>");
 		return output;
 	};
 
-- 
2.43.0


From a95f851a7df1770b6b934388c50e3e6bb20d126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:10 +0000
Subject: [PATCH 104/122] fix: assertion rendering read the last character of
 empty text

---
 src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
index aa08d1a..4525e5a 100644
--- a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
@@ -175,8 +175,8 @@ std::string render(const A & actual, const E & expected) {
 		expectedExtra = true;
 	}
 
-	const bool actualEndsWithNewline = actualString.back() == '\n';
-	const bool expectedEndsWithNewline = expectedString.back() == '\n';
+	const bool actualEndsWithNewline = !actualString.empty() && actualString.back() == '\n';
+	const bool expectedEndsWithNewline = !expectedString.empty() && expectedString.back() == '\n';
 
 	if (actualEndsWithNewline && actualExtra) {
 		builder << std::right << std::setw((int) maxLineNumberWidth) << toString(lineCount)
-- 
2.43.0


From 50c404998b5deac633456d7a5c0a94dfac4fb720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:02 +0000
Subject: [PATCH 105/122] fix: URL decoding read past the end of a text whose
 end is a percent sequence

---
 src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
index 2241bfc..36bb004 100644
--- a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
+++ b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
@@ -127,7 +127,7 @@ struct UrlDecode {
 				case '%': {
 					std::string thisOutput;
 
-					while (input[index] == '%') {
+					while (index < input.length() && input[index] == '%') {
 						++index;
 
 						if (index == input.length()) {
-- 
2.43.0


From 21cca15ef8aefc7318c91ce6d298e9af22b0a967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:02 +0000
Subject: [PATCH 106/122] fix: URL decoding accepted percent encoded bytes that
 are not valid UTF-8

---
 src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
index 36bb004..38fe94e 100644
--- a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
+++ b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
@@ -165,9 +165,9 @@ struct UrlDecode {
 						int offset = 0;
 
 						while (offset != (int) thisOutput.length()) {
-							Character::getNextUtf8Safe(thisOutput, offset);
+							const auto c = (int32_t) Character::getNextUtf8Safe(thisOutput, offset);
 
-							if (offset < 0) {
+							if (c < 0) {
 								// Not valid UTF-8.
 								if (throwOnError) {
 									ThrowBalauException(Exception::NetworkException, "Invalid percent encoded string");
-- 
2.43.0


From a85bba3217ad3b353b0f5d35b4afae9f794748c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:02 +0000
Subject: [PATCH 107/122] fix: URL decoding threw conversion exceptions for
 invalid percent sequences, or accepted them

---
 src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
index 38fe94e..d4ea170 100644
--- a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
+++ b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
@@ -29,6 +29,7 @@
 #include <Balau/Exception/NetworkExceptions.hpp>
 #include <Balau/Util/Strings.hpp>
 
+#include <cctype>
 #include <map>
 
 namespace Balau::Network {
@@ -153,6 +154,17 @@ struct UrlDecode {
 
 						// Try to convert the hex character pair into an unsigned byte.
 						std::string_view v = input.substr(x, 2);
+
+						if (!std::isxdigit((unsigned char) v[0]) || !std::isxdigit((unsigned char) v[1])) {
+							// Illegal input.. % character that is not followed by two hexadecimal characters.
+							if (throwOnError) {
+								ThrowBalauException(Exception::NetworkException, "Invalid percent encoded string");
+							}
+
+							index = x;
+							continue;
+						}
+
 						unsigned char b;
 						fromString(b, v, 16);
 						thisOutput += (char) b;
-- 
2.43.0


From a9ace4600e21e0888b67121d1a31023c28c32454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:10 +0000
Subject: [PATCH 108/122] fix: getting the SHA-3 and Keccak hashes changed the
 state of the hash objects

---
 src/main/cpp/Balau/ThirdParty/HashLibrary/keccak.h | 11 +++++++++++
 src/main/cpp/Balau/ThirdParty/HashLibrary/sha3.h   | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/main/cpp/Balau/ThirdParty/HashLibrary/keccak.h b/src/main/cpp/Balau/ThirdParty/HashLibrary/keccak.h
index 6c331dd..54cf723 100644
--- a/src/main/cpp/Balau/ThirdParty/HashLibrary/keccak.h
+++ b/src/main/cpp/Balau/ThirdParty/HashLibrary/keccak.h
@@ -105,6 +105,12 @@ class Keccak //: public Hash
 
 	/// return latest hash as hex characters
 	public: std::string getHash() {
+		// save the hash state, in order to restore it after the final block has been processed
+		uint64_t oldHash[StateSize];
+		for (unsigned int i = 0; i < StateSize; i++) {
+			oldHash[i] = m_hash[i];
+		}
+
 		// process remaining bytes
 		processBuffer();
 
@@ -138,6 +144,11 @@ class Keccak //: public Hash
 			processed += 8;
 		}
 
+		// restore the hash state
+		for (unsigned int i = 0; i < StateSize; i++) {
+			m_hash[i] = oldHash[i];
+		}
+
 		return result;
 	}
 
diff --git a/src/main/cpp/Balau/ThirdParty/HashLibrary/sha3.h b/src/main/cpp/Balau/ThirdParty/HashLibrary/sha3.h
index 52208d0..d3148dc 100644
--- a/src/main/cpp/Balau/ThirdParty/HashLibrary/sha3.h
+++ b/src/main/cpp/Balau/ThirdParty/HashLibrary/sha3.h
@@ -110,6 +110,12 @@ class SHA3 //: public Hash
 
 	/// return latest hash as hex characters
 	public: std::string getHash() {
+		// save the hash state, in order to restore it after the final block has been processed
+		uint64_t oldHash[StateSize];
+		for (unsigned int i = 0; i < StateSize; i++) {
+			oldHash[i] = m_hash[i];
+		}
+
 		// process remaining bytes
 		processBuffer();
 
@@ -143,6 +149,11 @@ class SHA3 //: public Hash
 			processed += 8U;
 		}
 
+		// restore the hash state
+		for (unsigned int i = 0; i < StateSize; i++) {
+			m_hash[i] = oldHash[i];
+		}
+
 		return result;
 	}
 
-- 
2.43.0


From aad6f79f66e9c3ee11ae14e54e068922427fe23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:10 +0000
Subject: [PATCH 109/122] fix: hashing a directory gave the hash of empty
 contents

---
 src/main/cpp/Balau/Util/Hashing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Hashing.hpp b/src/main/cpp/Balau/Util/Hashing.hpp
index 22a3d78..0a93897 100644
--- a/src/main/cpp/Balau/Util/Hashing.hpp
+++ b/src/main/cpp/Balau/Util/Hashing.hpp
@@ -219,7 +219,7 @@ struct Hashing final {
 	////////////////////////// Private implementation /////////////////////////
 
 	private: static std::unique_ptr<boost::filesystem::ifstream> getFileStream(const Resource::File & file) {
-		if (!file.exists()) {
+		if (!file.isRegularFile()) {
 			ThrowBalauException(Exception::FileNotFoundException, file);
 		}
 
-- 
2.43.0


From 6a10f7006722a1be6a75c16bd475c77ee6fa721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:10 +0000
Subject: [PATCH 110/122] fix: hashing a file that could not be opened gave the
 hash of empty contents

---
 src/main/cpp/Balau/Util/Hashing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Hashing.hpp b/src/main/cpp/Balau/Util/Hashing.hpp
index 0a93897..35cb37b 100644
--- a/src/main/cpp/Balau/Util/Hashing.hpp
+++ b/src/main/cpp/Balau/Util/Hashing.hpp
@@ -225,7 +225,7 @@ struct Hashing final {
 
 		auto stream = std::make_unique<boost::filesystem::ifstream>(file.getEntry(), std::ios::in | std::ios::binary);
 
-		if (!stream.get()) {
+		if (!*stream) {
 			ThrowBalauException(Exception::CouldNotOpenException, file.clone());
 		}
 
-- 
2.43.0


From 601e3c203dee50ddf01efe67ca0a9a15432f02c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:25 +0000
Subject: [PATCH 111/122] fix: hexadecimal printing of bytes from 80 to ff
 printed the sign extended value

---
 src/main/cpp/Balau/Util/PrettyPrint.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Util/PrettyPrint.hpp b/src/main/cpp/Balau/Util/PrettyPrint.hpp
index 7e0c408..3d3ce6a 100644
--- a/src/main/cpp/Balau/Util/PrettyPrint.hpp
+++ b/src/main/cpp/Balau/Util/PrettyPrint.hpp
@@ -210,7 +210,7 @@ struct PrettyPrint final {
 			// Return single line.
 
 			for (size_t m = 0; m < byteCount; m++) {
-				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) ptr[m];
+				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) (unsigned char) ptr[m];
 			}
 
 			return builder.str();
@@ -227,7 +227,7 @@ struct PrettyPrint final {
 						return builder.str();
 					}
 
-					builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) ptr[index++];
+					builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) (unsigned char) ptr[index++];
 				}
 
 				builder << " ";
@@ -238,7 +238,7 @@ struct PrettyPrint final {
 					return builder.str();
 				}
 
-				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) ptr[index++];
+				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) (unsigned char) ptr[index++];
 			}
 
 			builder << "\n";
-- 
2.43.0


From c00fbc0673deff214de345d33b37118ebfb71c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:25 +0000
Subject: [PATCH 112/122] fix: hexadecimal printing of lines without groups did
 not end

---
 src/main/cpp/Balau/Util/PrettyPrint.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/PrettyPrint.hpp b/src/main/cpp/Balau/Util/PrettyPrint.hpp
index 3d3ce6a..02c974e 100644
--- a/src/main/cpp/Balau/Util/PrettyPrint.hpp
+++ b/src/main/cpp/Balau/Util/PrettyPrint.hpp
@@ -216,6 +216,22 @@ struct PrettyPrint final {
 			return builder.str();
 		}
 
+		if (groupSize == 0) {
+			// Return lines without groups.
+
+			const size_t bytesPerLine = lineLength < 2 ? 1 : lineLength / 2;
+
+			for (size_t m = 0; m < byteCount; m++) {
+				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) (unsigned char) ptr[m];
+
+				if ((m + 1) % bytesPerLine == 0) {
+					builder << "\n";
+				}
+			}
+
+			return builder.str();
+		}
+
 		size_t index = 0;
 
 		// groupsPerLine > 0
@@ -258,7 +274,7 @@ struct PrettyPrint final {
 	private: static size_t calculateGroupsPerLine(size_t lineLength, size_t groupSize) {
 		const size_t groupCharCount = groupSize * 2;
 
-		if (groupCharCount > lineLength) {
+		if (lineLength == 0 || groupCharCount > lineLength) {
 			return 0;
 		}
 
-- 
2.43.0


From d2f74ad123de867e83d422e51413fa5fee1d42b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:25 +0000
Subject: [PATCH 113/122] fix: zero and negative values were printed with the
 atto prefix

---
 src/main/cpp/Balau/Util/PrettyPrint.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/PrettyPrint.hpp b/src/main/cpp/Balau/Util/PrettyPrint.hpp
index 02c974e..3f861cf 100644
--- a/src/main/cpp/Balau/Util/PrettyPrint.hpp
+++ b/src/main/cpp/Balau/Util/PrettyPrint.hpp
@@ -71,7 +71,9 @@ struct PrettyPrint final {
 	/// @param decimalPlaces the number of decimal places to print
 	///
 	template <typename T> static std::string metricPrefix(const T & value, size_t decimalPlaces) {
-		auto prefix = (int) std::floor(std::log10(value) / std::log10(1000.0));
+		using Real = std::conditional_t<std::is_integral<T>::value, double, T>;
+		const Real magnitude = std::abs((Real) value);
+		auto prefix = magnitude == 0 ? 0 : (int) std::floor(std::log10(magnitude) / std::log10(1000.0));
 
 		if (prefix > 6) {
 			prefix = 6;
@@ -94,7 +96,8 @@ struct PrettyPrint final {
 	/// @param decimalPlaces the number of decimal places to print
 	///
 	template <typename T> static std::string binaryPrefix(const T & value, const size_t decimalPlaces) {
-		auto prefix = (int) std::floor(std::log10((long double) value) / std::log10((long double) 1024.0));
+		const long double magnitude = std::abs((long double) value);
+		auto prefix = magnitude == 0 ? 0 : (int) std::floor(std::log10(magnitude) / std::log10((long double) 1024.0));
 
 		if (prefix > 6) {
 			prefix = 6;
-- 
2.43.0


From 8225c984311f4e05033d618524fdced65b446f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:25 +0000
Subject: [PATCH 114/122] fix: negative durations of a minute or more were
 printed with signs inside them

---
 src/main/cpp/Balau/Util/PrettyPrint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/Balau/Util/PrettyPrint.hpp b/src/main/cpp/Balau/Util/PrettyPrint.hpp
index 3f861cf..402640e 100644
--- a/src/main/cpp/Balau/Util/PrettyPrint.hpp
+++ b/src/main/cpp/Balau/Util/PrettyPrint.hpp
@@ -134,6 +134,7 @@ struct PrettyPrint final {
 		if (totalSeconds < 0.0) {
 			builder << "-";
 			totalSeconds = -totalSeconds;
+			d = -d;
 		}
 
 		const long double fraction = totalSeconds - (long double) (unsigned long long) totalSeconds;
-- 
2.43.0


From 72e5fee9a0fa5904f116f9dfa6606ec3294c766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:25 +0000
Subject: [PATCH 115/122] fix: durations whose decimals round up to a second
 were printed one second short

---
 src/main/cpp/Balau/Util/PrettyPrint.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/PrettyPrint.hpp b/src/main/cpp/Balau/Util/PrettyPrint.hpp
index 402640e..fd84b90 100644
--- a/src/main/cpp/Balau/Util/PrettyPrint.hpp
+++ b/src/main/cpp/Balau/Util/PrettyPrint.hpp
@@ -137,7 +137,15 @@ struct PrettyPrint final {
 			d = -d;
 		}
 
-		const long double fraction = totalSeconds - (long double) (unsigned long long) totalSeconds;
+		long double fraction = totalSeconds - (long double) (unsigned long long) totalSeconds;
+
+		if (totalSeconds >= 60.0 && decimalPlaces != 0 && fixed(fraction, decimalPlaces)[0] != '0') {
+			// The fraction is rounded up to the next second.
+			const std::chrono::duration<unsigned long long> rounded((unsigned long long) totalSeconds + 1);
+			d = std::chrono::duration_cast<std::chrono::duration<Rep, Period>>(rounded);
+			totalSeconds = (long double) rounded.count();
+			fraction = 0;
+		}
 
 		if (totalSeconds == 0.0) {
 			return "0s";
-- 
2.43.0


From cf3c6e59a73e05b82daa4ab807c5e0520861bf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:12 +0000
Subject: [PATCH 116/122] fix: getHomeDirectory did not return when HOME is not
 defined

---
 src/main/cpp/Balau/Util/User.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Util/User.hpp b/src/main/cpp/Balau/Util/User.hpp
index cf699c1..29832dc 100644
--- a/src/main/cpp/Balau/Util/User.hpp
+++ b/src/main/cpp/Balau/Util/User.hpp
@@ -95,9 +95,10 @@ struct User final {
 			int s;
 			size_t bufferSize = 512;
 			std::vector<char> buffer(bufferSize);
-			bool repeat = false;
+			bool repeat;
 
 			do {
+				repeat = false;
 				s = getpwuid_r(getuid(), &pwd, buffer.data(), bufferSize, &result);
 
 				if (result == nullptr) {
@@ -106,7 +107,7 @@ struct User final {
 							  Exception::UserNotFoundException
 							, "Failed to locate the user home directory: user entry not found in passwd."
 						);
-					} else if (errno == ERANGE) {
+					} else if (s == ERANGE) {
 						// Give up at 1MB buffer size.
 						if (bufferSize >= 1048576) {
 							ThrowBalauException(
@@ -122,11 +123,11 @@ struct User final {
 						ThrowBalauException(
 							  Exception::UserNotFoundException
 							, "Failed to locate the user home directory: getpwnam_r raised an error, errno = " +
-							  ::toString(errno)
+							  ::toString(s)
 						);
 					}
 				}
-			} while (!repeat);
+			} while (repeat);
 
 			if (result == nullptr || result->pw_dir == nullptr) {
 				ThrowBalauException(
-- 
2.43.0


From b8d42783dcef1b49a7a6afcfa941a7b0bbfa7869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:12 +0000
Subject: [PATCH 117/122] fix: blanks around XDG_DATA_HOME were part of the
 user data directory

---
 src/main/cpp/Balau/Util/Impl/AppImpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Impl/AppImpl.hpp b/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
index ccb93f7..5640ad1 100644
--- a/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
@@ -47,7 +47,7 @@ struct AppImpl final {
 			const char * xdg = std::getenv("XDG_DATA_HOME");
 
 			if (xdg != nullptr && !Util::Strings::trim(xdg).empty()) {
-				return Resource::File(xdg) / appGroup / appName;
+				return Resource::File(Util::Strings::trim(xdg)) / appGroup / appName;
 			}
 
 			auto home = User::getHomeDirectory();
-- 
2.43.0


From 8a8a43c6f37da289c80ec6c4d04d17a25a8b9590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:44 +0000
Subject: [PATCH 118/122] fix: the runtime data directory was created with
 access for other users

---
 src/main/cpp/Balau/Util/Impl/AppImpl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Impl/AppImpl.hpp b/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
index 5640ad1..83cc994 100644
--- a/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
@@ -148,7 +148,10 @@ struct AppImpl final {
 				}
 			}
 
-			dir.createDirectories();
+			if (dir.createDirectories()) {
+				boost::filesystem::permissions(dir.getEntry(), boost::filesystem::owner_all);
+			}
+
 			return dir;
 		#elif BOOST_OS_WINDOWS
 			#error "The Windows platform is not yet implemented."
-- 
2.43.0


From 4189a2e237c6e81bd1915b16b58466a54bf1ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:47 +0000
Subject: [PATCH 119/122] fix: makeUniqueV did not compile

---
 src/main/cpp/Balau/Util/Memory.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Memory.hpp b/src/main/cpp/Balau/Util/Memory.hpp
index 65c07b5..4f849f9 100644
--- a/src/main/cpp/Balau/Util/Memory.hpp
+++ b/src/main/cpp/Balau/Util/Memory.hpp
@@ -105,14 +105,14 @@ struct Memory final {
 	///
 	/// [End case] Create a vector of unique pointers after transforming the arguments (vector transform version).
 	///
-	/// Given no variadic input references, create an empty shared pointer vector.
+	/// Given no variadic input references, create an empty unique pointer vector.
 	///
 	/// @tparam T the common base type of the input arguments
-	/// @tparam R the return type of which the vector will hold shared pointers
+	/// @tparam R the return type of which the vector will hold unique pointers
 	///
 	template <typename T, typename R = T, typename F>
-	static std::vector<std::shared_ptr<R>> makeUniqueV(F ) {
-		return std::vector<std::shared_ptr<R>>();
+	static std::vector<std::unique_ptr<R>> makeUniqueV(F ) {
+		return std::vector<std::unique_ptr<R>>();
 	}
 
 	////////////////// Make shared - scalar transform version /////////////////
-- 
2.43.0


From f7c27b9deea705a7a05a4fdeafe9171d4cc0fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:10 +0000
Subject: [PATCH 120/122] fix: consuming an empty stream put the destination
 stream in a failed state

---
 src/main/cpp/Balau/Util/Streams.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Streams.hpp b/src/main/cpp/Balau/Util/Streams.hpp
index 71c5c67..cbd915a 100644
--- a/src/main/cpp/Balau/Util/Streams.hpp
+++ b/src/main/cpp/Balau/Util/Streams.hpp
@@ -92,7 +92,10 @@ class Streams final {
 	/// output stream.
 	///
 	public: static void consume(std::ostream & dst, std::istream & src) {
-		dst << src.rdbuf();
+		// Inserting an empty buffer would set the fail bit of the destination.
+		if (src.peek() != std::istream::traits_type::eof()) {
+			dst << src.rdbuf();
+		}
 	}
 
 	///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 3c755c3848663024f6c711d63f093c15e774a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:18 +0000
Subject: [PATCH 121/122] fix: random floating point ranges with a zero or
 negative upper bound did not include it

---
 src/main/cpp/Balau/Util/Impl/RandomImpl.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp b/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
index d9fc5ef..166d123 100644
--- a/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
@@ -20,16 +20,18 @@
 #ifndef COM_BORA_SOFTWARE__BALAU_UTIL_IMPL__RANDOM_IMPL
 #define COM_BORA_SOFTWARE__BALAU_UTIL_IMPL__RANDOM_IMPL
 
+#include <cmath>
+#include <limits>
 #include <random>
 
 namespace Balau::Util::Impl {
 
 inline double inclusivise(double upper) {
-	return std::nextafter(upper, upper > 0.0 ? upper + 1.0 : upper - 1.0);
+	return std::nextafter(upper, std::numeric_limits<double>::max());
 }
 
 inline float inclusivise(float upper) {
-	return std::nextafter(upper, upper > 0.0f ? upper + 1.0f : upper - 1.0f);
+	return std::nextafter(upper, std::numeric_limits<float>::max());
 }
 
 template <typename IntegerT> inline IntegerT inclusivise(IntegerT upper) {
-- 
2.43.0


From ab4b615f6a6ae616bb6a02cfefb144500c0d62ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:18 +0000
Subject: [PATCH 122/122] fix: random floating point numbers could be above the
 upper bound

---
 src/main/cpp/Balau/Util/Impl/RandomImpl.hpp | 9 +++++++++
 src/main/cpp/Balau/Util/Random.hpp          | 9 ++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp b/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
index 166d123..29ca636 100644
--- a/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
@@ -38,6 +38,15 @@ template <typename IntegerT> inline IntegerT inclusivise(IntegerT upper) {
 	return upper;
 }
 
+// The rounding in the uniform real distributions can reach the exclusive upper bound.
+template <typename T> inline T bounded(const std::uniform_real_distribution<T> & , T value, T upper) {
+	return value > upper ? upper : value;
+}
+
+template <typename D, typename T> inline T bounded(const D & , T value, T ) {
+	return value;
+}
+
 } // namespace Balau::Util::Impl
 
 #endif // COM_BORA_SOFTWARE__BALAU_UTIL_IMPL__RANDOM_IMPL
diff --git a/src/main/cpp/Balau/Util/Random.hpp b/src/main/cpp/Balau/Util/Random.hpp
index b9c5142..9d5e9e3 100644
--- a/src/main/cpp/Balau/Util/Random.hpp
+++ b/src/main/cpp/Balau/Util/Random.hpp
@@ -42,20 +42,22 @@ template <typename T, typename D> class RandomNumberGenerator final {
 	///
 	public: RandomNumberGenerator(T lower, T upper)
 		: generator(std::random_device()())
-		, distribution(D(lower, Impl::inclusivise(upper))) {}
+		, distribution(D(lower, Impl::inclusivise(upper)))
+		, upperBound(upper) {}
 
 	///
 	/// Create an explicitly seeded random number generator with a range of [lower, upper].
 	///
 	public: RandomNumberGenerator(T lower, T upper, unsigned int seed)
 		: generator(seed)
-		, distribution(D(lower, Impl::inclusivise(upper))) {}
+		, distribution(D(lower, Impl::inclusivise(upper)))
+		, upperBound(upper) {}
 
 	///
 	/// Get the next random number.
 	///
 	public: T operator () () {
-		return distribution(generator);
+		return Impl::bounded(distribution, distribution(generator), upperBound);
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -65,6 +67,7 @@ template <typename T, typename D> class RandomNumberGenerator final {
 
 	private: std::mt19937 generator;
 	private: D distribution;
+	private: const T upperBound;
 };
 
 /////////////////////// Uniform distribution generators ///////////////////////
-- 
2.43.0

