From 61b396aa547a00af7311cdc54d269dfb198bd093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:19 +0000
Subject: [PATCH 01/76] fix: NdArray computes its number of elements in size_t

The product of the shape was accumulated in a 32-bit (unsigned) int, so that for
instance a {65536, 65536} array accepted an empty container.
---
 NdArray/NdArray/NdArray.h          |  2 +-
 NdArray/NdArray/_impl/NdArray.icpp | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/NdArray/NdArray/NdArray.h b/NdArray/NdArray/NdArray.h
index 911444c..baee815 100644
--- a/NdArray/NdArray/NdArray.h
+++ b/NdArray/NdArray/NdArray.h
@@ -521,7 +521,7 @@ private:
 
     template <typename T2>
     auto resizeImpl(const std::vector<size_t>& shape) -> decltype((void)std::declval<Container<T2>>().resize(size_t{}), void()) {
-      auto new_size = std::accumulate(shape.begin(), shape.end(), 1u, std::multiplies<size_t>());
+      auto new_size = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
       m_container.resize(new_size);
     }
 
diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index 31ae36f..1f90682 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -30,7 +30,7 @@ NdArray<T>::Iterator<Const>::Iterator(ContainerInterface* container_ptr, size_t
                                       const std::vector<size_t>& strides, size_t start)
     : m_container_ptr(container_ptr)
     , m_offset(offset)
-    , m_row_size(std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<size_t>()))
+    , m_row_size(std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>()))
     , m_stride{strides.back()}
     , m_i{start} {}
 
@@ -151,7 +151,7 @@ template <typename T>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container(new ContainerWrapper<std::vector>(m_size)) {
   update_strides();
 }
@@ -161,7 +161,7 @@ template <template <class...> class Container>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, const Container<T>& data)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container{new ContainerWrapper<Container>(data)} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -174,7 +174,7 @@ template <template <class...> class Container>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, Container<T>&& data)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container{new ContainerWrapper<Container>(std::move(data))} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -187,7 +187,7 @@ template <typename II>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, II ibegin, II iend)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container{new ContainerWrapper<std::vector>(ibegin, iend)} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -200,7 +200,7 @@ NdArray<T>::NdArray(const self_type* other)
     : m_offset{0}
     , m_shape{other->m_shape}
     , m_attr_names{other->m_attr_names}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container{other->m_container->copy()} {
   update_strides();
 }
@@ -223,7 +223,7 @@ auto NdArray<T>::reshape(const std::vector<size_t> new_shape) -> self_type& {
   if (!m_attr_names.empty())
     throw std::invalid_argument("Can not reshape arrays with attribute names");
 
-  size_t new_size = std::accumulate(new_shape.begin(), new_shape.end(), 1, std::multiplies<size_t>());
+  size_t new_size = std::accumulate(new_shape.begin(), new_shape.end(), size_t{1}, std::multiplies<size_t>());
   if (new_size != m_size) {
     throw std::range_error("New shape does not match the number of contained elements");
   }
@@ -353,7 +353,7 @@ template <typename T>
 NdArray<T>::NdArray(std::shared_ptr<ContainerInterface> container, size_t offset, std::vector<size_t> shape_,
                     std::vector<size_t> stride, std::vector<std::string> attr_names)
     : m_offset{offset}, m_shape{shape_}, m_stride_size{stride}, m_attr_names{attr_names}, m_container{container} {
-  m_size = std::accumulate(m_shape.begin(), m_shape.end(), 1, std::multiplies<size_t>());
+  m_size = std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>());
 }
 
 template <typename T>
-- 
2.43.0


From 10848fbd431281e4ec361520b785cfa05546c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:19 +0000
Subject: [PATCH 02/76] fix: NdArray iterator post-increment advances and
 returns the old position

---
 NdArray/NdArray/_impl/NdArray.icpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index 1f90682..b2d0c56 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -59,7 +59,9 @@ auto NdArray<T>::Iterator<Const>::operator++() -> Iterator& {
 template <typename T>
 template <bool Const>
 auto NdArray<T>::Iterator<Const>::operator++(int) -> Iterator {
-  return Iterator{m_container_ptr, m_offset, m_row_size, m_stride, m_i + 1};
+  Iterator previous{m_container_ptr, m_offset, m_row_size, m_stride, m_i};
+  ++m_i;
+  return previous;
 }
 
 template <typename T>
-- 
2.43.0


From 788ec4f3ae12a931b62adb37df7d7341327910f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:19 +0000
Subject: [PATCH 03/76] fix: NdArray slices keep the attribute names aligned
 with the last axis

slice() keeps the last axis, so all the names remain valid (it used to drop the
first, shifting every alias by one). rslice() removes the axis that is named.
---
 NdArray/NdArray/_impl/NdArray.icpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index b2d0c56..72a9c82 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -366,15 +366,10 @@ auto NdArray<T>::slice(size_t i) -> self_type {
   if (i >= m_shape[0]) {
     throw std::out_of_range("Axis 0 out of range");
   }
-  std::vector<std::string> attrs;
-  if (!m_attr_names.empty()) {
-    attrs.resize(m_attr_names.size() - 1);
-    std::copy(m_attr_names.begin() + 1, m_attr_names.end(), attrs.begin());
-  }
   auto                offset = m_offset + i * m_stride_size[0];
   std::vector<size_t> stride_(m_stride_size.begin() + 1, m_stride_size.end());
   std::vector<size_t> shape_(m_shape.begin() + 1, m_shape.end());
-  return NdArray(m_container, offset, std::move(shape_), std::move(stride_), std::move(attrs));
+  return NdArray(m_container, offset, std::move(shape_), std::move(stride_), m_attr_names);
 }
 
 template <typename T>
@@ -390,15 +385,10 @@ auto NdArray<T>::rslice(size_t i) -> self_type {
   if (i >= m_shape.back()) {
     throw std::out_of_range("Axis -1 out of range");
   }
-  std::vector<std::string> attrs;
-  if (!m_attr_names.empty()) {
-    attrs.resize(m_attr_names.size() - 1);
-    std::copy(m_attr_names.begin(), m_attr_names.end() - 1, attrs.begin());
-  }
   auto                offset = m_offset + i * m_stride_size.back();
   std::vector<size_t> strides_(m_stride_size.begin(), m_stride_size.end() - 1);
   std::vector<size_t> shape_(m_shape.begin(), m_shape.end() - 1);
-  return NdArray(m_container, offset, std::move(shape_), std::move(strides_), std::move(attrs));
+  return NdArray(m_container, offset, std::move(shape_), std::move(strides_), {});
 }
 
 template <typename T>
-- 
2.43.0


From a1e24b8839093ab37f2e420b2bbc62bb04881378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:19 +0000
Subject: [PATCH 04/76] fix: NdArray::reshape of an rslice keeps the spacing of
 the elements

---
 NdArray/NdArray/_impl/NdArray.icpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index 72a9c82..f4b9ec8 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -229,8 +229,13 @@ auto NdArray<T>::reshape(const std::vector<size_t> new_shape) -> self_type& {
   if (new_size != m_size) {
     throw std::range_error("New shape does not match the number of contained elements");
   }
-  m_shape = new_shape;
+  // The elements of a view may not be contiguous, but they are always evenly spaced
+  auto spacing = m_stride_size.back();
+  m_shape      = new_shape;
   update_strides();
+  for (auto& stride : m_stride_size) {
+    stride *= spacing;
+  }
   return *this;
 }
 
-- 
2.43.0


From 8e5e1f185428ad9bef9ffaec3e19f259aa99d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:19 +0000
Subject: [PATCH 05/76] fix: NdArray::copy of a slice copies the elements of
 the slice

It used to copy the whole container, and to look at its beginning.
---
 NdArray/NdArray/_impl/NdArray.icpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index f4b9ec8..96a326e 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -203,7 +203,13 @@ NdArray<T>::NdArray(const self_type* other)
     , m_shape{other->m_shape}
     , m_attr_names{other->m_attr_names}
     , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
-    , m_container{other->m_container->copy()} {
+    , m_container{nullptr} {
+  if (m_size == other->m_container->size()) {
+    m_container = other->m_container->copy();
+  } else {
+    // other is a view on part of its container
+    m_container.reset(new ContainerWrapper<std::vector>(other->begin(), other->begin() + m_size));
+  }
   update_strides();
 }
 
-- 
2.43.0


From 1a0718a2ad8ae61dd3df54a3254273b6dae87c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:19 +0000
Subject: [PATCH 06/76] fix: NdArray::concatenate on a view does not corrupt
 the shared container

Resizing the container of a slice, or of an array whose container has been
extended via another one, truncates it and writes out of bounds.
---
 NdArray/NdArray/_impl/NdArray.icpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index 96a326e..c537daf 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -347,6 +347,12 @@ auto NdArray<T>::concatenate(const self_type& other) -> self_type& {
       throw std::length_error("The size of all axis except for the first one must match");
   }
 
+  // If this is a view on part of the container, detach from it
+  auto n_elements = std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>());
+  if (m_offset != 0 || m_stride_size.back() != 1 || n_elements != m_container->size()) {
+    *this = copy();
+  }
+
   // New shape
   auto old_size  = m_container->size();
   auto new_shape = m_shape;
-- 
2.43.0


From 519c3ac2efc6b1a8b8a69a917bdb25d66356edd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:34 +0000
Subject: [PATCH 07/76] fix: ThreadPool failure state is protected by the queue
 mutex

The exception pointer was read and written concurrently without synchronisation, and
workers decided to continue before locking the queue, so that a task could be taken
from the queue after a failure had been reported or the pool was being destroyed.
---
 AlexandriaKernel/src/lib/ThreadPool.cpp | 28 +++++++++++++++++--------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/AlexandriaKernel/src/lib/ThreadPool.cpp b/AlexandriaKernel/src/lib/ThreadPool.cpp
index e1fe626..77baece 100644
--- a/AlexandriaKernel/src/lib/ThreadPool.cpp
+++ b/AlexandriaKernel/src/lib/ThreadPool.cpp
@@ -46,10 +46,14 @@ public:
       , m_exception_ptr(exception_ptr) {}
 
   void operator()() {
-    while (m_run_flag.get() && m_exception_ptr == nullptr) {
-      // Check if there is anything it the queue to be done and get it
+    while (true) {
+      // Check if there is anything it the queue to be done and get it. Whether the worker has to stop
+      // is decided while holding the lock, so no task is taken after the pool is stopped or has failed.
       std::unique_ptr<ThreadPool::Task> task_ptr = nullptr;
       std::unique_lock<std::mutex>      lock{m_queue_mutex.get()};
+      if (!m_run_flag.get() || m_exception_ptr.get() != nullptr) {
+        break;
+      }
       if (!m_queue.get().empty()) {
         task_ptr = Euclid::make_unique<ThreadPool::Task>(m_queue.get().front());
         m_queue.get().pop_front();
@@ -61,6 +65,7 @@ public:
         try {
           (*task_ptr)();
         } catch (...) {
+          std::lock_guard<std::mutex> exception_lock{m_queue_mutex.get()};
           m_exception_ptr.get() = std::current_exception();
         }
       } else {
@@ -115,9 +120,12 @@ void waitWorkers(std::vector<std::atomic<bool>>& worker_flags, unsigned int wait
 }  // namespace
 
 bool ThreadPool::checkForException(bool rethrow) {
-  if (m_exception_ptr) {
+  std::unique_lock<std::mutex> lock{m_queue_mutex};
+  auto                         exception_ptr = m_exception_ptr;
+  lock.unlock();
+  if (exception_ptr) {
     if (rethrow) {
-      std::rethrow_exception(m_exception_ptr);
+      std::rethrow_exception(exception_ptr);
     } else {
       return true;
     }
@@ -142,13 +150,13 @@ size_t ThreadPool::activeThreads() const {
 }
 
 void ThreadPool::block() {
-  // Wait for the queue to be empty
-  bool queue_is_empty = false;
-  while (!queue_is_empty && m_exception_ptr == nullptr) {
+  // Wait for the queue to be empty, or for a task to fail
+  bool stop_waiting = false;
+  while (!stop_waiting) {
     std::unique_lock<std::mutex> lock{m_queue_mutex};
-    queue_is_empty = m_queue.empty();
+    stop_waiting = m_queue.empty() || m_exception_ptr != nullptr;
     lock.unlock();
-    if (!queue_is_empty) {
+    if (!stop_waiting) {
       std::this_thread::sleep_for(std::chrono::milliseconds(m_empty_queue_wait_time));
     }
   }
@@ -161,7 +169,9 @@ void ThreadPool::block() {
 ThreadPool::~ThreadPool() {
   // Stop all the workers. They will stop right after they finish the task
   // they already run.
+  std::unique_lock<std::mutex> lock{m_queue_mutex};
   std::fill(m_worker_run_flags.begin(), m_worker_run_flags.end(), false);
+  lock.unlock();
   // Now wait until all the workers have finish any current tasks
   waitWorkers(m_worker_done_flags, m_empty_queue_wait_time);
   for (auto& worker : m_workers) {
-- 
2.43.0


From 9f9fa4660b54cde37b2df5eb3ffa4a0468f9c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:34 +0000
Subject: [PATCH 08/76] fix: ThreadPool without threads does not hold its lock
 while running a task

A task that submits another task, or asks the pool for its state, deadlocked.
---
 AlexandriaKernel/src/lib/ThreadPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AlexandriaKernel/src/lib/ThreadPool.cpp b/AlexandriaKernel/src/lib/ThreadPool.cpp
index 77baece..f49da2d 100644
--- a/AlexandriaKernel/src/lib/ThreadPool.cpp
+++ b/AlexandriaKernel/src/lib/ThreadPool.cpp
@@ -180,10 +180,10 @@ ThreadPool::~ThreadPool() {
 }
 
 void ThreadPool::submit(Task task) {
-  std::lock_guard<std::mutex> lock{m_queue_mutex};
   if (m_worker_run_flags.empty()) {
     task();
   } else {
+    std::lock_guard<std::mutex> lock{m_queue_mutex};
     m_queue.emplace_back(std::move(task));
   }
 }
-- 
2.43.0


From d18f1be753317e274dfdaaed8ff744f196917da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:10 +0000
Subject: [PATCH 09/76] fix: FileHandler try modes do not lock again what they
 already locked

---
 FilePool/FilePool/_impl/FileHandler.icpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index 8e7324c..e3703ee 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -29,10 +29,10 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
   assert(manager);
 
   UniqueLock unique_lock(m_file_mutex, boost::defer_lock);
-  if (try_lock && !unique_lock.try_lock()) {
-    return nullptr;
-  } else {
+  if (!try_lock) {
     unique_lock.lock();
+  } else if (!unique_lock.try_lock()) {
+    return nullptr;
   }
 
   std::lock_guard<std::mutex> this_lock(m_handler_mutex);
@@ -87,10 +87,10 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
   assert(manager);
 
   SharedLock shared_lock(m_file_mutex, boost::defer_lock);
-  if (try_lock && !shared_lock.try_lock()) {
-    return nullptr;
-  } else {
+  if (!try_lock) {
     shared_lock.lock();
+  } else if (!shared_lock.try_lock()) {
+    return nullptr;
   }
 
   std::lock_guard<std::mutex> this_lock(m_handler_mutex);
-- 
2.43.0


From 352c9d7a3fb34befab721fb4cd411d4c9cac8474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:10 +0000
Subject: [PATCH 10/76] fix: FileHandler closes an idle descriptor of another
 type before dropping it

---
 FilePool/FilePool/_impl/FileHandler.icpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index e3703ee..b913134 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -52,6 +52,7 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
   if (!m_available_fd.empty()) {
     auto typed_ptr = dynamic_cast<TypedFdWrapper<TFD>*>(m_available_fd.begin()->second.get());
     if (!typed_ptr) {
+      m_available_fd.begin()->second->close();
       m_available_fd.clear();
     }
   }
-- 
2.43.0


From 98b85bc1d11e1b8279581c96c0dba0bb6369ba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:10 +0000
Subject: [PATCH 11/76] fix: FileHandler does not hold its mutex while the
 manager opens a file

---
 FilePool/FilePool/_impl/FileHandler.icpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index b913134..2668815 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -35,7 +35,7 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
     return nullptr;
   }
 
-  std::lock_guard<std::mutex> this_lock(m_handler_mutex);
+  std::unique_lock<std::mutex> this_lock(m_handler_mutex);
 
   // If we have changed mode, we need to close all existing fd
   if (m_is_readonly) {
@@ -59,7 +59,10 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
 
   // Open one file if we need
   if (m_available_fd.empty()) {
+    // The manager may ask this, or another handler, to close an idle descriptor
+    this_lock.unlock();
     auto fd = manager->open<TFD>(m_path, true, [this](FileManager::FileId id) { return this->close(id); });
+    this_lock.lock();
     m_available_fd[fd.first] =
         std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager.get()));
   }
@@ -94,7 +97,7 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
     return nullptr;
   }
 
-  std::lock_guard<std::mutex> this_lock(m_handler_mutex);
+  std::unique_lock<std::mutex> this_lock(m_handler_mutex);
 
   // If we have changed mode, we need to close all existing fd
   if (!m_is_readonly) {
@@ -115,7 +118,10 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
 
   // Open one file if we need
   if (!typed_ptr) {
-    auto fd   = manager->open<TFD>(m_path, false, [this](FileManager::FileId id) { return this->close(id); });
+    // The manager may ask this, or another handler, to close an idle descriptor
+    this_lock.unlock();
+    auto fd = manager->open<TFD>(m_path, false, [this](FileManager::FileId id) { return this->close(id); });
+    this_lock.lock();
     typed_ptr = new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager.get());
     avail_i   = m_available_fd.emplace(fd.first, std::unique_ptr<TypedFdWrapper<TFD>>(typed_ptr)).first;
   }
-- 
2.43.0


From 752568d374c29908b5bc6c40656b64d599f72388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:10 +0000
Subject: [PATCH 12/76] fix: FileManager does not forget a handler created
 while the previous one was being released

---
 FilePool/src/lib/FileManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FilePool/src/lib/FileManager.cpp b/FilePool/src/lib/FileManager.cpp
index 461b6d1..a1a7c9b 100644
--- a/FilePool/src/lib/FileManager.cpp
+++ b/FilePool/src/lib/FileManager.cpp
@@ -106,7 +106,11 @@ std::shared_ptr<FileHandler> FileManager::getFileHandler(const boost::filesystem
         auto this_shared = this_weak.lock();
         if (this_shared) {
           std::lock_guard<std::mutex> manager_lock(this_shared->m_mutex);
-          this_shared->m_handlers.erase(canonical);
+          // There may be a new handler for the same path already
+          auto iter = this_shared->m_handlers.find(canonical);
+          if (iter != this_shared->m_handlers.end() && iter->second.expired()) {
+            this_shared->m_handlers.erase(iter);
+          }
         }
       }
       delete obj;
-- 
2.43.0


From 6218f517a4c5d2a33dcbcb4ba702cf419dba653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:11 +0000
Subject: [PATCH 13/76] fix: FilePool accessors and close requests do not use a
 handler that is gone

---
 FilePool/FilePool/FileHandler.h          | 23 +++++++++++++++------
 FilePool/FilePool/_impl/FileHandler.icpp | 26 +++++++++++++++---------
 FilePool/src/lib/FileHandler.cpp         |  8 ++++++++
 FilePool/src/lib/FileManager.cpp         | 10 ++++-----
 4 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/FilePool/FilePool/FileHandler.h b/FilePool/FilePool/FileHandler.h
index 00a5dd7..bfcd268 100644
--- a/FilePool/FilePool/FileHandler.h
+++ b/FilePool/FilePool/FileHandler.h
@@ -36,7 +36,7 @@ namespace FilePool {
  * not* close a file being accessed, so it should just refuse to do so and let the FileManager
  * figure it out.
  */
-class FileHandler {
+class FileHandler : public std::enable_shared_from_this<FileHandler> {
 public:
   /// Open modes
   enum Mode { kRead = 0, kWrite = 1, kTry = 2, kTryRead = kTry, kTryWrite = kTry | kWrite };
@@ -74,15 +74,20 @@ private:
 
   template <typename TFD>
   struct TypedFdWrapper : public FdWrapper {
-    FileManager::FileId m_id;
-    TFD                 m_fd;
-    FileManager*        m_file_manager;
+    FileManager::FileId        m_id;
+    TFD                        m_fd;
+    std::weak_ptr<FileManager> m_file_manager;
 
-    TypedFdWrapper(FileManager::FileId id, TFD&& fd, FileManager* manager)
+    TypedFdWrapper(FileManager::FileId id, TFD&& fd, std::weak_ptr<FileManager> manager)
         : m_id(id), m_fd(std::move(fd)), m_file_manager(manager) {}
 
     void close() final {
-      m_file_manager->close(m_id, m_fd);
+      auto manager = m_file_manager.lock();
+      if (manager) {
+        manager->close(m_id, m_fd);
+      } else {
+        OpenCloseTrait<TFD>::close(m_fd);
+      }
     }
   };
 
@@ -104,6 +109,12 @@ private:
    */
   FileHandler(const boost::filesystem::path& path, std::weak_ptr<FileManager> file_manager);
 
+  /**
+   * @return The callback given to the manager to request the closing of a file descriptor, which is safe to
+   *    use even if the handler is gone
+   */
+  std::function<bool(FileManager::FileId)> getRequestClose();
+
   /**
    * This is to be used by the FileManager to request the closing of a file descriptor
    * @param id
diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index 2668815..005ca1a 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -61,10 +61,10 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
   if (m_available_fd.empty()) {
     // The manager may ask this, or another handler, to close an idle descriptor
     this_lock.unlock();
-    auto fd = manager->open<TFD>(m_path, true, [this](FileManager::FileId id) { return this->close(id); });
+    auto fd = manager->open<TFD>(m_path, true, getRequestClose());
     this_lock.lock();
     m_available_fd[fd.first] =
-        std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager.get()));
+        std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager));
   }
 
   assert(m_available_fd.size() == 1);
@@ -75,9 +75,12 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
   auto id        = typed_ptr->m_id;
   m_available_fd.clear();
 
-  auto return_callback = [this, id, manager](TFD&& returned_fd) {
-    std::lock_guard<std::mutex> lambda_this_lock(m_handler_mutex);
-    m_available_fd[id] = std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(id, std::move(returned_fd), manager.get()));
+  // The accessor keeps the handler alive
+  auto self            = shared_from_this();
+  auto return_callback = [self, id, manager](TFD&& returned_fd) {
+    std::lock_guard<std::mutex> lambda_this_lock(self->m_handler_mutex);
+    self->m_available_fd[id] =
+        std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(id, std::move(returned_fd), manager));
   };
 
   manager->notifyUsed(id);
@@ -120,9 +123,9 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
   if (!typed_ptr) {
     // The manager may ask this, or another handler, to close an idle descriptor
     this_lock.unlock();
-    auto fd = manager->open<TFD>(m_path, false, [this](FileManager::FileId id) { return this->close(id); });
+    auto fd = manager->open<TFD>(m_path, false, getRequestClose());
     this_lock.lock();
-    typed_ptr = new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager.get());
+    typed_ptr = new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager);
     avail_i   = m_available_fd.emplace(fd.first, std::unique_ptr<TypedFdWrapper<TFD>>(typed_ptr)).first;
   }
 
@@ -133,9 +136,12 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
   auto id = typed_ptr->m_id;
   m_available_fd.erase(avail_i);
 
-  auto return_callback = [this, id, manager](TFD&& returned_fd) {
-    std::lock_guard<std::mutex> lambda_this_lock(m_handler_mutex);
-    m_available_fd[id] = std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(id, std::move(returned_fd), manager.get()));
+  // The accessor keeps the handler alive
+  auto self            = shared_from_this();
+  auto return_callback = [self, id, manager](TFD&& returned_fd) {
+    std::lock_guard<std::mutex> lambda_this_lock(self->m_handler_mutex);
+    self->m_available_fd[id] =
+        std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(id, std::move(returned_fd), manager));
   };
 
   manager->notifyUsed(id);
diff --git a/FilePool/src/lib/FileHandler.cpp b/FilePool/src/lib/FileHandler.cpp
index 7f121da..36b679e 100644
--- a/FilePool/src/lib/FileHandler.cpp
+++ b/FilePool/src/lib/FileHandler.cpp
@@ -34,6 +34,14 @@ bool FileHandler::isReadOnly() const {
   return m_is_readonly;
 }
 
+std::function<bool(FileManager::FileId)> FileHandler::getRequestClose() {
+  std::weak_ptr<FileHandler> weak_this = shared_from_this();
+  return [weak_this](FileManager::FileId id) {
+    auto self = weak_this.lock();
+    return self && self->close(id);
+  };
+}
+
 bool FileHandler::close(FileManager::FileId id) {
   std::lock_guard<std::mutex> this_lock(m_handler_mutex);
   auto                        iter = m_available_fd.find(id);
diff --git a/FilePool/src/lib/FileManager.cpp b/FilePool/src/lib/FileManager.cpp
index a1a7c9b..cc0a26f 100644
--- a/FilePool/src/lib/FileManager.cpp
+++ b/FilePool/src/lib/FileManager.cpp
@@ -73,18 +73,18 @@ void FileManager::notifyUsed(FileId id) {
 }
 
 void FileManager::closeAll() {
-  std::vector<FileMetadata*> to_be_closed;
+  std::vector<std::function<bool(void)>> to_be_closed;
 
-  // To avoid deadlocks on the callback, we get the pointers first
+  // To avoid deadlocks on the callback, we get the callbacks first
   {
     std::unique_lock<std::mutex> lock(m_mutex);
     std::transform(m_files.begin(), m_files.end(), std::back_inserter(to_be_closed),
-                   [](std::pair<FileId const, std::unique_ptr<FileMetadata>>& entry) { return entry.second.get(); });
+                   [](std::pair<FileId const, std::unique_ptr<FileMetadata>>& entry) { return entry.second->m_request_close; });
   }
 
   // And request the closing after
-  for (auto& fd : to_be_closed) {
-    fd->m_request_close();
+  for (auto& request_close : to_be_closed) {
+    request_close();
   }
 }
 
-- 
2.43.0


From 427d360445ecd21ca72214cbddfc59eaa1c4a912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:11 +0000
Subject: [PATCH 14/76] fix: LRUFileManager keeps its limit, and its list, when
 several threads open files

---
 FilePool/FilePool/FileManager.h          |  1 +
 FilePool/FilePool/LRUFileManager.h       |  3 +++
 FilePool/FilePool/_impl/FileManager.icpp |  9 ++++++++-
 FilePool/src/lib/LRUFileManager.cpp      | 24 +++++++++++++++++-------
 4 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/FilePool/FilePool/FileManager.h b/FilePool/FilePool/FileManager.h
index 4e3f8fe..da642b5 100644
--- a/FilePool/FilePool/FileManager.h
+++ b/FilePool/FilePool/FileManager.h
@@ -172,6 +172,7 @@ protected:
   std::map<FileId, std::unique_ptr<FileMetadata>> m_files;
 
   virtual void notifyIntentToOpen(bool write) = 0;
+  virtual void notifyFailedToOpen(bool /*write*/) {}
   virtual void notifyOpenedFile(FileId)       = 0;
   virtual void notifyClosedFile(FileId)       = 0;
 };
diff --git a/FilePool/FilePool/LRUFileManager.h b/FilePool/FilePool/LRUFileManager.h
index b6f49c0..4b988f8 100644
--- a/FilePool/FilePool/LRUFileManager.h
+++ b/FilePool/FilePool/LRUFileManager.h
@@ -45,11 +45,14 @@ public:
 
 protected:
   void notifyIntentToOpen(bool write) override;
+  void notifyFailedToOpen(bool write) override;
   void notifyOpenedFile(FileId id) override;
   void notifyClosedFile(FileId id) override;
 
 private:
   unsigned m_limit;
+  /// Number of files about to be opened
+  unsigned m_opening;
   /// Sorted from less to more recent
   std::list<FileId>                             m_sorted_ids;
   std::map<FileId, std::list<FileId>::iterator> m_current_pos;
diff --git a/FilePool/FilePool/_impl/FileManager.icpp b/FilePool/FilePool/_impl/FileManager.icpp
index 7705ab3..e4366a1 100644
--- a/FilePool/FilePool/_impl/FileManager.icpp
+++ b/FilePool/FilePool/_impl/FileManager.icpp
@@ -47,7 +47,14 @@ auto FileManager::open(const boost::filesystem::path& path, bool write, std::fun
   FileId id             = meta.get();
   meta->m_request_close = [id, request_close]() -> bool { return request_close(id); };
 
-  TFD fd = OpenCloseTrait<TFD>::open(path, write);
+  TFD fd = [&]() {
+    try {
+      return OpenCloseTrait<TFD>::open(path, write);
+    } catch (...) {
+      notifyFailedToOpen(write);
+      throw;
+    }
+  }();
 
   {
     std::lock_guard<std::mutex> lock(m_mutex);
diff --git a/FilePool/src/lib/LRUFileManager.cpp b/FilePool/src/lib/LRUFileManager.cpp
index 611bc3f..f544854 100644
--- a/FilePool/src/lib/LRUFileManager.cpp
+++ b/FilePool/src/lib/LRUFileManager.cpp
@@ -23,7 +23,7 @@
 namespace Euclid {
 namespace FilePool {
 
-LRUFileManager::LRUFileManager(unsigned limit) : m_limit(limit) {
+LRUFileManager::LRUFileManager(unsigned limit) : m_limit(limit), m_opening(0) {
   if (m_limit == 0) {
     struct rlimit rlim;
     getrlimit(RLIMIT_NOFILE, &rlim);
@@ -39,26 +39,36 @@ LRUFileManager::~LRUFileManager() {
 void LRUFileManager::notifyIntentToOpen(bool /*write*/) {
   std::unique_lock<std::mutex> lock(m_mutex);
 
-  while (m_files.size() >= m_limit) {
+  while (m_sorted_ids.size() + m_opening >= m_limit) {
     bool closed = false;
-    for (auto& id : m_sorted_ids) {
-      auto& meta       = m_files[id];
-      auto  close_call = meta->m_request_close;
+    // Other threads may open and close files while unlocked
+    std::vector<FileId> candidates(m_sorted_ids.begin(), m_sorted_ids.end());
+    for (auto& id : candidates) {
+      auto iter = m_files.find(id);
+      if (iter == m_files.end())
+        continue;
+      auto close_call = iter->second->m_request_close;
       lock.unlock();
       closed = close_call();
       lock.lock();
-      // If the file was closed, the iterator on m_sorted_ids has been invalidated!
       if (closed)
         break;
     }
-    if (!closed) {
+    if (!closed && m_sorted_ids.size() + m_opening >= m_limit) {
       throw Elements::Exception() << "Limit reached and failed to close any existing file descriptor";
     }
   }
+  ++m_opening;
+}
+
+void LRUFileManager::notifyFailedToOpen(bool /*write*/) {
+  std::lock_guard<std::mutex> lock(m_mutex);
+  --m_opening;
 }
 
 void LRUFileManager::notifyOpenedFile(FileManager::FileId id) {
   std::lock_guard<std::mutex> lock(m_mutex);
+  --m_opening;
   m_sorted_ids.emplace_back(id);
   m_current_pos[id] = m_sorted_ids.end();
   --m_current_pos[id];
-- 
2.43.0


From 6fa2deb5d7e0efc1522a0d087e03fb392852f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:48 +0000
Subject: [PATCH 15/76] fix: FileManager recognizes a relative path to a file
 that does not exist yet

---
 FilePool/src/lib/FileManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FilePool/src/lib/FileManager.cpp b/FilePool/src/lib/FileManager.cpp
index cc0a26f..bb3a13e 100644
--- a/FilePool/src/lib/FileManager.cpp
+++ b/FilePool/src/lib/FileManager.cpp
@@ -89,7 +89,7 @@ void FileManager::closeAll() {
 }
 
 std::shared_ptr<FileHandler> FileManager::getFileHandler(const boost::filesystem::path& path) {
-  auto canonical = weakly_canonical(path);
+  auto canonical = weakly_canonical(boost::filesystem::absolute(path));
 
   std::lock_guard<std::mutex>  lock(m_mutex);
   auto                         i = m_handlers.find(canonical);
@@ -122,7 +122,7 @@ std::shared_ptr<FileHandler> FileManager::getFileHandler(const boost::filesystem
 
 bool FileManager::hasHandler(const boost::filesystem::path& path) const {
   std::lock_guard<std::mutex> this_lock(m_mutex);
-  auto                        canonical = weakly_canonical(path);
+  auto                        canonical = weakly_canonical(boost::filesystem::absolute(path));
   auto                        iter      = m_handlers.find(canonical);
   return iter != m_handlers.end();
 }
-- 
2.43.0


From 47dbe85fea9a81ecfeaf6693e6b28354e9565783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:15 +0000
Subject: [PATCH 16/76] fix: AsciiParser recognises a dataset whose only line
 has no trailing newline

---
 XYDataset/src/lib/AsciiParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/XYDataset/src/lib/AsciiParser.cpp b/XYDataset/src/lib/AsciiParser.cpp
index e3a3dd6..e4e30ff 100644
--- a/XYDataset/src/lib/AsciiParser.cpp
+++ b/XYDataset/src/lib/AsciiParser.cpp
@@ -137,7 +137,7 @@ bool AsciiParser::isDatasetFile(const std::string& file) {
     while ((line.empty() || boost::regex_match(line, s_match, expression)) && sfile.good()) {
       std::getline(sfile, line);
     }
-    if (sfile.good()) {
+    if (!sfile.fail()) {
       // We should have 2 double values only on one line
       try {
         std::stringstream ss(line);
-- 
2.43.0


From 53c1bdcff37394d94a0e25fb61b03e2331b30260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:46 +0000
Subject: [PATCH 17/76] fix: registerConfiguration does not recurse forever on
 circular dependencies, nor keep a configuration that failed to construct

---
 Configuration/Configuration/ConfigManager.h        |  2 ++
 .../Configuration/_impl/ConfigManager.icpp         | 14 +++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/Configuration/Configuration/ConfigManager.h b/Configuration/Configuration/ConfigManager.h
index d286f83..a054756 100644
--- a/Configuration/Configuration/ConfigManager.h
+++ b/Configuration/Configuration/ConfigManager.h
@@ -25,6 +25,7 @@
 #include <boost/program_options.hpp>
 #include <map>
 #include <memory>
+#include <set>
 #include <string>
 #include <typeindex>
 
@@ -192,6 +193,7 @@ private:
   State                                                     m_state = State::REGISTRATION;
   std::unique_ptr<std::type_index>                          m_root_config;
   std::map<std::type_index, std::unique_ptr<Configuration>> m_config_dictionary;
+  std::set<std::type_index>                                 m_under_construction;
   std::map<std::type_index, std::set<std::type_index>>      m_dependency_map;
 
 }; /* End of ConfigManager class */
diff --git a/Configuration/Configuration/_impl/ConfigManager.icpp b/Configuration/Configuration/_impl/ConfigManager.icpp
index 9287239..8c40c82 100644
--- a/Configuration/Configuration/_impl/ConfigManager.icpp
+++ b/Configuration/Configuration/_impl/ConfigManager.icpp
@@ -32,9 +32,17 @@ void ConfigManager::registerConfiguration() {
     throw Elements::Exception() << "Manager with id '" << m_id << "' is closed "
                                 << "for configuration registration";
   }
-  // If the configuration is already registered we do nothing
-  if (m_config_dictionary[{typeid(T)}] == nullptr) {
-    m_config_dictionary[{typeid(T)}].reset(new T{m_id});
+  // If the configuration is already registered, or if we were called by its own constructor because
+  // of a circular dependency, we do nothing
+  if (m_config_dictionary.count(typeid(T)) == 0 && m_under_construction.insert(typeid(T)).second) {
+    try {
+      std::unique_ptr<Configuration> config{new T{m_id}};
+      m_config_dictionary.emplace(typeid(T), std::move(config));
+    } catch (...) {
+      m_under_construction.erase(typeid(T));
+      throw;
+    }
+    m_under_construction.erase(typeid(T));
   }
 }
 
-- 
2.43.0


From e0a1d2ed3dc10e3b15e2d936cd1022264c7c6591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:46 +0000
Subject: [PATCH 18/76] fix: closeRegistration reports a circular dependency
 reached from a configuration outside of it

---
 Configuration/src/lib/ConfigManager.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Configuration/src/lib/ConfigManager.cpp b/Configuration/src/lib/ConfigManager.cpp
index d86b658..415ffb2 100644
--- a/Configuration/src/lib/ConfigManager.cpp
+++ b/Configuration/src/lib/ConfigManager.cpp
@@ -44,13 +44,18 @@ ConfigManager::ConfigManager(long id) : m_id{id} {}
 
 std::vector<std::type_index>
 hasCircularDependencies(const std::map<std::type_index, std::set<std::type_index>>& dependency_map, const std::type_index& root,
-                        const std::pair<const std::type_index, std::set<std::type_index>>& config_pair) {
+                        const std::pair<const std::type_index, std::set<std::type_index>>& config_pair,
+                        std::set<std::type_index>&                                         visited) {
 
   if (config_pair.second.find(root) != config_pair.second.end()) {
     return {root};
   }
   for (auto& config : config_pair.second) {
-    auto found = hasCircularDependencies(dependency_map, root, *dependency_map.find(config));
+    // Do not follow again a configuration which is already known not to lead to the root
+    if (!visited.insert(config).second) {
+      continue;
+    }
+    auto found = hasCircularDependencies(dependency_map, root, *dependency_map.find(config), visited);
     if (!found.empty()) {
       std::vector<std::type_index> result{config};
       for (auto& type : found) {
@@ -103,7 +108,8 @@ po::options_description ConfigManager::closeRegistration() {
 
   // Check for circular dependencies
   for (auto& pair : m_config_dictionary) {
-    auto found = hasCircularDependencies(m_dependency_map, pair.first, *m_dependency_map.find(pair.first));
+    std::set<std::type_index> visited{};
+    auto                      found = hasCircularDependencies(m_dependency_map, pair.first, *m_dependency_map.find(pair.first), visited);
     if (!found.empty()) {
       logger.error() << "Found circular dependency between configurations:";
       int count = 0;
-- 
2.43.0


From 59d01d849135a7c4a73177b4c7ebec659b332cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:46 +0000
Subject: [PATCH 19/76] fix: closeRegistration does not take an initialized
 manager back to the waiting state

---
 Configuration/src/lib/ConfigManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Configuration/src/lib/ConfigManager.cpp b/Configuration/src/lib/ConfigManager.cpp
index 415ffb2..9110449 100644
--- a/Configuration/src/lib/ConfigManager.cpp
+++ b/Configuration/src/lib/ConfigManager.cpp
@@ -96,7 +96,9 @@ static void cleanupNonRegisteredDependencies(std::map<std::type_index, std::set<
 }
 
 po::options_description ConfigManager::closeRegistration() {
-  m_state = State::WAITING_INITIALIZATION;
+  if (m_state == State::REGISTRATION) {
+    m_state = State::WAITING_INITIALIZATION;
+  }
 
   // Populate the dependencies map
   for (auto& pair : m_config_dictionary) {
-- 
2.43.0


From 6ce3e378d620d58c7f19cfc547ef727b772b6d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:46 +0000
Subject: [PATCH 20/76] fix: findWildcardNames ignores options whose name only
 starts like a wildcard option

---
 Configuration/src/lib/ProgramOptionsHelper.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/Configuration/src/lib/ProgramOptionsHelper.cpp b/Configuration/src/lib/ProgramOptionsHelper.cpp
index 53099cf..7861af3 100644
--- a/Configuration/src/lib/ProgramOptionsHelper.cpp
+++ b/Configuration/src/lib/ProgramOptionsHelper.cpp
@@ -38,12 +38,9 @@ ProgramOptionsHelper::findWildcardNames(const std::vector<std::string>&
   std::set<std::string> result;
   for (auto& option_name : option_name_list) {
     for (auto& pair : options) {
-      if (boost::starts_with(pair.first, option_name)) {
-        auto name = pair.first.substr(option_name.size());
-        if (!name.empty()) {
-          name = name.substr(1);
-        }
-        result.insert(name);
+      auto prefix = wildcard(option_name, "");
+      if (boost::starts_with(pair.first, prefix)) {
+        result.insert(pair.first.substr(prefix.size()));
       }
     }
   }
-- 
2.43.0


From 5e19e793205619f58f62df636dcc41cb5a094ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:46 +0000
Subject: [PATCH 21/76] fix: getUniqueManagerId never returns the same id
 twice, also with several threads or when the clock goes back

---
 Configuration/src/lib/Utils.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Configuration/src/lib/Utils.cpp b/Configuration/src/lib/Utils.cpp
index 4aa12e9..537e605 100644
--- a/Configuration/src/lib/Utils.cpp
+++ b/Configuration/src/lib/Utils.cpp
@@ -23,19 +23,22 @@
  */
 
 #include "Configuration/Utils.h"
+#include <algorithm>
+#include <atomic>
 #include <chrono>
 
 namespace Euclid {
 namespace Configuration {
 
-static long last_manager_id = 0;
+static std::atomic<long> last_manager_id{0};
 
 long getUniqueManagerId() {
-  long id = last_manager_id;
-  while (id == last_manager_id) {
-    id = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
+  long now  = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
+  long last = last_manager_id;
+  long id   = std::max(now, last + 1);
+  while (!last_manager_id.compare_exchange_weak(last, id)) {
+    id = std::max(now, last + 1);
   }
-  last_manager_id = id;
   return id;
 }
 
-- 
2.43.0


From 8cddd85fe522583caf2e147b10e66991e3c60ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:06 +0000
Subject: [PATCH 22/76] fix: AsciiReader: read the first cell of a row as a
 quoted token, like the others

---
 Table/src/lib/AsciiReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Table/src/lib/AsciiReader.cpp b/Table/src/lib/AsciiReader.cpp
index 667e023..d7728a1 100644
--- a/Table/src/lib/AsciiReader.cpp
+++ b/Table/src/lib/AsciiReader.cpp
@@ -214,7 +214,7 @@ Table AsciiReader::readImpl(long rows) {
       size_t                      count{0};
       std::vector<Row::cell_type> values{};
       std::string                 token;
-      line_stream >> token;
+      line_stream >> boost::io::quoted(token);
       while (line_stream) {
         if (count >= m_column_info->size()) {
           throw Elements::Exception() << "Line with wrong number of cells: " << line;
-- 
2.43.0


From e86893567e3e20e3bb3acb415109662e327fe1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:06 +0000
Subject: [PATCH 23/76] fix: AsciiReader: ignore the case of boolean values, as
 documented

---
 Table/src/lib/AsciiReaderHelper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index d8f0b4f..86d5734 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -284,10 +284,11 @@ NdArray<T> convertStringToNdArray(const std::string& str) {
 Row::cell_type convertToCellType(const std::string& value, std::type_index type) {
   try {
     if (type == typeid(bool)) {
-      if (value == "true" || value == "t" || value == "yes" || value == "y" || value == "1") {
+      auto word = boost::to_lower_copy(value);
+      if (word == "true" || word == "t" || word == "yes" || word == "y" || word == "1") {
         return Row::cell_type{true};
       }
-      if (value == "false" || value == "f" || value == "no" || value == "n" || value == "0") {
+      if (word == "false" || word == "f" || word == "no" || word == "n" || word == "0") {
         return Row::cell_type{false};
       }
     } else if (type == typeid(int32_t)) {
-- 
2.43.0


From c900cd31a1c6bec02308083c2c27a368b2cbea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:06 +0000
Subject: [PATCH 24/76] fix: AsciiReader: do not take a column description for
 the line with the column names

---
 Table/src/lib/AsciiReaderHelper.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index 86d5734..82cb7a1 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -195,11 +195,10 @@ std::vector<std::string> autoDetectColumnNames(std::istream& in, const std::stri
         std::string temp = line;
         temp.erase(0, 7);
         boost::trim(temp);
-        auto space_i = temp.find(' ');
-        if (space_i > 0) {
-          temp = temp.substr(0, space_i);
-        }
+        std::stringstream temp_stream(temp);
+        temp_stream >> boost::io::quoted(temp);
         desc_names.emplace_back(std::move(temp));
+        last_comment.clear();  // This line describes a single column
       }
     } else {
       break;  // here we reached the first data line
-- 
2.43.0


From f1c5ed6e756485306cbff3802c13bb8b53cb92c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:06 +0000
Subject: [PATCH 25/76] fix: AsciiReader: keep units and descriptions as they
 are written

---
 Table/src/lib/AsciiReaderHelper.cpp | 44 +++++++++++++++--------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index 82cb7a1..3c34097 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -123,39 +123,41 @@ std::map<std::string, ColumnDescription> autoDetectColumnDescriptions(std::istre
         line.erase(0, 7);
         boost::trim(line);
         if (!line.empty()) {
-          std::string       token;
           std::stringstream line_stream(line);
           std::string       name;
           line_stream >> boost::io::quoted(name);
           if (descriptions.count(name) != 0) {
             throw Elements::Exception() << "Duplicate column name " << name;
           }
-          line_stream >> boost::io::quoted(token);
+          // The unit and the description can contain spaces, so the rest of the line is not split to tokens
+          std::string rest;
+          getline(line_stream, rest);
+          boost::trim(rest);
           std::type_index type = typeid(std::string);
-          if (line_stream) {
-            if (!boost::starts_with(token, "(") && token != "-") {
-              type = keywordToType(token);
-              line_stream >> boost::io::quoted(token);
-            }
+          auto first_token     = [&rest]() { return rest.substr(0, rest.find_first_of(" \t")); };
+          if (!rest.empty() && rest[0] != '(' && first_token() != "-") {
+            type = keywordToType(first_token());
+            rest.erase(0, first_token().size());
+            boost::trim(rest);
           }
           std::string unit = "";
-          if (line_stream) {
-            if (boost::starts_with(token, "(")) {
-              unit = token;
-              unit.erase(unit.begin());
-              unit.erase(unit.end() - 1);
-              line_stream >> boost::io::quoted(token);
+          if (!rest.empty() && rest[0] == '(') {
+            // Find the matching closing parenthesis
+            size_t unit_end = 0;
+            for (int depth = 0; unit_end < rest.size(); ++unit_end) {
+              depth += (rest[unit_end] == '(') - (rest[unit_end] == ')');
+              if (depth == 0) {
+                break;
+              }
             }
+            unit = rest.substr(1, unit_end - 1);
+            rest.erase(0, unit_end + 1);
+            boost::trim(rest);
           }
-          if (line_stream && token == "-") {
-            line_stream >> boost::io::quoted(token);
-          }
-          std::stringstream desc;
-          while (line_stream) {
-            desc << token << ' ';
-            line_stream >> boost::io::quoted(token);
+          if (first_token() == "-") {
+            rest.erase(0, 1);
           }
-          std::string desc_str = desc.str();
+          std::string desc_str = rest;
           boost::trim(desc_str);
           descriptions.emplace(std::piecewise_construct, std::forward_as_tuple(name),
                                std::forward_as_tuple(name, type, unit, desc_str));
-- 
2.43.0


From 331c48dedbb756788fba735159060d74ff2dc754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:06 +0000
Subject: [PATCH 26/76] fix: AsciiReader::getComment() must not consume the
 column information

---
 Table/src/lib/AsciiReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Table/src/lib/AsciiReader.cpp b/Table/src/lib/AsciiReader.cpp
index d7728a1..5df118e 100644
--- a/Table/src/lib/AsciiReader.cpp
+++ b/Table/src/lib/AsciiReader.cpp
@@ -182,6 +182,8 @@ std::string AsciiReader::getComment() {
 
   m_reading_started = true;
   auto& in          = m_stream_holder->ref();
+  // The column information is in the comments, so they must still be there for the rest of the methods
+  StreamRewinder rewinder{in};
   while (in && _peekLine(in).compare(0, m_comment.size(), m_comment) == 0) {
     std::string line;
     getline(in, line);
-- 
2.43.0


From 01a2ea582d133b1297c12ca181586b80fef9a51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:06 +0000
Subject: [PATCH 27/76] fix: Row: streaming an empty vector must not go past
 its end

---
 Table/src/lib/Row.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Table/src/lib/Row.cpp b/Table/src/lib/Row.cpp
index ae37622..d8f2d2f 100644
--- a/Table/src/lib/Row.cpp
+++ b/Table/src/lib/Row.cpp
@@ -48,9 +48,9 @@ std::ostream& operator<<(std::ostream& s, const std::vector<T>& v) {
   auto it = v.begin();
   if (it != v.end()) {
     s << *it;
-  }
-  while (++it != v.end()) {
-    s << ',' << *it;
+    while (++it != v.end()) {
+      s << ',' << *it;
+    }
   }
   return s;
 }
-- 
2.43.0


From 75ba98eaebc0b849df71c7ebfc79bcd2f97bdd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:06 +0000
Subject: [PATCH 28/76] fix: CastVisitor: strings that are only partly a
 number, or out of range, cannot be converted

---
 Table/Table/CastVisitor.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/Table/Table/CastVisitor.h b/Table/Table/CastVisitor.h
index a3eba6d..38774da 100644
--- a/Table/Table/CastVisitor.h
+++ b/Table/Table/CastVisitor.h
@@ -28,6 +28,7 @@
 #include "ElementsKernel/Exception.h"
 #include <boost/tokenizer.hpp>
 #include <boost/variant/static_visitor.hpp>
+#include <cerrno>
 #include <cmath>
 #include <sstream>
 #include <type_traits>
@@ -86,7 +87,7 @@ public:
   double operator()(const std::string& from) const {
     char*  endptr = nullptr;
     double value  = std::strtod(from.c_str(), &endptr);
-    if (endptr == from.c_str()) {
+    if (endptr == from.c_str() || *endptr != '\0') {
       throw Elements::Exception() << "CastVisitor cannot convert the string '" << from << "' to " << typeid(double).name();
     }
     if (value == HUGE_VAL || value == -HUGE_VAL) {
@@ -119,7 +120,7 @@ public:
   float operator()(const std::string& from) const {
     char* endptr = nullptr;
     float value  = std::strtof(from.c_str(), &endptr);
-    if (endptr == from.c_str()) {
+    if (endptr == from.c_str() || *endptr != '\0') {
       throw Elements::Exception() << "CastVisitor cannot convert the string '" << from << "' to " << typeid(float).name();
     }
     if (value == HUGE_VALF || value == -HUGE_VALF) {
@@ -149,11 +150,15 @@ public:
   }
 
   int64_t operator()(const std::string& from) const {
-    char*   endptr = nullptr;
+    char* endptr   = nullptr;
+    errno          = 0;
     int64_t value  = std::strtoll(from.c_str(), &endptr, 10);
-    if (endptr == from.c_str()) {
+    if (endptr == from.c_str() || *endptr != '\0') {
       throw Elements::Exception() << "CastVisitor cannot convert the string '" << from << "' to " << typeid(int64_t).name();
     }
+    if (errno == ERANGE) {
+      throw Elements::Exception() << "CastVisitor overflows converting the string '" << from << "' to " << typeid(int64_t).name();
+    }
     return value;
   }
 };
@@ -181,7 +186,7 @@ public:
   int32_t operator()(const std::string& from) const {
     char*   endptr = nullptr;
     int64_t value  = std::strtoll(from.c_str(), &endptr, 10);
-    if (endptr == from.c_str()) {
+    if (endptr == from.c_str() || *endptr != '\0') {
       throw Elements::Exception() << "CastVisitor cannot convert the string '" << from << "' to " << typeid(int32_t).name();
     }
     if (value > INT32_MAX || value < INT32_MIN) {
-- 
2.43.0


From 4b7af41c3537793a22591f3cff66e4a465407061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:27 +0000
Subject: [PATCH 29/76] fix: GridContainer::infimum can be used for grids with
 one axis

---
 GridContainer/GridContainer/_impl/GridContainer.icpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/GridContainer/GridContainer/_impl/GridContainer.icpp b/GridContainer/GridContainer/_impl/GridContainer.icpp
index 2c8e7ca..f36e954 100644
--- a/GridContainer/GridContainer/_impl/GridContainer.icpp
+++ b/GridContainer/GridContainer/_impl/GridContainer.icpp
@@ -184,8 +184,9 @@ struct InfimumHelper<0> {
 
   template <typename... AxesType>
   static std::tuple<std::size_t> getIndex(const std::tuple<AxesType...>& coords, const std::tuple<GridAxis<AxesType>...>& axes) {
-    auto i0 = std::get<0>(axes).infimum(std::get<0>(coords));
-    return std::make_tuple(i0);
+    std::tuple<std::size_t> index;
+    getIndex(coords, axes, index);
+    return index;
   }
 
   template <typename IndexTuple, typename... AxesType>
-- 
2.43.0


From a686455fd543655e981237b306eb1ac8b7baf60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:25 +0000
Subject: [PATCH 30/76] fix: a slice of a slice of a grid keeps the axes which
 are already fixed

---
 GridContainer/GridContainer/_impl/GridContainer.icpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GridContainer/GridContainer/_impl/GridContainer.icpp b/GridContainer/GridContainer/_impl/GridContainer.icpp
index f36e954..13613e0 100644
--- a/GridContainer/GridContainer/_impl/GridContainer.icpp
+++ b/GridContainer/GridContainer/_impl/GridContainer.icpp
@@ -46,7 +46,7 @@ template <typename GridCellManager, typename... AxesTypes>
 GridContainer<GridCellManager, AxesTypes...>::GridContainer(const GridContainer<GridCellManager, AxesTypes...>& other, size_t axis,
                                                             size_t index)
     : m_axes{other.m_axes}
-    , m_axes_fixed{fixAxis(other.m_axes, axis, index)}
+    , m_axes_fixed{other.m_axes_fixed}
     , m_fixed_indices{other.m_fixed_indices}
     , m_cell_manager{other.m_cell_manager} {
   // Update the fixed indices
@@ -54,6 +54,8 @@ GridContainer<GridCellManager, AxesTypes...>::GridContainer(const GridContainer<
     throw Elements::Exception() << "Axis " << axis << " is already fixed";
   }
   m_fixed_indices[axis] = index;
+  m_axes_fixed          = fixAxis(m_axes_fixed, axis, index);
+  m_index_helper_fixed  = GridIndexHelper<AxesTypes...>{m_axes_fixed};
 }
 
 template <typename GridCellManager, typename... AxesTypes>
-- 
2.43.0


From 8956b5c89d0e913d5bfee879324ce2c2c3d5deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:25 +0000
Subject: [PATCH 31/76] fix: infimum of a slice returns indices of the slice

---
 GridContainer/GridContainer/_impl/GridContainer.icpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GridContainer/GridContainer/_impl/GridContainer.icpp b/GridContainer/GridContainer/_impl/GridContainer.icpp
index 13613e0..34c8e83 100644
--- a/GridContainer/GridContainer/_impl/GridContainer.icpp
+++ b/GridContainer/GridContainer/_impl/GridContainer.icpp
@@ -208,7 +208,7 @@ auto GridContainer<GridCellManager, AxesTypes...>::infimum(const AxesTypes... co
 template <typename GridCellManager, typename... AxesTypes>
 auto GridContainer<GridCellManager, AxesTypes...>::infimum(const std::tuple<AxesTypes...>& coords) const
     -> std::tuple<decltype(std::declval<GridAxis<AxesTypes>>().size())...> {
-  return InfimumHelper<sizeof...(AxesTypes) - 1>::getIndex(coords, m_axes);
+  return InfimumHelper<sizeof...(AxesTypes) - 1>::getIndex(coords, m_axes_fixed);
 }
 
 template <typename GridCellManager, typename... AxesTypes>
-- 
2.43.0


From df9a89aa4e7a21304d8dfe59407d7cf18f6364ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:25 +0000
Subject: [PATCH 32/76] fix: fixing an axis of a grid iterator moves it to the
 first matching cell, or the end

---
 GridContainer/GridContainer/GridContainer.h   |  4 +-
 .../GridContainer/_impl/GridIterator.icpp     | 42 ++++++++++---------
 2 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/GridContainer/GridContainer/GridContainer.h b/GridContainer/GridContainer/GridContainer.h
index 37a2ff2..5204003 100644
--- a/GridContainer/GridContainer/GridContainer.h
+++ b/GridContainer/GridContainer/GridContainer.h
@@ -498,7 +498,9 @@ private:
   const GridContainer<GridCellManager, AxesTypes...>& m_owner;
   cell_manager_iter_type                              m_data_iter;
   std::map<size_t, size_t>                            m_fixed_indices;
-  void                                                forwardToIndex(size_t axis, size_t fixed_index);
+  /// Moves the iterator to the first cell, starting from the current one, which
+  /// matches all the fixed axes, or to the end if there is not any
+  void forwardToFixed();
 
 };  // end of class iter
 
diff --git a/GridContainer/GridContainer/_impl/GridIterator.icpp b/GridContainer/GridContainer/_impl/GridIterator.icpp
index 81f6717..b8aec77 100644
--- a/GridContainer/GridContainer/_impl/GridIterator.icpp
+++ b/GridContainer/GridContainer/_impl/GridIterator.icpp
@@ -48,17 +48,7 @@ template <typename CellType>
 auto GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::operator++() -> iter& {
   ++m_data_iter;
   if (!m_fixed_indices.empty()) {
-    for (auto& fixed_index_pair : m_fixed_indices) {
-      size_t axis        = fixed_index_pair.first;
-      size_t fixed_index = fixed_index_pair.second;
-      forwardToIndex(axis, fixed_index);
-    }
-    // Because we make big steps there is the possibility we went after the end.
-    // In this case we set the iterator to the end.
-    auto end_iter = GridCellManagerTraits<GridCellManager>::end(*(m_owner.m_cell_manager));
-    if (m_data_iter > end_iter) {
-      m_data_iter = end_iter;
-    }
+    forwardToFixed();
   }
   return *this;
 }
@@ -128,7 +118,7 @@ auto GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::fixAxisByInde
                                 << m_owner.getOriginalAxis<I>().size() << ")";
   }
   m_fixed_indices[I] = index;
-  forwardToIndex(I, index);
+  forwardToFixed();
   return *this;
 }
 
@@ -147,15 +137,27 @@ auto GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::fixAxisByValu
 
 template <typename GridCellManager, typename... AxesTypes>
 template <typename CellType>
-void GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::forwardToIndex(size_t axis, size_t fixed_index) {
-  size_t current_size  = m_data_iter - GridCellManagerTraits<GridCellManager>::begin(*(m_owner.m_cell_manager));
-  size_t current_index = m_owner.m_index_helper.axisIndex(axis, current_size);
-  if (fixed_index != current_index) {
-    size_t axis_factor = m_owner.m_index_helper.m_axes_index_factors[axis];
-    size_t distance    = (fixed_index > current_index) ? fixed_index - current_index
-                                                    : m_owner.m_index_helper.m_axes_sizes[axis] + fixed_index - current_index;
-    m_data_iter += distance * axis_factor;
+void GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::forwardToFixed() {
+  auto&  helper   = m_owner.m_index_helper;
+  auto   begin    = GridCellManagerTraits<GridCellManager>::begin(*(m_owner.m_cell_manager));
+  size_t end      = helper.m_axes_index_factors.back();
+  size_t position = m_data_iter - begin;
+  // We go from the slowest to the fastest axis. When an axis does not match, we
+  // go to the first cell where it does, and all the axes have to be checked again.
+  auto fixed = m_fixed_indices.rbegin();
+  while (position < end && fixed != m_fixed_indices.rend()) {
+    size_t current_index = helper.axisIndex(fixed->first, position);
+    if (current_index == fixed->second) {
+      ++fixed;
+      continue;
+    }
+    size_t axis_factor = helper.m_axes_index_factors[fixed->first];
+    size_t distance    = (fixed->second > current_index) ? fixed->second - current_index
+                                                         : helper.m_axes_sizes[fixed->first] + fixed->second - current_index;
+    position           = (position / axis_factor + distance) * axis_factor;
+    fixed              = m_fixed_indices.rbegin();
   }
+  m_data_iter = begin + std::min(position, end);
 }
 
 template <typename IterFrom, typename IterTo, int I>
-- 
2.43.0


From db2a2d35db5f8dfb6ef0be9aede5d4af8d227505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:19 +0000
Subject: [PATCH 33/76] fix: multiplying piecewise functions with disjoint or
 touching ranges must not read past the knots

---
 MathUtils/src/lib/function/multiplication.cpp | 34 ++++++-------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/MathUtils/src/lib/function/multiplication.cpp b/MathUtils/src/lib/function/multiplication.cpp
index 33fd76c..e7ddbc5 100644
--- a/MathUtils/src/lib/function/multiplication.cpp
+++ b/MathUtils/src/lib/function/multiplication.cpp
@@ -27,6 +27,8 @@
 #include "MathUtils/function/Polynomial.h"
 #include "MathUtils/function/function_tools.h"
 #include "MathUtils/interpolation/interpolation.h"
+#include <algorithm>
+#include <iterator>
 #include <memory>
 #include <set>
 #include <vector>
@@ -60,30 +62,16 @@ std::unique_ptr<Function> multiplyPiecewiseWithGeneric(const Function& f1, const
 
 /// Returns a vector of the overlapping knots from the given vectors
 std::vector<double> overlappingKnots(const std::vector<double>& knots1, const std::vector<double>& knots2) {
+  // The ranges must have more than a single point in common
+  double min = std::max(knots1.front(), knots2.front());
+  double max = std::min(knots1.back(), knots2.back());
+  if (!(min < max)) {
+    return {};
+  }
   std::set<double> knotSet{};
-  auto             p1Iter  = knots1.begin();
-  auto             p2Iter  = knots2.begin();
-  bool             started = false;
-  while (p1Iter != knots1.end() && p2Iter != knots2.end()) {
-    if (!started) {
-      if (*p1Iter < *p2Iter) {
-        if (*(++p1Iter) > *p2Iter) {
-          started = true;
-        }
-      } else {
-        if (*p1Iter < *(++p2Iter)) {
-          started = true;
-        }
-      }
-      continue;
-    }
-    if (*p1Iter < *p2Iter) {
-      knotSet.insert(*p1Iter);
-      ++p1Iter;
-    } else {
-      knotSet.insert(*p2Iter);
-      ++p2Iter;
-    }
+  for (auto knots : {&knots1, &knots2}) {
+    std::copy_if(knots->begin(), knots->end(), std::inserter(knotSet, knotSet.end()),
+                 [min, max](double knot) { return knot >= min && knot <= max; });
   }
   return std::vector<double>{knotSet.begin(), knotSet.end()};
 }
-- 
2.43.0


From 9e573b77653dab8e9bd8b3887fe0a9e58f403df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:19 +0000
Subject: [PATCH 34/76] fix: multiplying polynomials without coefficients

---
 MathUtils/src/lib/function/multiplication.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MathUtils/src/lib/function/multiplication.cpp b/MathUtils/src/lib/function/multiplication.cpp
index e7ddbc5..9f18234 100644
--- a/MathUtils/src/lib/function/multiplication.cpp
+++ b/MathUtils/src/lib/function/multiplication.cpp
@@ -42,6 +42,9 @@ std::unique_ptr<Function> multiplyPolynomials(const Function& f1, const Function
   const Polynomial&   p2 = dynamic_cast<const Polynomial&>(f2);
   std::vector<double> c1 = p1.getCoefficients();
   std::vector<double> c2 = p2.getCoefficients();
+  if (c1.empty() || c2.empty()) {
+    return std::unique_ptr<Polynomial>(new Polynomial{{}});
+  }
   std::vector<double> resultCoef(c1.size() + c2.size() - 1, 0.);
   for (size_t i = 0; i < c1.size(); ++i)
     for (size_t j = 0; j < c2.size(); ++j)
-- 
2.43.0


From 5947e18dea8c4bb1954e3e0114a5264685310801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:19 +0000
Subject: [PATCH 35/76] fix: interpolation of no points is an error, and of a
 single point is defined at the point

---
 .../src/lib/interpolation/interpolation.cpp     | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/MathUtils/src/lib/interpolation/interpolation.cpp b/MathUtils/src/lib/interpolation/interpolation.cpp
index ad5a4f7..8e3a100 100644
--- a/MathUtils/src/lib/interpolation/interpolation.cpp
+++ b/MathUtils/src/lib/interpolation/interpolation.cpp
@@ -25,6 +25,8 @@
 #include "MathUtils/interpolation/interpolation.h"
 #include "ElementsKernel/Logging.h"
 #include "MathUtils/function/FunctionAdapter.h"
+#include "MathUtils/function/Piecewise.h"
+#include "MathUtils/function/Polynomial.h"
 #include "implementations.h"
 #include <AlexandriaKernel/memory_tools.h>
 
@@ -45,9 +47,8 @@ std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::v
                                    << "size: X=" << x.size() << ", Y=" << y.size();
   }
 
-  if (x.size() == 1 && extrapolate) {
-    auto c = y.front();
-    return make_unique<FunctionAdapter>([c](double) { return c; });
+  if (x.empty()) {
+    throw InterpolationException() << "Can not interpolate an empty list of values";
   }
 
   // We remove any duplicate lines and we check that we have only increasing
@@ -75,6 +76,16 @@ std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::v
     final_y.emplace_back(y[i]);
   }
 
+  if (final_x.size() == 1) {
+    auto c = final_y.front();
+    if (extrapolate) {
+      return make_unique<FunctionAdapter>([c](double) { return c; });
+    }
+    std::vector<std::unique_ptr<Function>> functions;
+    functions.emplace_back(new Polynomial{{c}});
+    return make_unique<Piecewise>(std::vector<double>{final_x.front(), final_x.front()}, std::move(functions));
+  }
+
   switch (type) {
   case InterpolationType::LINEAR:
     return linearInterpolation(final_x, final_y, extrapolate);
-- 
2.43.0


From d78dfcde50d22c6a0c814ba14d1785a0a936aaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:19 +0000
Subject: [PATCH 36/76] fix: simple_interpolation between knots with the same X
 is the mean of the Y values

---
 MathUtils/src/lib/interpolation/interpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MathUtils/src/lib/interpolation/interpolation.cpp b/MathUtils/src/lib/interpolation/interpolation.cpp
index 8e3a100..66a5e3e 100644
--- a/MathUtils/src/lib/interpolation/interpolation.cpp
+++ b/MathUtils/src/lib/interpolation/interpolation.cpp
@@ -133,7 +133,7 @@ double simple_interpolation(double x, const std::vector<double>& xp, const std::
   double y1 = yp[i], y0 = yp[i - 1];
 
   if (x1 == x0) {
-    return (x1 + y1) / 2.;
+    return (y0 + y1) / 2.;
   }
 
   double coef1 = (y1 - y0) / (x1 - x0);
-- 
2.43.0


From bd8c23aade11e8e694d1f44a3dbf28c49ba9ec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:19 +0000
Subject: [PATCH 37/76] fix: linear interpolation of data starting with a step
 is not NaN at the first point

---
 MathUtils/src/lib/interpolation/linear.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MathUtils/src/lib/interpolation/linear.cpp b/MathUtils/src/lib/interpolation/linear.cpp
index 9943615..8d5b077 100644
--- a/MathUtils/src/lib/interpolation/linear.cpp
+++ b/MathUtils/src/lib/interpolation/linear.cpp
@@ -34,7 +34,8 @@ namespace MathUtils {
 std::unique_ptr<Function> linearInterpolation(const std::vector<double>& x, const std::vector<double>& y, bool extrapolate) {
   std::vector<std::unique_ptr<Function>> functions{};
   for (size_t i = 0; i < x.size() - 1; i++) {
-    double coef1 = (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
+    // For a step (two knots with the same X) there is no slope
+    double coef1 = (x[i + 1] == x[i]) ? 0. : (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
     double coef0 = y[i] - coef1 * x[i];
     functions.push_back(std::unique_ptr<Function>(new Polynomial{{coef0, coef1}}));
   }
-- 
2.43.0


From e4e02bde72c815f209064ae78f77d57b99fc2061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:19 +0000
Subject: [PATCH 38/76] fix: spline interpolation of step functions throws as
 documented

---
 MathUtils/src/lib/interpolation/spline.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MathUtils/src/lib/interpolation/spline.cpp b/MathUtils/src/lib/interpolation/spline.cpp
index cb54594..ad4e1b3 100644
--- a/MathUtils/src/lib/interpolation/spline.cpp
+++ b/MathUtils/src/lib/interpolation/spline.cpp
@@ -36,6 +36,13 @@ std::unique_ptr<Function> splineInterpolation(const std::vector<double>& x, cons
   // Number of intervals
   int n = x.size() - 1;
 
+  for (int i = 0; i < n; i++) {
+    if (x[i + 1] == x[i]) {
+      throw InterpolationException() << "Spline interpolation of step functions is not supported, but found two values for X "
+                                     << x[i];
+    }
+  }
+
   // Differences between knot points
   std::vector<double> h(n, 0.);
   for (int i = 0; i < n; i++)
-- 
2.43.0


From de2e30648fda9a968f43c611dd84c102db623cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:15 +0000
Subject: [PATCH 39/76] fix: grid interpolation must not read past the knots of
 a discrete axis for an unknown value

---
 .../MathUtils/interpolation/_impl/GridInterpolation.icpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
index 5b69f94..e822fc4 100644
--- a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
+++ b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
@@ -61,7 +61,7 @@ template <typename T>
 struct InterpolationImpl<T, typename std::enable_if<!std::is_floating_point<T>::value>::type> {
   static double interpolate(const T x, const std::vector<T>& knots, const std::vector<double>& values, bool /*extrapolate*/) {
     std::size_t i = std::find(knots.begin(), knots.end(), x) - knots.begin();
-    if (knots[i] != x)
+    if (i == knots.size())
       return 0.;
     return values[i];
   }
@@ -70,7 +70,7 @@ struct InterpolationImpl<T, typename std::enable_if<!std::is_floating_point<T>::
   static double interpolate(const T x, const std::vector<T>& knots,
                             const std::vector<std::unique_ptr<InterpN<Rest...>>>& interpolators, bool, const Rest... rest) {
     std::size_t i = std::find(knots.begin(), knots.end(), x) - knots.begin();
-    if (knots[i] != x)
+    if (i == knots.size())
       return 0.;
     return (*interpolators[i])(rest...);
   }
-- 
2.43.0


From 908268b32fca550a541ccada431656ccd2c64a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:15 +0000
Subject: [PATCH 40/76] fix: grid interpolation checks the order of its last
 axis too

---
 MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
index e822fc4..2d31978 100644
--- a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
+++ b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
@@ -99,6 +99,7 @@ public:
     if (values.shape().size() != 1) {
       throw InterpolationException() << "values and coordinates dimensionalities must match: " << values.shape().size() << " != 1";
     }
+    InterpolationImpl<T>::checkOrder(m_knots);
     if (m_knots.size() != values.size()) {
       throw InterpolationException() << "The size of the grid and the size of the values do not match: " << m_knots.size()
                                      << " != " << m_values.size();
-- 
2.43.0


From 02187bc34a0d4a23b1f357c21420e065d5cf9960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:15 +0000
Subject: [PATCH 41/76] fix: InverseCumulative checks that there is a PDF value
 for every knot

---
 MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
index ffc9e8c..a7b6bef 100644
--- a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
+++ b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
@@ -33,8 +33,8 @@ class InverseCumulative<TKnot, typename std::enable_if<std::is_floating_point<TK
 public:
   InverseCumulative(std::vector<TKnot> knots, std::vector<double> pdf)
       : m_knots(std::move(knots)), m_pdf(std::move(pdf)), m_cdf(m_pdf.size()) {
-    if (m_knots.size() != m_knots.size()) {
-      throw Elements::Exception() << "PDF and knots dimensionality do not match: " << m_knots.size() << " != " << knots.size();
+    if (m_knots.size() != m_pdf.size()) {
+      throw Elements::Exception() << "PDF and knots dimensionality do not match: " << m_knots.size() << " != " << m_pdf.size();
     }
     if (!std::is_sorted(m_knots.begin(), m_knots.end())) {
       throw Elements::Exception() << "Knots must be sorted";
-- 
2.43.0


From 94e3e5f2e1643390bf0a3a4d84a12ca1c0d2ffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:15 +0000
Subject: [PATCH 42/76] fix: a mode that reaches the first or last sample of
 the PDF includes it

---
 MathUtils/src/lib/PDF/PdfModeExtraction.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
index 81689d8..79f62ab 100644
--- a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
+++ b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
@@ -71,7 +71,11 @@ std::pair<size_t, size_t> catchPeak(const std::vector<double>& pdf, size_t cente
 
   for (size_t index = 0; index <= center_index; ++index) {
     size_t position = center_index - index;
-    if (position == 0 || pdf[position] == 0) {
+    if (pdf[position] == 0) {
+      break;
+    }
+    if (position == 0) {
+      min_x = position;
       break;
     }
     if ((pdf[position] < threshold && pdf[position - 1] >= pdf[position])) {
@@ -82,7 +86,11 @@ std::pair<size_t, size_t> catchPeak(const std::vector<double>& pdf, size_t cente
   }
 
   for (size_t position = center_index; position <= pdf.size(); ++position) {
-    if (position == pdf.size() - 1 || pdf[position] == 0) {
+    if (pdf[position] == 0) {
+      break;
+    }
+    if (position == pdf.size() - 1) {
+      max_x = position;
       break;
     }
     if ((pdf[position] < threshold && pdf[position + 1] >= pdf[position])) {
-- 
2.43.0


From 5a1c8104ad0e2848ece37b04c4a07915502cb9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:15 +0000
Subject: [PATCH 43/76] fix: mode extraction returns at most n modes, and only
 modes which are there

---
 MathUtils/src/lib/PDF/PdfModeExtraction.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
index 79f62ab..0225c92 100644
--- a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
+++ b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
@@ -187,6 +187,10 @@ std::vector<ModeInfo> extractNHighestModes(std::vector<double>& x_sampling, std:
 
   for (size_t idx = 0; idx < n; ++idx) {
     auto peak_index = findMaximumIndex(pdf_xy.second);
+    // There are no more modes
+    if (pdf_xy.second[peak_index] <= 0) {
+      break;
+    }
     auto min_max    = catchPeak(pdf_xy.second, peak_index, merge_ratio);
     auto mean_area  = avgArea(pdf_xy, min_max.first, min_max.second);
     auto max_inter  = getInterpolationAround(pdf_xy, peak_index);
@@ -209,11 +213,15 @@ std::vector<ModeInfo> extractNBigestModes(std::vector<double>& x_sampling, std::
 
   std::vector<ModeInfo> result{};
 
-  bool   out  = false;
+  bool   out  = (n == 0);
   size_t loop = 0;
   while (!out) {
 
     auto   peak_index       = findMaximumIndex(pdf_xy.second);
+    // There are no more modes
+    if (pdf_xy.second[peak_index] <= 0) {
+      break;
+    }
     auto   min_max          = catchPeak(pdf_xy.second, peak_index, merge_ratio);
     auto   mean_area        = avgArea(pdf_xy, min_max.first, min_max.second);
     auto   max_sample       = pdf_xy.first[peak_index];
@@ -230,6 +238,9 @@ std::vector<ModeInfo> extractNBigestModes(std::vector<double>& x_sampling, std::
 
     if (iter_mode != result.end()) {
       result.insert(iter_mode, new_mode);
+      if (result.size() > n) {
+        result.pop_back();
+      }
     } else if (result.size() < n) {
       result.push_back(new_mode);
     }
-- 
2.43.0


From b06c3e58eec599ff1430498b6373f326066829dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:15 +0000
Subject: [PATCH 44/76] fix: mode extraction of a PDF with two samples

---
 MathUtils/src/lib/PDF/PdfModeExtraction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
index 0225c92..23d9bec 100644
--- a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
+++ b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
@@ -136,6 +136,11 @@ double getInterpolationAround(const std::pair<std::vector<double>, std::vector<d
     throw Elements::Exception("getInterpolationAround: x_index out of range.");
   }
 
+  // the fit needs three points
+  if (pdf.first.size() < 3) {
+    return pdf.first[x_index];
+  }
+
   // ensure we are not on the border
   if (x_index == 0) {
     x_index += 1;
-- 
2.43.0


From d3956752fb8ee69298611a417c60c8f6b9dcf3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:05 +0000
Subject: [PATCH 45/76] fix: InverseCumulative returns the first value with the
 probability when the PDF is zero after it

---
 MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
index a7b6bef..3584a36 100644
--- a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
+++ b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
@@ -69,7 +69,12 @@ public:
     if (unnormed_p >= m_cdf.back())
       return m_knots.back();
 
-    std::size_t i = std::upper_bound(m_cdf.begin(), m_cdf.end(), unnormed_p) - m_cdf.begin() - 1;
+    std::size_t i = std::lower_bound(m_cdf.begin(), m_cdf.end(), unnormed_p) - m_cdf.begin();
+    // The CDF may stay at this value for a while: this is the first knot that has it
+    if (m_cdf[i] == unnormed_p) {
+      return m_knots[i];
+    }
+    --i;
 
     const double x0 = m_knots[i], x1 = m_knots[i + 1];
     const double cdf0 = m_cdf[i], cdf1 = m_cdf[i + 1];
-- 
2.43.0


From bb0d90b8af1f43b79b64bb3af7885bd78653432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 46/76] fix: InverseCumulative is not NaN or out of range
 because of rounding where the PDF is close to zero

---
 .../helpers/_impl/InverseCumulative.icpp      | 41 +++++--------------
 1 file changed, 10 insertions(+), 31 deletions(-)

diff --git a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
index 3584a36..46f7d3a 100644
--- a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
+++ b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
@@ -18,9 +18,8 @@
 
 #ifdef INVERSE_CUMULATIVE_IMPL
 
-#include "MathUtils/helpers/Solvers.h"
 #include <algorithm>
-#include <cassert>
+#include <cmath>
 
 namespace Euclid {
 namespace MathUtils {
@@ -93,36 +92,16 @@ public:
       return x0;
     }
 
-    // Since we assume a linear interpolation, we know that
-    // p0 = a * x0 + b
-    // p1 = a * x1 + b
-    // So we can solve for a and b
-    const double a = (p1 - p0) / (x1 - x0);
-    const double b = p0 - a * x0;
-
-    assert(std::abs(a * x0 + b - p0) < 1e-8);
-    assert(std::abs(a * x1 + b - p1) < 1e-8);
-
+    // Since we assume a linear interpolation, we know that, with t = x - x0
+    // pdf(t) = p0 + a * t
     // The CDF is the integral, so we also know that
-    // cdf0 = a/2 * x0^2 + b * x0 + c
-    // cdf1 = a/2 * x1^2 + b * x1 + c
-    // We already know a and b, so it is easy to solve for c
-    const double c = cdf0 - (a / 2.) * (x0 * x0) - b * x0;
-
-    // Double check that the equation passes through the CDF at the limits
-    // assert(std::abs((a / 2.) * (x0 * x0) + b * x0 + c - cdf0) < 1e-4);
-    // assert(std::abs((a / 2.) * (x1 * x1) + b * x1 + c - cdf1) < 1e-4);
-
-    // We have the equation, so we now need to solve x for p
-    double s0, s1;
-    std::tie(s0, s1) = solveSquare(a / 2, b, c, unnormed_p);
-
-    // Pick the possible result that lies within [x0, x1]
-    if (s0 >= x0 - 1e-8 && s0 <= x1 + 1e-8) {
-      return s0;
-    }
-    assert(s1 >= x0 - 1e-8 && s1 <= x1 + 1e-8);
-    return s1;
+    // cdf(t) = cdf0 + p0 * t + a/2 * t^2
+    // We have the equation, so we now need to solve t for p. Of the two solutions, this is the one within the segment,
+    // written in a way that does not suffer from cancellation.
+    const double a     = (p1 - p0) / (x1 - x0);
+    const double delta = unnormed_p - cdf0;
+    const double t     = 2. * delta / (p0 + std::sqrt(std::max(0., p0 * p0 + 2. * a * delta)));
+    return std::min(x0 + t, x1);
   }
 
 private:
-- 
2.43.0


From fba290777b7a3e52dc6b6f1de7a6fc3f4725907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:37 +0000
Subject: [PATCH 47/76] fix: InverseCumulative of discrete knots checks that
 there is a PDF value for every knot

---
 MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
index 46f7d3a..f98605d 100644
--- a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
+++ b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
@@ -117,6 +117,9 @@ template <typename TKnot>
 class InverseCumulative<TKnot, typename std::enable_if<!std::is_floating_point<TKnot>::value>::type> {
 public:
   InverseCumulative(std::vector<TKnot> knots, std::vector<double> pdf) : m_knots(std::move(knots)), m_cdf(std::move(pdf)) {
+    if (m_knots.size() != m_cdf.size()) {
+      throw Elements::Exception() << "PDF and knots dimensionality do not match: " << m_knots.size() << " != " << m_cdf.size();
+    }
     // Compute cumulative and normalize
     for (std::size_t i = 1; i < m_cdf.size(); ++i) {
       m_cdf[i] += m_cdf[i - 1];
-- 
2.43.0


From 94ea38dcc3da740f25642ebaf1c7f4c9feb7889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:34 +0000
Subject: [PATCH 48/76] fix: the median of a histogram is interpolated with the
 count and width of its bin, and ignores clipped bins

---
 Histogram/Histogram/_impl/ComputationImpl.icpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/Histogram/Histogram/_impl/ComputationImpl.icpp b/Histogram/Histogram/_impl/ComputationImpl.icpp
index 2af6c21..f44a9e6 100644
--- a/Histogram/Histogram/_impl/ComputationImpl.icpp
+++ b/Histogram/Histogram/_impl/ComputationImpl.icpp
@@ -52,13 +52,17 @@ std::tuple<VarType, VarType, VarType> Histogram<VarType, WeightType>::Computatio
   assert(low_sum + high_sum == total_count);
 
   VarType median;
-  if (high_i >= 0) {
-    auto edges      = m_binning.getBinEdges(high_i + 1);
-    auto bin_width  = (edges.second - edges.first);
-    auto max_counts = std::max((*m_counts)[low_i], (*m_counts)[high_i]);
-    median          = edges.first + bin_width * (high_sum - low_sum) / (2.0 * max_counts);
+  if (high_i < m_clip_left) {
+    // All the counts (if any) are on the first bin
+    median = m_binning.getBin(m_clip_left);
+  } else if (high_sum > low_sum) {
+    auto edges = m_binning.getBinEdges(low_i);
+    median     = edges.first + (edges.second - edges.first) * (high_sum - low_sum) / (2.0 * (*m_counts)[low_i]);
+  } else if (high_sum < low_sum) {
+    auto edges = m_binning.getBinEdges(high_i);
+    median     = edges.second - (edges.second - edges.first) * (low_sum - high_sum) / (2.0 * (*m_counts)[high_i]);
   } else {
-    median = m_binning.getBin(0);
+    median = m_binning.getEdge(low_i);
   }
 
   return std::make_tuple(mean, median, sigma);
-- 
2.43.0


From 9e0691e252094a7c0252bc0b8fb4042f27be9f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:34 +0000
Subject: [PATCH 49/76] fix: edges and centers of a clipped histogram are those
 of its bins

---
 Histogram/Histogram/Histogram.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Histogram/Histogram/Histogram.h b/Histogram/Histogram/Histogram.h
index 869e275..41e3f04 100644
--- a/Histogram/Histogram/Histogram.h
+++ b/Histogram/Histogram/Histogram.h
@@ -236,7 +236,9 @@ public:
    *    The number of edges is equal to the number of bins + 1
    */
   std::vector<VarType> getEdges() const {
-    return m_binning_concept->getBinStrategy().getEdges();
+    auto edges = m_binning_concept->getBinStrategy().getEdges();
+    return std::vector<VarType>(edges.begin() + m_binning_concept->m_clip_left,
+                                edges.begin() + m_binning_concept->m_clip_right + 2);
   }
 
   /**
@@ -244,8 +246,8 @@ public:
    *    The center of the bins
    */
   std::vector<VarType> getBins() const {
-    std::vector<VarType> bins(m_binning_concept->m_counts->size());
-    size_t               i = 0;
+    std::vector<VarType> bins(size());
+    size_t               i = m_binning_concept->m_clip_left;
     std::generate(bins.begin(), bins.end(), [this, &i]() { return m_binning_concept->getBinStrategy().getBin(i++); });
     return bins;
   }
@@ -257,7 +259,7 @@ public:
    *    The edges for the given bin
    */
   std::pair<VarType, VarType> getBinEdges(size_t i) const {
-    return m_binning_concept->getBinStrategy().getBinEdges(i);
+    return m_binning_concept->getBinStrategy().getBinEdges(i + m_binning_concept->m_clip_left);
   }
 
   /**
-- 
2.43.0


From 49955ec53f444a9b0757733a07254961037280cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:34 +0000
Subject: [PATCH 50/76] fix: histograms can be assigned

---
 Histogram/Histogram/Histogram.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Histogram/Histogram/Histogram.h b/Histogram/Histogram/Histogram.h
index 41e3f04..882c1c3 100644
--- a/Histogram/Histogram/Histogram.h
+++ b/Histogram/Histogram/Histogram.h
@@ -205,7 +205,10 @@ public:
   /**
    * Assignment operator
    */
-  Histogram& operator=(const Histogram&) = default;
+  Histogram& operator=(const Histogram& other) {
+    m_binning_concept = other.m_binning_concept->clone();
+    return *this;
+  }
 
   /**
    * Move assignment operator
-- 
2.43.0


From 49ef29e5347c7ebf429a1b527fe13a64222147cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:34 +0000
Subject: [PATCH 51/76] fix: values that are not a number are not counted in
 the last bin

---
 Histogram/Histogram/Binning/EdgeVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Histogram/Histogram/Binning/EdgeVector.h b/Histogram/Histogram/Binning/EdgeVector.h
index c178ffa..d76995f 100644
--- a/Histogram/Histogram/Binning/EdgeVector.h
+++ b/Histogram/Histogram/Binning/EdgeVector.h
@@ -58,7 +58,7 @@ public:
   EdgeVector(const EdgeVector&) = default;
 
   ssize_t getBinIndex(VarType value) const final {
-    if (value < m_edges.front() || value > m_edges.back())
+    if (!(value >= m_edges.front() && value <= m_edges.back()))
       return -1;
     auto next_edge = std::find_if(m_edges.begin(), m_edges.end(), [value](const VarType edge) { return edge > value; });
     if (next_edge == m_edges.end())
-- 
2.43.0


From a697b35fc0f07f92e93f08e94a65e146565dec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:34 +0000
Subject: [PATCH 52/76] fix: values just outside of the bins do not belong to
 the first one, nor do those close to the end belong to none

---
 Histogram/Histogram/Binning/Scott.h | 5 ++++-
 Histogram/Histogram/Binning/Sqrt.h  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Histogram/Histogram/Binning/Scott.h b/Histogram/Histogram/Binning/Scott.h
index e3b53d8..3fb6dd0 100644
--- a/Histogram/Histogram/Binning/Scott.h
+++ b/Histogram/Histogram/Binning/Scott.h
@@ -83,9 +83,12 @@ public:
   }
 
   ssize_t getBinIndex(VarType value) const final {
+    if (!(value >= m_start && value <= m_end))
+      return -1;
     if (value == m_end)
       return m_nbins - 1;
-    return (value - m_start) / m_step;
+    // The division may be rounded up for values close to the end
+    return std::min<ssize_t>((value - m_start) / m_step, m_nbins - 1);
   }
 
   std::pair<VarType, VarType> getBinEdges(size_t i) const final {
diff --git a/Histogram/Histogram/Binning/Sqrt.h b/Histogram/Histogram/Binning/Sqrt.h
index f707e96..3a906d0 100644
--- a/Histogram/Histogram/Binning/Sqrt.h
+++ b/Histogram/Histogram/Binning/Sqrt.h
@@ -52,9 +52,12 @@ public:
   }
 
   ssize_t getBinIndex(VarType value) const final {
+    if (!(value >= m_start && value <= m_end))
+      return -1;
     if (value == m_end)
       return m_nbins - 1;
-    return (value - m_start) / m_step;
+    // The division may be rounded up for values close to the end
+    return std::min<ssize_t>((value - m_start) / m_step, m_nbins - 1);
   }
 
   std::pair<VarType, VarType> getBinEdges(size_t i) const final {
-- 
2.43.0


From 61b30bf9b72f9235f60738bdacae3d77372f79fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:34 +0000
Subject: [PATCH 53/76] fix: histograms of no values have no bins

---
 Histogram/Histogram/Binning/Scott.h | 5 +++++
 Histogram/Histogram/Binning/Sqrt.h  | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/Histogram/Histogram/Binning/Scott.h b/Histogram/Histogram/Binning/Scott.h
index 3fb6dd0..aefbac6 100644
--- a/Histogram/Histogram/Binning/Scott.h
+++ b/Histogram/Histogram/Binning/Scott.h
@@ -61,6 +61,11 @@ public:
     std::for_each(begin, end, std::bind<void>(std::ref(acc), std::placeholders::_1));
 
     size_t n = end - begin;
+    if (n == 0) {
+      m_nbins = 0;
+      m_start = m_step = m_end = 0;
+      return;
+    }
 
     VarType sigma = std::sqrt(variance(acc));
     VarType h     = 3.5 * sigma / std::pow(n, 1. / 3.);
diff --git a/Histogram/Histogram/Binning/Sqrt.h b/Histogram/Histogram/Binning/Sqrt.h
index 3a906d0..ac95390 100644
--- a/Histogram/Histogram/Binning/Sqrt.h
+++ b/Histogram/Histogram/Binning/Sqrt.h
@@ -44,7 +44,11 @@ class Sqrt : public BinStrategy<VarType> {
 public:
   template <typename Iterator>
   void computeBins(Iterator begin, Iterator end) {
-    m_nbins     = std::ceil(std::sqrt(end - begin));
+    m_nbins = std::ceil(std::sqrt(end - begin));
+    if (begin == end) {
+      m_start = m_step = m_end = 0;
+      return;
+    }
     auto minmax = std::minmax_element(begin, end);
     m_step      = (*minmax.second - *minmax.first) / m_nbins;
     m_start     = *minmax.first;
-- 
2.43.0


From 01b351e80951bad151cc03e5de892e494b31e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:34 +0000
Subject: [PATCH 54/76] fix: automatic binning of integers covers all the
 values and does not divide by zero

---
 Histogram/Histogram/Binning/Scott.h | 18 +++++++++++++-----
 Histogram/Histogram/Binning/Sqrt.h  |  5 +++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/Histogram/Histogram/Binning/Scott.h b/Histogram/Histogram/Binning/Scott.h
index aefbac6..af3d571 100644
--- a/Histogram/Histogram/Binning/Scott.h
+++ b/Histogram/Histogram/Binning/Scott.h
@@ -67,10 +67,12 @@ public:
       return;
     }
 
-    VarType sigma = std::sqrt(variance(acc));
-    VarType h     = 3.5 * sigma / std::pow(n, 1. / 3.);
-    VarType vmin  = min(acc);
-    VarType vmax  = max(acc);
+    using Real = typename std::conditional<std::is_integral<VarType>::value, double, VarType>::type;
+
+    Real sigma = std::sqrt(variance(acc));
+    Real h     = 3.5 * sigma / std::pow(n, 1. / 3.);
+    Real vmin  = min(acc);
+    Real vmax  = max(acc);
 
     if (sigma == 0) {
       vmax += 0.5;
@@ -78,13 +80,19 @@ public:
       h = 1;
     }
 
-    VarType range = vmax - vmin;
+    Real range = vmax - vmin;
 
     m_nbins = std::ceil(range / h);
 
     m_step  = range / m_nbins;
     m_start = vmin;
     m_end   = vmax;
+    if (std::is_integral<VarType>::value) {
+      // Bins with an integer width which cover all the values
+      m_start = min(acc);
+      m_step  = std::max<double>(1., std::ceil(range / m_nbins));
+      m_end   = m_start + m_step * m_nbins;
+    }
   }
 
   ssize_t getBinIndex(VarType value) const final {
diff --git a/Histogram/Histogram/Binning/Sqrt.h b/Histogram/Histogram/Binning/Sqrt.h
index ac95390..4b9e08b 100644
--- a/Histogram/Histogram/Binning/Sqrt.h
+++ b/Histogram/Histogram/Binning/Sqrt.h
@@ -53,6 +53,11 @@ public:
     m_step      = (*minmax.second - *minmax.first) / m_nbins;
     m_start     = *minmax.first;
     m_end       = *minmax.second;
+    if (std::is_integral<VarType>::value) {
+      // Bins with an integer width which cover all the values
+      m_step = std::max<double>(1., std::ceil((static_cast<double>(m_end) - m_start) / m_nbins));
+      m_end  = m_start + m_step * m_nbins;
+    }
   }
 
   ssize_t getBinIndex(VarType value) const final {
-- 
2.43.0


From fb98f80af18ead028818193495566a0fdeff1636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 55/76] fix: the linear unit disk includes the cells after the
 best matching unit

---
 SOM/src/lib/NeihbourhoodFunc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SOM/src/lib/NeihbourhoodFunc.cpp b/SOM/src/lib/NeihbourhoodFunc.cpp
index f18e643..91dc232 100644
--- a/SOM/src/lib/NeihbourhoodFunc.cpp
+++ b/SOM/src/lib/NeihbourhoodFunc.cpp
@@ -29,8 +29,8 @@ Signature linearUnitDisk(double initial_radius) {
                     std::size_t total_iterations) -> double {
     double iter_factor = 1.0 * (total_iterations - iteration) / total_iterations;
     iter_factor        = iter_factor * iter_factor;  // We compare the squared distances
-    double x           = bmu.first - cell.first;
-    double y           = bmu.second - cell.second;
+    double x           = static_cast<double>(bmu.first) - cell.first;
+    double y           = static_cast<double>(bmu.second) - cell.second;
     double dist_square = x * x + y * y;
     if (dist_square < r_square * iter_factor) {
       return 1.;
-- 
2.43.0


From 3d60ac9b4f5c20b6a12cc9162191bb00b1984b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 56/76] fix: the random sampling policies select nothing when
 there is nothing to select

---
 SOM/SOM/SamplingPolicy.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SOM/SOM/SamplingPolicy.h b/SOM/SOM/SamplingPolicy.h
index 7daf2c8..368429e 100644
--- a/SOM/SOM/SamplingPolicy.h
+++ b/SOM/SOM/SamplingPolicy.h
@@ -62,6 +62,9 @@ public:
   IterType start(IterType begin, IterType end) const override {
 
     m_end = end;
+    if (begin == end) {
+      return end;
+    }
 
     std::random_device              rd;
     std::mt19937                    gen(rd());
@@ -126,7 +129,7 @@ public:
     // Set the current iterator at the beginning of the vector and return it
     m_current        = 0;
     m_iter_list_size = m_iter_list.size();
-    return m_iter_list[m_current];
+    return m_iter_list.empty() ? m_end : m_iter_list[m_current];
   }
 
   IterType next(IterType) const override {
-- 
2.43.0


From 362132417c35de78050500776a2cd2c6c6c2cecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 57/76] fix: the U-matrix can be used from more than one
 translation unit

---
 SOM/SOM/_impl/UMatrix.icpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SOM/SOM/_impl/UMatrix.icpp b/SOM/SOM/_impl/UMatrix.icpp
index bc4341e..c2990da 100644
--- a/SOM/SOM/_impl/UMatrix.icpp
+++ b/SOM/SOM/_impl/UMatrix.icpp
@@ -31,7 +31,7 @@ namespace SOM {
 
 namespace UMatrix_impl {
 
-std::map<UMatrixType, std::function<double(const std::vector<double>&)>> type_func_map{
+static const std::map<UMatrixType, std::function<double(const std::vector<double>&)>> type_func_map{
     {UMatrixType::MIN, [](const std::vector<double>& dist_list) { return *std::min_element(dist_list.begin(), dist_list.end()); }},
     {UMatrixType::MAX, [](const std::vector<double>& dist_list) { return *std::max_element(dist_list.begin(), dist_list.end()); }},
     {UMatrixType::MEAN, [](const std::vector<double>& dist_list) {
-- 
2.43.0


From f61675965c9439df7745aaff3753219083f6de9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 58/76] fix: the U-matrix of a SOM with a single cell does not
 read out of bounds

---
 SOM/SOM/_impl/UMatrix.icpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SOM/SOM/_impl/UMatrix.icpp b/SOM/SOM/_impl/UMatrix.icpp
index c2990da..cdb0c0c 100644
--- a/SOM/SOM/_impl/UMatrix.icpp
+++ b/SOM/SOM/_impl/UMatrix.icpp
@@ -23,6 +23,7 @@
 
 #include "SOM/ImplTools.h"
 #include <algorithm>
+#include <limits>
 #include <map>
 #include <numeric>
 
@@ -73,8 +74,8 @@ UMatrix computeUMatrix(const SOM<ND, DistFunc>& som, UMatrixType type) {
         }
       }
 
-      // Populate the u-matrix cell
-      result(x, y) = type_func(dist_list);
+      // Populate the u-matrix cell. The only cell of a 1x1 SOM has no neighbors.
+      result(x, y) = dist_list.empty() ? std::numeric_limits<double>::quiet_NaN() : type_func(dist_list);
     }
   }
 
-- 
2.43.0


From d6ccc3db6df17610d70e836dc14264c21abbf8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:14 +0000
Subject: [PATCH 59/76] fix: the copy of a memory mapped NdArray does not share
 the file with it

---
 NdArray/NdArray/NdArray.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NdArray/NdArray/NdArray.h b/NdArray/NdArray/NdArray.h
index baee815..273299f 100644
--- a/NdArray/NdArray/NdArray.h
+++ b/NdArray/NdArray/NdArray.h
@@ -538,7 +538,8 @@ private:
     }
 
     std::unique_ptr<ContainerInterface> copy() const final {
-      return Euclid::make_unique<ContainerWrapper>(m_container);
+      // Container may share its storage when copied (i.e. a memory mapped file)
+      return Euclid::make_unique<ContainerWrapper<std::vector>>(m_data_ptr, m_data_ptr + size());
     }
   };
 
-- 
2.43.0


From 6f254495a98769515277a5b2d5ae4afd02464d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:14 +0000
Subject: [PATCH 60/76] fix: the data of a NPY file mapped in read-only mode
 can be read

---
 NdArray/NdArray/io/_impl/NpyCommon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 43f176d..2a29732 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -331,7 +331,7 @@ public:
       , m_max_size(max_size)
       , m_attr_names(attr_names)
       , m_mapped(std::move(input))
-      , m_data(reinterpret_cast<T*>(m_mapped.data() + data_offset)) {}
+      , m_data(reinterpret_cast<T*>(const_cast<char*>(m_mapped.const_data()) + data_offset)) {}
 
   size_t size() const {
     return m_n_elements;
-- 
2.43.0


From a658753df049b06ddf0e7d2f96df7f67173a8e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:14 +0000
Subject: [PATCH 61/76] fix: NPY files with 8 bit integers written by numpy can
 be read

---
 NdArray/NdArray/io/_impl/NpyCommon.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 2a29732..efd480e 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -109,6 +109,12 @@ struct NpyDtype<double> {
 inline void parseSingleValue(const std::string& descr, bool& big_endian, std::string& dtype) {
   big_endian = (descr.front() == '>');
   dtype      = descr.substr(1);
+  // numpy names these as any other integer when writing
+  if (dtype == "i1") {
+    dtype = NpyDtype<int8_t>::str;
+  } else if (dtype == "u1") {
+    dtype = NpyDtype<uint8_t>::str;
+  }
 }
 
 /**
-- 
2.43.0


From cda4c3dbf4dec7c9cf59a3a1f05a3263f5e83a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:14 +0000
Subject: [PATCH 62/76] fix: attribute names do not confuse the parsing of NPY
 headers

---
 NdArray/NdArray/io/_impl/NpyCommon.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index efd480e..17f7e4b 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -168,22 +168,26 @@ inline void parseFieldValues(const std::string& descr, bool& big_endian, std::ve
  */
 inline void parseNpyDict(const std::string& header, bool& fortran_order, bool& big_endian, std::string& dtype,
                          std::vector<size_t>& shape, std::vector<std::string>& attrs, size_t& n_elements) {
-  auto loc      = header.find("fortran_order") + 16;
+  auto loc      = header.find("'fortran_order':") + 17;
   fortran_order = (header.substr(loc, 4) == "True");
 
-  loc = header.find("descr") + 8;
+  loc = header.find("'descr':") + 9;
 
   if (header[loc] == '\'') {
     auto end = header.find('\'', loc + 1);
     parseSingleValue(header.substr(loc + 1, end - loc - 1), big_endian, dtype);
   } else if (header[loc] == '[') {
-    auto end = header.find(']', loc + 1);
+    // Attribute names may contain brackets
+    auto end = loc + 1;
+    for (bool quoted = false; end < header.size() && (quoted || header[end] != ']'); ++end) {
+      quoted ^= (header[end] == '\'');
+    }
     parseFieldValues(header.substr(loc + 1, end - loc - 1), big_endian, attrs, dtype);
   } else {
     throw Elements::Exception() << "Failed to parse the array description: " << header;
   }
 
-  loc            = header.find("shape") + 9;
+  loc            = header.find("'shape':") + 10;
   auto loc2      = header.find(')', loc);
   auto shape_str = header.substr(loc, loc2 - loc);
   if (shape_str.back() == ',')
-- 
2.43.0


From 588cbb662e76185c7c2f8d8125d671dd3c235073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:14 +0000
Subject: [PATCH 63/76] fix: NPY files without axes or without elements can be
 read

---
 NdArray/NdArray/io/_impl/NpyCommon.h    | 2 +-
 NdArray/NdArray/io/_impl/NpyReader.icpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 17f7e4b..f8397f6 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -190,7 +190,7 @@ inline void parseNpyDict(const std::string& header, bool& fortran_order, bool& b
   loc            = header.find("'shape':") + 10;
   auto loc2      = header.find(')', loc);
   auto shape_str = header.substr(loc, loc2 - loc);
-  if (shape_str.back() == ',')
+  if (!shape_str.empty() && shape_str.back() == ',')
     shape_str.resize(shape_str.size() - 1);
   shape      = stringToVector<size_t>(shape_str);
   n_elements = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<size_t>());
diff --git a/NdArray/NdArray/io/_impl/NpyReader.icpp b/NdArray/NdArray/io/_impl/NpyReader.icpp
index b76c2e0..3d70126 100644
--- a/NdArray/NdArray/io/_impl/NpyReader.icpp
+++ b/NdArray/NdArray/io/_impl/NpyReader.icpp
@@ -46,7 +46,7 @@ NdArray<T> readNpy(std::istream& input) {
   }
 
   std::vector<T> data(n_elements);
-  input.read(reinterpret_cast<char*>(&data[0]), sizeof(T) * data.size());
+  input.read(reinterpret_cast<char*>(data.data()), sizeof(T) * data.size());
   return {shape, attr_names, std::move(data)};
 }
 
-- 
2.43.0


From 55a2a1c57bde6f5d70b56ef80cbca3f3dd2e5144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:14 +0000
Subject: [PATCH 64/76] fix: the number of elements of a NPY file does not
 overflow, nor change when a resize fails

---
 NdArray/NdArray/io/_impl/NpyCommon.h  | 7 ++++---
 NdArray/NdArray/io/_impl/NpyMmap.icpp | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index f8397f6..48603e6 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -193,7 +193,7 @@ inline void parseNpyDict(const std::string& header, bool& fortran_order, bool& b
   if (!shape_str.empty() && shape_str.back() == ',')
     shape_str.resize(shape_str.size() - 1);
   shape      = stringToVector<size_t>(shape_str);
-  n_elements = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<size_t>());
+  n_elements = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
 }
 
 /**
@@ -363,13 +363,14 @@ public:
                                      "The new header length must match the allocated space.";
     }
 
-    m_n_elements    = std::accumulate(shape.begin(), shape.end(), 1u, std::multiplies<size_t>());
-    size_t new_size = header_size + sizeof(T) * m_n_elements;
+    size_t n_elements = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
+    size_t new_size   = header_size + sizeof(T) * n_elements;
     if (new_size > m_max_size) {
       throw Elements::Exception() << "resize request bigger than maximum allocated size: " << new_size << " > " << m_max_size;
     }
     boost::filesystem::resize_file(m_path, new_size);
     std::copy(header_str.begin(), header_str.end(), m_mapped.data());
+    m_n_elements = n_elements;
   }
 
 private:
diff --git a/NdArray/NdArray/io/_impl/NpyMmap.icpp b/NdArray/NdArray/io/_impl/NpyMmap.icpp
index c7b34dc..e46a4a8 100644
--- a/NdArray/NdArray/io/_impl/NpyMmap.icpp
+++ b/NdArray/NdArray/io/_impl/NpyMmap.icpp
@@ -70,7 +70,7 @@ NdArray<T> createMmapNpy(const boost::filesystem::path& path, const std::vector<
   assert(header_size % 64 == 0);
 
   // Compute file expected size
-  size_t n_elements = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<size_t>());
+  size_t n_elements = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
   if (!attrs.empty())
     n_elements *= attrs.size();
   size_t data_size  = n_elements * sizeof(T);
-- 
2.43.0


From 32edcc2a876905b46e3826a3ce80aa85e7976634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:14 +0000
Subject: [PATCH 65/76] fix: truncated NPY files are not read, and mapping a
 NPY file covers all of it

---
 NdArray/NdArray/io/_impl/NpyCommon.h    |  5 ++++-
 NdArray/NdArray/io/_impl/NpyMmap.icpp   | 11 ++++++++---
 NdArray/NdArray/io/_impl/NpyReader.icpp |  3 +++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 48603e6..cf65fc0 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -215,7 +215,7 @@ inline void readNpyHeader(std::istream& input, std::string& dtype, std::vector<s
   // Magic
   char magic[6];
   input.read(magic, sizeof(magic));
-  if (std::memcmp(magic, NPY_MAGIC, sizeof(NPY_MAGIC)) != 0) {
+  if (!input || std::memcmp(magic, NPY_MAGIC, sizeof(NPY_MAGIC)) != 0) {
     throw Elements::Exception() << "Unexpected magic sequence";
   }
 
@@ -238,6 +238,9 @@ inline void readNpyHeader(std::istream& input, std::string& dtype, std::vector<s
   // Read header
   std::string header(header_len, '\0');
   input.read(&header[0], header_len);
+  if (!input) {
+    throw Elements::Exception() << "Truncated npy file";
+  }
 
   // Parse header
   bool fortran_order, big_endian;
diff --git a/NdArray/NdArray/io/_impl/NpyMmap.icpp b/NdArray/NdArray/io/_impl/NpyMmap.icpp
index e46a4a8..6170a74 100644
--- a/NdArray/NdArray/io/_impl/NpyMmap.icpp
+++ b/NdArray/NdArray/io/_impl/NpyMmap.icpp
@@ -38,10 +38,11 @@ NdArray<T> mmapNpy(const boost::filesystem::path& path, boost::iostreams::mapped
   boost::iostreams::mapped_file_params map_params;
   map_params.path  = path.native();
   map_params.flags = mode;
-  if (max_size)
+  size_t file_size = boost::filesystem::file_size(path);
+  if (max_size > file_size)
     map_params.length = max_size;
   else
-    max_size = boost::filesystem::file_size(path);
+    max_size = file_size;
 
   boost::iostreams::mapped_file input(map_params);
   MappedStream                  stream(input);
@@ -55,7 +56,11 @@ NdArray<T> mmapNpy(const boost::filesystem::path& path, boost::iostreams::mapped
     n_elements *= attrs.size();
   }
 
-  return {shape, attrs, std::move(MappedContainer<T>(path, stream.tellg(), n_elements, attrs, std::move(input), max_size))};
+  size_t data_offset = stream.tellg();
+  if (data_offset > file_size || n_elements > (file_size - data_offset) / sizeof(T))
+    throw Elements::Exception() << "Truncated npy file";
+
+  return {shape, attrs, std::move(MappedContainer<T>(path, data_offset, n_elements, attrs, std::move(input), max_size))};
 }
 
 template <typename T>
diff --git a/NdArray/NdArray/io/_impl/NpyReader.icpp b/NdArray/NdArray/io/_impl/NpyReader.icpp
index 3d70126..5c200b1 100644
--- a/NdArray/NdArray/io/_impl/NpyReader.icpp
+++ b/NdArray/NdArray/io/_impl/NpyReader.icpp
@@ -47,6 +47,9 @@ NdArray<T> readNpy(std::istream& input) {
 
   std::vector<T> data(n_elements);
   input.read(reinterpret_cast<char*>(data.data()), sizeof(T) * data.size());
+  if (!input) {
+    throw Elements::Exception() << "Truncated npy file";
+  }
   return {shape, attr_names, std::move(data)};
 }
 
-- 
2.43.0


From 6f0d633dd572328f25ea8fbd637e664292a665ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:37 +0000
Subject: [PATCH 66/76] fix: the header of a NPY file mapped in read-only mode
 can be read

---
 NdArray/NdArray/io/_impl/NpyMmap.icpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyMmap.icpp b/NdArray/NdArray/io/_impl/NpyMmap.icpp
index 6170a74..382fa57 100644
--- a/NdArray/NdArray/io/_impl/NpyMmap.icpp
+++ b/NdArray/NdArray/io/_impl/NpyMmap.icpp
@@ -20,13 +20,14 @@
 
 #include "NpyCommon.h"
 #include <boost/filesystem/path.hpp>
+#include <boost/iostreams/device/array.hpp>
 #include <boost/iostreams/stream.hpp>
 #include <numeric>
 
 namespace Euclid {
 namespace NdArray {
 
-typedef boost::iostreams::stream<boost::iostreams::mapped_file> MappedStream;
+typedef boost::iostreams::stream<boost::iostreams::array_source> MappedStream;
 
 template <typename T>
 NdArray<T> mmapNpy(const boost::filesystem::path& path, boost::iostreams::mapped_file_base::mapmode mode, size_t max_size) {
@@ -45,8 +46,7 @@ NdArray<T> mmapNpy(const boost::filesystem::path& path, boost::iostreams::mapped
     max_size = file_size;
 
   boost::iostreams::mapped_file input(map_params);
-  MappedStream                  stream(input);
-  stream.set_auto_close(false);
+  MappedStream                  stream(input.const_data(), file_size);
   readNpyHeader(stream, dtype, shape, attrs, n_elements);
 
   if (dtype != NpyDtype<T>::str)
-- 
2.43.0


From db2abb1823fbb5ef0fa6552d19c15fb15715a705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:13 +0000
Subject: [PATCH 67/76] fix: all the elements of an array that was concatenated
 are written to NPY files

---
 NdArray/NdArray/io/_impl/NpyWriter.icpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/NdArray/NdArray/io/_impl/NpyWriter.icpp b/NdArray/NdArray/io/_impl/NpyWriter.icpp
index c75e2d6..d601158 100644
--- a/NdArray/NdArray/io/_impl/NpyWriter.icpp
+++ b/NdArray/NdArray/io/_impl/NpyWriter.icpp
@@ -27,6 +27,7 @@
 #include "NpyCommon.h"
 #include <ElementsKernel/Exception.h>
 #include <boost/endian/arithmetic.hpp>
+#include <numeric>
 #include <sstream>
 
 namespace Euclid {
@@ -39,7 +40,12 @@ template <typename T>
 void writeNpy(std::ostream& out, const NdArray<T>& array) {
   writeNpyHeader<T>(out, array.shape(), array.attributes());
   // The header already has the endian type, so just dump the content of the array
-  for (auto v : array) {
+  // Note: the range begin/end does not cover the elements added by concatenate
+  auto shape      = array.shape();
+  auto n_elements = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
+  auto iter       = array.begin();
+  for (size_t i = 0; i < n_elements; ++i, ++iter) {
+    T v = *iter;
     out.write(reinterpret_cast<const char*>(&v), sizeof(v));
   }
 }
-- 
2.43.0


From 6610ab27a3888b4c2b35a5c10b99f19bdaf31d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:15 +0000
Subject: [PATCH 68/76] fix: the shape of a NPY file without axes is parsed

---
 NdArray/NdArray/io/_impl/NpyCommon.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index cf65fc0..4ef153f 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -192,7 +192,9 @@ inline void parseNpyDict(const std::string& header, bool& fortran_order, bool& b
   auto shape_str = header.substr(loc, loc2 - loc);
   if (!shape_str.empty() && shape_str.back() == ',')
     shape_str.resize(shape_str.size() - 1);
-  shape      = stringToVector<size_t>(shape_str);
+  shape.clear();
+  if (!shape_str.empty())
+    shape = stringToVector<size_t>(shape_str);
   n_elements = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
 }
 
-- 
2.43.0


From e9b4b1c4afc29f26641619f3573e4b9903542d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:22 +0000
Subject: [PATCH 69/76] fix: tables with vectors of booleans are rejected
 before anything of them is written to FITS

---
 Table/src/lib/FitsWriterHelper.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/Table/src/lib/FitsWriterHelper.cpp b/Table/src/lib/FitsWriterHelper.cpp
index 260d949..1b129ac 100644
--- a/Table/src/lib/FitsWriterHelper.cpp
+++ b/Table/src/lib/FitsWriterHelper.cpp
@@ -125,9 +125,6 @@ std::vector<std::string> getBinaryFormatList(const Table& table) {
     } else if (type == typeid(std::string)) {
       size_t width = maxWidth(table, column_index);
       format_list.push_back(boost::lexical_cast<std::string>(width) + "A");
-    } else if (type == typeid(std::vector<bool>)) {
-      size_t size = vectorSize<bool>(table, column_index);
-      format_list.push_back(boost::lexical_cast<std::string>(size) + "L");
     } else if (type == typeid(std::vector<int32_t>)) {
       size_t size = vectorSize<int32_t>(table, column_index);
       format_list.push_back(boost::lexical_cast<std::string>(size) + "J");
-- 
2.43.0


From 2b2cfadc85e4a25cd3a75ada499533073cd80915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:22 +0000
Subject: [PATCH 70/76] fix: a table writer can be used after the first table
 was rejected

---
 Table/src/lib/TableWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Table/src/lib/TableWriter.cpp b/Table/src/lib/TableWriter.cpp
index a4d6aeb..3f3714f 100644
--- a/Table/src/lib/TableWriter.cpp
+++ b/Table/src/lib/TableWriter.cpp
@@ -31,8 +31,8 @@ namespace Table {
 void TableWriter::addData(const Table& table) {
   auto& info = *table.getColumnInfo();
   if (m_column_info == nullptr) {
-    m_column_info.reset(new ColumnInfo(info));
     init(table);
+    m_column_info.reset(new ColumnInfo(info));
   } else if (*m_column_info != info) {
     throw Elements::Exception() << "Cannot append table with different columns";
   }
-- 
2.43.0


From 57e93df5ee97feaa33b7fbbae0bcf62f20ee88c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:22 +0000
Subject: [PATCH 71/76] fix: no rows are left after skipping beyond the end of
 a FITS table

---
 Table/src/lib/FitsReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Table/src/lib/FitsReader.cpp b/Table/src/lib/FitsReader.cpp
index 40a7d91..12a297c 100644
--- a/Table/src/lib/FitsReader.cpp
+++ b/Table/src/lib/FitsReader.cpp
@@ -158,7 +158,7 @@ Table FitsReader::readImpl(long rows) {
 
 void FitsReader::skip(long rows) {
   readColumnInfo();
-  m_current_row += rows;
+  m_current_row = std::min(m_current_row + rows, m_total_rows + 1);
 }
 
 bool FitsReader::hasMoreRows() {
-- 
2.43.0


From a575c6c394a2d2b1787fb09f0d4327bd0d1e95f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:22 +0000
Subject: [PATCH 72/76] fix: reading any negative number of rows of a FITS
 table reads all of them

---
 Table/src/lib/FitsReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Table/src/lib/FitsReader.cpp b/Table/src/lib/FitsReader.cpp
index 12a297c..b206ba5 100644
--- a/Table/src/lib/FitsReader.cpp
+++ b/Table/src/lib/FitsReader.cpp
@@ -126,7 +126,7 @@ Table FitsReader::readImpl(long rows) {
   if (m_current_row > m_total_rows) {
     throw Elements::Exception() << "No more table rows left";
   }
-  if (rows == -1) {
+  if (rows < 0) {
     rows = m_total_rows - m_current_row + 1;
   }
   rows = std::min(rows, m_total_rows - m_current_row + 1);
-- 
2.43.0


From f65a183242c2cf6622a2393a0e3925e57a2ee90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:22 +0000
Subject: [PATCH 73/76] fix: FITS tables are not appended to images

---
 Table/src/lib/FitsWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Table/src/lib/FitsWriter.cpp b/Table/src/lib/FitsWriter.cpp
index f7c9f77..d013c2a 100644
--- a/Table/src/lib/FitsWriter.cpp
+++ b/Table/src/lib/FitsWriter.cpp
@@ -91,6 +91,9 @@ void FitsWriter::init(const Table& table) {
   CCfits::Table* table_hdu;
   if (!new_hdu) {
     table_hdu = dynamic_cast<CCfits::Table*>(extension_i->second);
+    if (table_hdu == nullptr) {
+      throw Elements::Exception() << "HDU " << m_hdu_name << " is not a table";
+    }
   } else {
     table_hdu = fits->addTable(m_hdu_name, 0, column_name_list, column_format_list, column_unit_list, hdu_type);
 
-- 
2.43.0


From b300cddfe37f79ef4de01547ed12dcce715e439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:22 +0000
Subject: [PATCH 74/76] fix: texts of one character can be read from FITS
 binary tables

---
 Table/src/lib/FitsReaderHelper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Table/src/lib/FitsReaderHelper.cpp b/Table/src/lib/FitsReaderHelper.cpp
index 073f9ef..369a51a 100644
--- a/Table/src/lib/FitsReaderHelper.cpp
+++ b/Table/src/lib/FitsReaderHelper.cpp
@@ -102,6 +102,8 @@ std::type_index binaryFormatToType(const std::string& format, const std::vector<
       return typeid(float);
     } else if (ft == 'D') {
       return typeid(double);
+    } else if (ft == 'A') {
+      return typeid(std::string);
     }
   }
   // Last, vectors
-- 
2.43.0


From 975e270690da6548e8479a1b2ab80febbe0e9a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:22 +0000
Subject: [PATCH 75/76] fix: FITS files without a table in the first extension
 are not dataset files

---
 XYDataset/src/lib/FitsParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/XYDataset/src/lib/FitsParser.cpp b/XYDataset/src/lib/FitsParser.cpp
index 581f571..732f1aa 100644
--- a/XYDataset/src/lib/FitsParser.cpp
+++ b/XYDataset/src/lib/FitsParser.cpp
@@ -122,6 +122,8 @@ bool FitsParser::isDatasetFile(const std::string& file) {
     ELEMENTS_UNUSED auto&         temp      = dynamic_cast<const CCfits::Table&>(table_hdu);
   } catch (CCfits::FitsException& fits_except) {
     is_a_dataset_file = false;
+  } catch (std::bad_cast&) {
+    is_a_dataset_file = false;
   }
   return is_a_dataset_file;
 }
-- 
2.43.0


From e9002a0589e2a7057314769097e4a19a3dc68524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:50 +0000
Subject: [PATCH 76/76] fix: the detection of the catalog format does not read
 beyond the bytes of the file

---
 Configuration/src/lib/CatalogConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Configuration/src/lib/CatalogConfig.cpp b/Configuration/src/lib/CatalogConfig.cpp
index cbf6c6b..27ec16f 100644
--- a/Configuration/src/lib/CatalogConfig.cpp
+++ b/Configuration/src/lib/CatalogConfig.cpp
@@ -98,8 +98,8 @@ FormatType autoDetectFormatType(fs::path file) {
     std::ifstream        in{file.string()};
     std::array<char, 80> first_header_array;
     in.read(first_header_array.data(), 80);
+    std::string first_header_str(first_header_array.data(), in.gcount());
     in.close();
-    std::string first_header_str{first_header_array.data()};
     if (first_header_str.compare(0, 9, "SIMPLE  =") == 0) {
       result = FormatType::FITS;
     }
-- 
2.43.0

