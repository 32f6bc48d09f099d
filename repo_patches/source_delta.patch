From 7bcf81c9ce978dfdeba46da67eb4a4ce7568fcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:04 +0000
Subject: [PATCH 01/58] fix: RingBuf::search returns 0 for a match on the first
 readable byte

---
 source/cyCore/core/cyc_ring_buf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 09df78a..5ea1b1e 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -135,7 +135,7 @@ ssize_t RingBuf::search(size_t off, uint8_t data) const
 		const uint8_t* p = (uint8_t*)memchr(m_buf + read_off, (int)data, n);
 		if (p != nullptr) {
 			size_t pos = (size_t)(std::ptrdiff_t)(p - m_buf);
-			return (pos > m_read) ? (ssize_t)(pos - m_read) : (ssize_t)(pos + m_end - m_read);
+			return (pos >= m_read) ? (ssize_t)(pos - m_read) : (ssize_t)(pos + m_end - m_read);
 		}
 
 		read_off += n;
-- 
2.43.0


From 8b7f8f5f31b66502cf3dda92f5cbcd81d709da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:04 +0000
Subject: [PATCH 02/58] fix: RingBuf::peek and checksum bound the range without
 overflowing off+count

---
 source/cyCore/core/cyc_ring_buf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 5ea1b1e..e25077d 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -153,7 +153,7 @@ size_t RingBuf::peek(size_t off, void* dst, size_t count) const
 {
 	size_t bytes_used = size();
 	if (off > bytes_used) return 0;
-	if (off + count > bytes_used) count = bytes_used - off;
+	if (count > bytes_used - off) count = bytes_used - off;
 	if (count == 0 || dst == 0) return 0;
 
 	char* cdst = (char*)dst;
@@ -368,7 +368,7 @@ uint32_t RingBuf::checksum(size_t off, size_t count) const
 
 	size_t bytes_used = size();
 	if (off > bytes_used) return adler;
-	if (off + count > bytes_used) return adler;
+	if (count > bytes_used - off) return adler;
 	if (count == 0) return adler;
 
 	size_t read_off = (m_read + off) % m_end;
-- 
2.43.0


From 7b1963589e4f58106307fa368e9b875578f67b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:04 +0000
Subject: [PATCH 03/58] fix: RingBuf::resize gives the requested capacity for
 powers of two

---
 source/cyCore/core/cyc_ring_buf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index e25077d..cdd5c76 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -32,9 +32,9 @@ void RingBuf::resize(size_t need_size)
 {
 	if (capacity() >= need_size) return;
 
-	//auto inc size
+	//auto inc size (one byte is used for detecting the full condition)
 	size_t new_size = 2;
-	while (new_size < need_size) new_size *= 2;
+	while (new_size < need_size + 1) new_size *= 2;
 
 	//copy old data
 	size_t old_size = size();
@@ -55,7 +55,7 @@ void RingBuf::resize(size_t need_size)
 void RingBuf::memcpy_into(const void *src, size_t count)
 {
 	if (get_free_size() < count) {
-		resize(size() + count + 1);
+		resize(size() + count);
 	}
 
 	char* csrc = (char*)src;
-- 
2.43.0


From ba3baaf21a6c597fb6623ff5ca9b20c232051aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:35 +0000
Subject: [PATCH 04/58] fix: RingBuf::read_socket without readv reports EOF and
 errors only if nothing was read

---
 source/cyCore/core/cyc_ring_buf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index cdd5c76..10764aa 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -204,8 +204,8 @@ ssize_t RingBuf::read_socket(socket_t fd, bool extra_buf)
 	while (nwritten != (ssize_t)count)	{
 		ssize_t n = (ssize_t)std::min((ssize_t)(m_end - m_write), (ssize_t)(count - nwritten));
 		ssize_t len = socket_api::read(fd, m_buf + m_write, (ssize_t)n);
-		if (len == 0) return 0; //EOF
-		if (len < 0) return socket_api::is_lasterror_WOULDBLOCK() ? nwritten : len;
+		if (len == 0) return nwritten; //EOF, or report it next time if something has been read
+		if (len < 0) return (nwritten > 0) ? nwritten : len;
 
 		m_write += len;
 		nwritten += len;
@@ -221,7 +221,7 @@ ssize_t RingBuf::read_socket(socket_t fd, bool extra_buf)
 	if (extra_buf) {
 		ssize_t len = socket_api::read(fd, stack_buf, STACK_BUF_SIZE);
 		if (len == 0) return nwritten; //EOF
-		if (len < 0) return socket_api::is_lasterror_WOULDBLOCK() ? nwritten : len;
+		if (len < 0) return (nwritten > 0) ? nwritten : len;
 		memcpy_into(stack_buf, len);
 		return nwritten + len;
 	}
-- 
2.43.0


From ac3c95c685ac6369d03056457b044d4248b2bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:29 +0000
Subject: [PATCH 05/58] fix: MinMaxValue of a floating type starts its maximum
 below every value

---
 source/cyUtility/utility/cyu_statistics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_statistics.h b/source/cyUtility/utility/cyu_statistics.h
index afe3892..0543d8a 100644
--- a/source/cyUtility/utility/cyu_statistics.h
+++ b/source/cyUtility/utility/cyu_statistics.h
@@ -35,7 +35,7 @@ public:
 	MinMaxValue() 
 	{
 		m_min = std::numeric_limits<T>::max();
-		m_max = std::numeric_limits<T>::min();
+		m_max = std::numeric_limits<T>::lowest();
 	}
 
 	MinMaxValue(const T& init) 
-- 
2.43.0


From 4d30fe5f78512a78de599d4a39778df47251a8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:29 +0000
Subject: [PATCH 06/58] fix: adler32 of an empty piece keeps the running
 checksum

---
 source/cyCrypt/crypt/cyr_adler32.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cyCrypt/crypt/cyr_adler32.cpp b/source/cyCrypt/crypt/cyr_adler32.cpp
index e50c4d2..6a15ab0 100644
--- a/source/cyCrypt/crypt/cyr_adler32.cpp
+++ b/source/cyCrypt/crypt/cyr_adler32.cpp
@@ -69,8 +69,12 @@ uint32_t adler32(uint32_t adler, const uint8_t* buf, size_t len)
     unsigned n;
 	
 	/* initial Adler-32 value */
-	if (buf == 0 || len == 0)
+	if (buf == 0)
 		return INITIAL_ADLER;
+
+	/* an empty piece does not change the checksum */
+	if (len == 0)
+		return adler;
 	
 	/* split Adler-32 into component sums */
     sum2 = (adler >> 16) & 0xffff;
-- 
2.43.0


From b145965ec11530af511c1f173c657133795a2532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:29 +0000
Subject: [PATCH 07/58] fix: DH key exchange terminates for a zero private key
 and reduces a public key equal to P

---
 source/cyCrypt/crypt/cyr_dhexchange.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/cyCrypt/crypt/cyr_dhexchange.cpp b/source/cyCrypt/crypt/cyr_dhexchange.cpp
index f4491fd..a94be4e 100644
--- a/source/cyCrypt/crypt/cyr_dhexchange.cpp
+++ b/source/cyCrypt/crypt/cyr_dhexchange.cpp
@@ -138,6 +138,12 @@ _powmodp_r(dhkey_t* r, const dhkey_t& a, const dhkey_t& b)
 	dhkey_t t;
 	dhkey_t half_b = b;
 
+	if (_u128_is_zero(b)) {
+		r->dq.low = 1;
+		r->dq.high = 0;
+		return;
+	}
+
 	if (b.dq.high == 0 && b.dq.low == 1) {
 		*r = a;
 		return;
@@ -159,7 +165,7 @@ _powmodp_r(dhkey_t* r, const dhkey_t& a, const dhkey_t& b)
 static void 
 _powmodp(dhkey_t* r, dhkey_t a, dhkey_t b)
 {
-	if (_u128_compare(a, P)>0)
+	if (_u128_compare(a, P)>=0)
 		_u128_sub(&a, a, P);
 
 	_powmodp_r(r, a, b);
-- 
2.43.0


From 7243a48b8b885583a16acde031b3591aa9ee8425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 08/58] fix: LockFreeQueue::push re-examines a queue that only
 looked full instead of overwriting an element

---
 source/cyCore/core/cyc_lf_queue.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/cyCore/core/cyc_lf_queue.h b/source/cyCore/core/cyc_lf_queue.h
index be28def..7eed90e 100644
--- a/source/cyCore/core/cyc_lf_queue.h
+++ b/source/cyCore/core/cyc_lf_queue.h
@@ -59,21 +59,24 @@ bool LockFreeQueue<ELEM_T, Q_SIZE>::push(const ELEM_T &data)
 	uint32_t currentReadIndex;
 	uint32_t currentWriteIndex;
 
-	do
+	for (;;)
 	{
 		currentWriteIndex = m_writeIndex;
 		currentReadIndex = m_readIndex;
 		if (_countToIndex(currentWriteIndex + 1) ==
 			_countToIndex(currentReadIndex))
 		{
-			if (m_count > (Q_SIZE >> 1))
+			if (m_writeIndex == currentWriteIndex)
 				// the queue is full
 				return false;
 			else
 				//maybe this thread was blocked between m_write_index.get() and m_read_index.get(), cause other threads write and read
 				continue;
 		}
-	} while (!atomic_compare_exchange(m_writeIndex, currentWriteIndex, (currentWriteIndex + 1)));
+
+		if (atomic_compare_exchange(m_writeIndex, currentWriteIndex, (currentWriteIndex + 1)))
+			break;
+	}
 
 	// We know now that this index is reserved for us. Use it to save the data
 	m_queue[_countToIndex(currentWriteIndex)] = data;
-- 
2.43.0


From 2f2520f186a114b36d4549b71e8c567db6181620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 09/58] fix: LockFreeQueue::pop does not report a full queue as
 empty when its read index went stale

---
 source/cyCore/core/cyc_lf_queue.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_lf_queue.h b/source/cyCore/core/cyc_lf_queue.h
index 7eed90e..8b67e9a 100644
--- a/source/cyCore/core/cyc_lf_queue.h
+++ b/source/cyCore/core/cyc_lf_queue.h
@@ -112,8 +112,7 @@ bool LockFreeQueue<ELEM_T, Q_SIZE>::pop(ELEM_T &a_data)
 		currentReadIndex = m_readIndex;
 		currentMaximumReadIndex = m_maximumReadIndex;
 
-		if (_countToIndex(currentReadIndex) ==
-			_countToIndex(currentMaximumReadIndex))
+		if (currentReadIndex == currentMaximumReadIndex)
 		{
 			// the queue is empty or
 			// a producer thread has allocate space in the queue but is 
-- 
2.43.0


From 04e60efe3cd1775b7666e74e635682e9239ee96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:43 +0000
Subject: [PATCH 10/58] fix: signal_timewait(0) sees a lighted signal while
 another thread is notifying

---
 source/cyCore/core/cyc_system_api.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/source/cyCore/core/cyc_system_api.cpp b/source/cyCore/core/cyc_system_api.cpp
index e440d37..9366664 100644
--- a/source/cyCore/core/cyc_system_api.cpp
+++ b/source/cyCore/core/cyc_system_api.cpp
@@ -394,13 +394,7 @@ bool signal_timewait(signal_t s, int32_t ms)
 	return (WAIT_OBJECT_0 == ::WaitForSingleObject(s, (DWORD)ms));
 #else
 	signal_s* sig = (signal_s*)s;
-	if (ms == 0) {
-		if (EBUSY == pthread_mutex_trylock(&(sig->mutex)))
-			return false;
-	}
-	else {
-		pthread_mutex_lock(&(sig->mutex));
-	}
+	pthread_mutex_lock(&(sig->mutex));
 
 	bool ret = _signal_unlock_wait(sig, ms);
 
-- 
2.43.0


From a2bdd31452f97f143a33c7c5a2c7f8c1da2567f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:08 +0000
Subject: [PATCH 11/58] fix: a stop request may overlap the end of the loop;
 keep the inner pipe alive while it is touched

---
 source/cyEvent/event/cye_looper.cpp | 13 +++++++++++--
 source/cyEvent/event/cye_looper.h   |  1 +
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index b31aa53..321fdec 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -28,11 +28,13 @@ Looper::Looper()
 	, m_quit_cmd(0)
 {
 	m_lock = sys_api::mutex_create();
+	m_inner_pipe_lock = sys_api::mutex_create();
 }
 
 //-------------------------------------------------------------------------------------
 Looper::~Looper()
 {
+	sys_api::mutex_destroy(m_inner_pipe_lock);
 	sys_api::mutex_destroy(m_lock);
 }
 
@@ -264,8 +266,11 @@ void Looper::loop(void)
 
 	//register inner pipe first
 	Pipe inner_pipe;
-	m_inner_pipe = &inner_pipe;
-	Looper::event_id_t inner_event_id = register_event(m_inner_pipe->get_read_port(), kRead, this, _on_inner_pipe_touched, 0);
+	{
+		sys_api::auto_mutex lock(m_inner_pipe_lock);
+		m_inner_pipe = &inner_pipe;
+	}
+	Looper::event_id_t inner_event_id = register_event(inner_pipe.get_read_port(), kRead, this, _on_inner_pipe_touched, 0);
 
 	channel_list readList;
 	channel_list writeList;
@@ -309,6 +314,8 @@ void Looper::loop(void)
 
 	//it's the time to shutdown everything...
 	delete_event(inner_event_id);
+
+	sys_api::auto_mutex lock(m_inner_pipe_lock);
 	m_inner_pipe = nullptr;
 }
 
@@ -432,6 +439,8 @@ void Looper::_on_timer_event_callback(event_id_t id, socket_t fd, event_t event,
 //-------------------------------------------------------------------------------------
 void Looper::_touch_inner_pipe(void)
 {
+	//the pipe must stay alive until the touch is done
+	sys_api::auto_mutex lock(m_inner_pipe_lock);
 	if (m_inner_pipe==0) return;
 
 	//just touch once!
diff --git a/source/cyEvent/event/cye_looper.h b/source/cyEvent/event/cye_looper.h
index 16815d6..12e1bc1 100644
--- a/source/cyEvent/event/cye_looper.h
+++ b/source/cyEvent/event/cye_looper.h
@@ -115,6 +115,7 @@ protected:
 	sys_api::mutex_t m_lock;
 
 	Pipe* m_inner_pipe;	//pipe to push loop continue
+	sys_api::mutex_t m_inner_pipe_lock;	//other thread may touch the pipe while the loop ends
 	atomic_int32_t m_inner_pipe_touched;
 	atomic_int32_t m_quit_cmd;
 
-- 
2.43.0


From a88dcee9c8fb9de83ce3136ba51161dd6eff48ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:08 +0000
Subject: [PATCH 12/58] fix: Looper_select does not take an interrupted or
 failed select() for every event being ready

---
 source/cyEvent/event/internal/cye_looper_select.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyEvent/event/internal/cye_looper_select.cpp b/source/cyEvent/event/internal/cye_looper_select.cpp
index 9367c00..b118601 100644
--- a/source/cyEvent/event/internal/cye_looper_select.cpp
+++ b/source/cyEvent/event/internal/cye_looper_select.cpp
@@ -78,9 +78,9 @@ void Looper_select::_poll(
 		sys_api::thread_sleep(1);
 	}
 
-	int err = (ready < -1) ? socket_api::get_lasterror() : 0;
+	int err = (ready < 0) ? socket_api::get_lasterror() : 0;
 
-	if (err < 0)
+	if (err != 0)
 	{
 		if(err==
 #ifdef CY_SYS_WINDOWS
-- 
2.43.0


From 73f4b2df9e72dfbb0d978fa8563239687ca31384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:20 +0000
Subject: [PATCH 13/58] fix: a message sent while the work thread finishes
 draining its queue wakes it up

---
 source/cyEvent/event/cye_work_thread.cpp | 25 ++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index 18c4040..8cb1449 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -80,25 +80,26 @@ void WorkThread::_on_message(void)
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 
+	//clean the pipe
 	for (;;) {
 		int8_t dummy;
 		if (m_pipe.read((char*)&dummy, sizeof(dummy)) <= 0) break;
+	}
 
-		for (;;) {
-			Packet* packet = nullptr;
-			if (!m_message_queue.pop(packet)) break;
+	//set empty flag BEFORE the queue is drained, a message pushed from now on will wake us up again
+	m_is_queue_empty = true;
 
-			//call listener
-			if (m_on_message) {
-				m_on_message(packet);
-			}
+	for (;;) {
+		Packet* packet = nullptr;
+		if (!m_message_queue.pop(packet)) break;
 
-			Packet::free_packet(packet);
+		//call listener
+		if (m_on_message) {
+			m_on_message(packet);
 		}
-	}
 
-	//set empty flag
-	m_is_queue_empty = true;
+		Packet::free_packet(packet);
+	}
 }
 
 //-------------------------------------------------------------------------------------
@@ -144,7 +145,7 @@ void WorkThread::join(void)
 //-------------------------------------------------------------------------------------
 void WorkThread::_wakeup(void)
 {
-	if (atomic_compare_exchange(m_is_queue_empty, true, false)) {
+	if (m_is_queue_empty.exchange(false)) {
 		int8_t dummy = 0;
 		m_pipe.write((const char*)&dummy, sizeof(dummy));
 	}
-- 
2.43.0


From 50f0cdc9e870cdaa37fbd718dacd88803bedde9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:18 +0000
Subject: [PATCH 14/58] fix: messages sent to a work thread whose queue is full
 are kept instead of lost

---
 source/cyEvent/event/cye_work_thread.cpp | 57 ++++++++++++++++++++----
 source/cyEvent/event/cye_work_thread.h   | 12 +++++
 2 files changed, 60 insertions(+), 9 deletions(-)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index 8cb1449..0298aff 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -14,15 +14,24 @@ WorkThread::WorkThread()
 	: m_thread(nullptr)
 	, m_looper(nullptr)
 	, m_is_queue_empty(true)
+	, m_is_overflow(false)
 	, m_on_start(nullptr)
 	, m_on_message(nullptr)
 {
+	m_overflow_lock = sys_api::mutex_create();
 }
 
 //-------------------------------------------------------------------------------------
 WorkThread::~WorkThread()
 {
 	//TODO: stop the thread
+
+	//free the messages nobody will handle
+	Packet* packet = nullptr;
+	while (m_message_queue.pop(packet)) Packet::free_packet(packet);
+	for (auto p : m_overflow_queue) Packet::free_packet(p);
+
+	sys_api::mutex_destroy(m_overflow_lock);
 }
 
 //-------------------------------------------------------------------------------------
@@ -91,15 +100,45 @@ void WorkThread::_on_message(void)
 
 	for (;;) {
 		Packet* packet = nullptr;
-		if (!m_message_queue.pop(packet)) break;
-
-		//call listener
-		if (m_on_message) {
-			m_on_message(packet);
+		if (m_message_queue.pop(packet)) {
+			_handle_message(packet);
+			continue;
+		}
+		if (!m_is_overflow) break;
+
+		//the queue was full, messages in the queue are older than the overflowed ones
+		MessageVector messages;
+		{
+			sys_api::auto_mutex lock(m_overflow_lock);
+			while (m_message_queue.pop(packet)) messages.push_back(packet);
+			messages.insert(messages.end(), m_overflow_queue.begin(), m_overflow_queue.end());
+			m_overflow_queue.clear();
+			m_is_overflow = false;
 		}
+		for (auto p : messages) _handle_message(p);
+	}
+}
 
-		Packet::free_packet(packet);
+//-------------------------------------------------------------------------------------
+void WorkThread::_handle_message(Packet* packet)
+{
+	//call listener
+	if (m_on_message) {
+		m_on_message(packet);
 	}
+
+	Packet::free_packet(packet);
+}
+
+//-------------------------------------------------------------------------------------
+void WorkThread::_push_message(Packet* packet)
+{
+	if (!m_is_overflow && m_message_queue.push(packet)) return;
+
+	//queue is full, keep the order until all overflowed messages have been taken
+	sys_api::auto_mutex lock(m_overflow_lock);
+	m_overflow_queue.push_back(packet);
+	m_is_overflow = true;
 }
 
 //-------------------------------------------------------------------------------------
@@ -108,7 +147,7 @@ void WorkThread::send_message(uint16_t id, uint16_t size_part1, const char* msg_
 	Packet* packet = Packet::alloc_packet();
 	packet->build_from_memory(MESSAGE_HEAD_SIZE, id, size_part1, msg_part1, size_part2, msg_part2);
 
-	m_message_queue.push(packet);
+	_push_message(packet);
 
 	_wakeup();
 }
@@ -117,7 +156,7 @@ void WorkThread::send_message(uint16_t id, uint16_t size_part1, const char* msg_
 void WorkThread::send_message(const Packet* message)
 {
 	Packet* packet = Packet::alloc_packet(message);
-	m_message_queue.push(packet);
+	_push_message(packet);
 	
 	_wakeup();
 }
@@ -127,7 +166,7 @@ void WorkThread::send_message(const Packet** message, int32_t counts)
 {
 	for (int32_t i = 0; i < counts; i++){
 		Packet* packet = Packet::alloc_packet(message[i]);
-		m_message_queue.push(packet);
+		_push_message(packet);
 	}
 
 	_wakeup();
diff --git a/source/cyEvent/event/cye_work_thread.h b/source/cyEvent/event/cye_work_thread.h
index ede4e38..c61a29a 100644
--- a/source/cyEvent/event/cye_work_thread.h
+++ b/source/cyEvent/event/cye_work_thread.h
@@ -51,6 +51,12 @@ private:
 	typedef LockFreeQueue<Packet*> MessageQueue;
 	MessageQueue		m_message_queue;
 
+	//messages which found the queue full
+	typedef std::vector<Packet*> MessageVector;
+	MessageVector		m_overflow_queue;
+	sys_api::mutex_t	m_overflow_lock;
+	atomic_bool_t		m_is_overflow;
+
 	StartCallback	m_on_start;
 	MessageCallback	m_on_message;
 
@@ -64,6 +70,12 @@ private:
 	/// work thread function
 	void _work_thread(void* param);
 
+	//// put message to queue
+	void _push_message(Packet* packet);
+
+	//// call listener and free the message
+	void _handle_message(Packet* packet);
+
 	//// on work thread receive message
 	void _on_message(void);
 
-- 
2.43.0


From 17a091d5d16001c18bce9e1c111d1280ab075da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:02 +0000
Subject: [PATCH 15/58] fix: an event or timer deleted in its own callback, and
 a reused event id, are safe in the event loop

---
 source/cyEvent/event/cye_looper.cpp | 30 +++++++++++++++++++----------
 source/cyEvent/event/cye_looper.h   |  1 +
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index 321fdec..266932b 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -58,6 +58,7 @@ Looper::event_id_t Looper::register_event(socket_t sockfd,
 	channel.param = param;
 	channel.active = false;
 	channel.timer = false;
+	channel.reg_loop = m_loop_counts;
 	channel.on_read = _on_read;
 	channel.on_write = _on_write;
 
@@ -95,6 +96,7 @@ Looper::event_id_t Looper::register_timer_event(uint32_t milliSeconds,
 	channel.param = timer;
 	channel.active = false;
 	channel.timer = true;
+	channel.reg_loop = m_loop_counts;
 	channel.on_read = _on_timer_event_callback;
 	channel.on_write = 0;
 
@@ -290,9 +292,11 @@ void Looper::loop(void)
 		for (size_t i = 0; i < readList.size(); i++)
 		{
 			channel_s* c = &(m_channelBuffer[readList[i]]);
-			if (c->on_read == 0 || (c->event & kRead) == 0) continue;
+			//the event may be registered after poll, and reuse the id of a deleted one
+			if (c->on_read == 0 || (c->event & kRead) == 0 || c->reg_loop == m_loop_counts) continue;
 
-			c->on_read(c->id, c->fd, kRead, c->param);
+			event_callback callback = c->on_read; //the event may be deleted in callback
+			callback(c->id, c->fd, kRead, c->param);
 
 			if (is_quit_pending()) break;
 		}
@@ -302,9 +306,11 @@ void Looper::loop(void)
 		for (size_t i = 0; i < writeList.size(); i++)
 		{
 			channel_s* c = &(m_channelBuffer[writeList[i]]);
-			if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
+			//the event may be registered after poll, and reuse the id of a deleted one
+			if (c->on_write == 0 || (c->event & kWrite) == 0 || c->reg_loop == m_loop_counts) continue;
 
-			c->on_write(c->id, c->fd, kWrite, c->param);
+			event_callback callback = c->on_write; //the event may be deleted in callback
+			callback(c->id, c->fd, kWrite, c->param);
 
 			if (is_quit_pending()) break;
 		}
@@ -339,9 +345,10 @@ void Looper::step(void)
 	for (size_t i = 0; i < readList.size(); i++)
 	{
 		channel_s* c = &(m_channelBuffer[readList[i]]);
-		if (c->on_read == 0 || (c->event & kRead) == 0) continue;
+		if (c->on_read == 0 || (c->event & kRead) == 0 || c->reg_loop == m_loop_counts) continue;
 
-		c->on_read(c->id, c->fd, kRead, c->param);
+		event_callback callback = c->on_read; //the event may be deleted in callback
+		callback(c->id, c->fd, kRead, c->param);
 
 		if (is_quit_pending()) return;
 	}
@@ -349,9 +356,10 @@ void Looper::step(void)
 	for (size_t i = 0; i < writeList.size(); i++)
 	{
 		channel_s* c = &(m_channelBuffer[writeList[i]]);
-		if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
+		if (c->on_write == 0 || (c->event & kWrite) == 0 || c->reg_loop == m_loop_counts) continue;
 
-		c->on_write(c->id, c->fd, kWrite, c->param);
+		event_callback callback = c->on_write; //the event may be deleted in callback
+		callback(c->id, c->fd, kWrite, c->param);
 
 		if (is_quit_pending()) return;
 	}
@@ -394,6 +402,7 @@ Looper::event_id_t Looper::_get_free_slot(void)
 			channel.param = nullptr;
 			channel.active = false;
 			channel.timer = false;
+			channel.reg_loop = 0;
 
 			channel.on_read = nullptr;
 			channel.on_write = nullptr;
@@ -431,8 +440,9 @@ void Looper::_on_timer_event_callback(event_id_t id, socket_t fd, event_t event,
 	socket_api::read(fd, &touch, sizeof(touch));
 #endif
 
-	if (timer->on_timer) {
-		timer->on_timer(id, timer->param);
+	timer_callback on_timer = timer->on_timer; //the timer may be deleted in callback
+	if (on_timer) {
+		on_timer(id, timer->param);
 	}
 }
 
diff --git a/source/cyEvent/event/cye_looper.h b/source/cyEvent/event/cye_looper.h
index 12e1bc1..bdd8874 100644
--- a/source/cyEvent/event/cye_looper.h
+++ b/source/cyEvent/event/cye_looper.h
@@ -95,6 +95,7 @@ protected:
 		void *param;
 		bool active;
 		bool timer;
+		uint64_t reg_loop;	//loop counts when the event was registered
 
 		event_callback on_read;
 		event_callback on_write;
-- 
2.43.0


From 948f54384dbfc7a13bfd3981e2de372f66a20abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:18 +0000
Subject: [PATCH 16/58] fix: Looper_select keeps waiting for the greatest
 descriptor after another one was removed

---
 source/cyEvent/event/internal/cye_looper_select.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cyEvent/event/internal/cye_looper_select.cpp b/source/cyEvent/event/internal/cye_looper_select.cpp
index b118601..2e587da 100644
--- a/source/cyEvent/event/internal/cye_looper_select.cpp
+++ b/source/cyEvent/event/internal/cye_looper_select.cpp
@@ -192,7 +192,8 @@ void Looper_select::_update_channel_add_event(channel_s& channel, event_t event)
 		channel.event |= kRead;
 		_insert_to_active_list(channel);
 #ifndef CY_SYS_WINDOWS
-		if (m_max_fd == INVALID_SOCKET || m_max_fd < fd)  m_max_fd = fd;
+		//an invalid max fd will be found again in next poll
+		if (m_max_fd != INVALID_SOCKET && m_max_fd < fd)  m_max_fd = fd;
 #endif
 	}
 	
@@ -203,7 +204,8 @@ void Looper_select::_update_channel_add_event(channel_s& channel, event_t event)
 		channel.event |= kWrite;
 		_insert_to_active_list(channel);
 #ifndef CY_SYS_WINDOWS
-		if (m_max_fd == INVALID_SOCKET || m_max_fd < fd)  m_max_fd = fd;
+		//an invalid max fd will be found again in next poll
+		if (m_max_fd != INVALID_SOCKET && m_max_fd < fd)  m_max_fd = fd;
 #endif
 	}
 
-- 
2.43.0


From 2f95b756652d20375791ac1d839470af1866eb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:18 +0000
Subject: [PATCH 17/58] fix: Looper_select copes with events enabled and
 disabled by another thread while it waits

---
 .../event/internal/cye_looper_select.cpp      | 54 +++++++++++--------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/source/cyEvent/event/internal/cye_looper_select.cpp b/source/cyEvent/event/internal/cye_looper_select.cpp
index 2e587da..fa14c09 100644
--- a/source/cyEvent/event/internal/cye_looper_select.cpp
+++ b/source/cyEvent/event/internal/cye_looper_select.cpp
@@ -34,31 +34,43 @@ void Looper_select::_poll(
 	channel_list& writeChannelList,
 	bool block)
 {
-#ifndef CY_SYS_WINDOWS
-	if (m_max_fd == INVALID_SOCKET)
+	bool is_empty = false;
+	int max_fd = 0;
 	{
-		for (event_id_t i = m_active_head; i != INVALID_EVENT_ID;)
+		//events may be enabled or disabled by other threads
+		sys_api::auto_mutex lock(m_lock);
+
+#ifndef CY_SYS_WINDOWS
+		if (m_max_fd == INVALID_SOCKET)
 		{
-			channel_s& channel = m_channelBuffer[i];
-			if ((m_max_fd == INVALID_SOCKET) ||
-				((channel.fd > m_max_fd) && (channel.event != kNone)))
+			for (event_id_t i = m_active_head; i != INVALID_EVENT_ID;)
 			{
-				m_max_fd = channel.fd;
+				channel_s& channel = m_channelBuffer[i];
+				if ((m_max_fd == INVALID_SOCKET) ||
+					((channel.fd > m_max_fd) && (channel.event != kNone)))
+				{
+					m_max_fd = channel.fd;
+				}
+
+				i = channel.next;
 			}
-
-			i = channel.next;
 		}
-	}
 #endif
 
-	m_work_read_fd_set = m_master_read_fd_set;
-	m_work_write_fd_set = m_master_write_fd_set;
+		m_work_read_fd_set = m_master_read_fd_set;
+		m_work_write_fd_set = m_master_write_fd_set;
 #ifdef CY_SYS_WINDOWS
-	m_work_expt_fd_set = m_master_read_fd_set;
+		m_work_expt_fd_set = m_master_read_fd_set;
 #endif
 
+		is_empty = (m_max_read_counts <= 0 && m_max_write_counts <= 0);
+#ifndef CY_SYS_WINDOWS
+		max_fd = (int)m_max_fd;
+#endif
+	}
+
 	int ready = 0;
-	if (m_max_read_counts > 0 || m_max_write_counts>0)
+	if (!is_empty)
 	{
 		timeval time_out = { 0, 0 };
 		ready = ::select(
@@ -67,7 +79,7 @@ void Looper_select::_poll(
 			&m_work_read_fd_set, &m_work_write_fd_set, &m_work_expt_fd_set, 
 			block ? 0 : &time_out);
 #else
-			(int)(m_max_fd + 1), 
+			max_fd + 1, 
 			&m_work_read_fd_set, &m_work_write_fd_set, 0, 
 			block ? 0 : &time_out);
 #endif
@@ -101,6 +113,7 @@ void Looper_select::_poll(
 	}
 	else
 	{
+		sys_api::auto_mutex lock(m_lock);
 		for (event_id_t i = m_active_head; i != INVALID_EVENT_ID;)
 		{
 			channel_s& channel = m_channelBuffer[i];
@@ -111,18 +124,13 @@ void Looper_select::_poll(
 #endif
 				)
 			{
-				assert(channel.event & kRead);
-				assert(channel.on_read);
-
-				readChannelList.push_back(i);
+				//may be disabled by other thread since select() was called
+				if (channel.event & kRead) readChannelList.push_back(i);
 			}
 
 			if (FD_ISSET(channel.fd, &m_work_write_fd_set))
 			{
-				assert(channel.event & kWrite);
-				assert(channel.on_write);
-
-				writeChannelList.push_back(i);
+				if (channel.event & kWrite) writeChannelList.push_back(i);
 			}
 
 			i = channel.next;
-- 
2.43.0


From 4050862a75e1b052c52d0653b0e385939d82c7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:15 +0000
Subject: [PATCH 18/58] fix: TcpConnection::shutdown on a connection that has
 just been closed does nothing

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index a310074..ab9afb6 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -190,7 +190,9 @@ void TcpConnection::_send(const char* buf, size_t len)
 void TcpConnection::shutdown(void)
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
-	assert(m_state == kConnected || m_state==kDisconnecting);
+
+	//already closed
+	if (m_state == kDisconnected) return;
 
 	//set the state to disconnecting...
 	m_state = kDisconnecting;
-- 
2.43.0


From d5b346d67644bbea367c6a5d6d6a80c855033590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:34 +0000
Subject: [PATCH 19/58] fix: TcpConnection does not close when a read event
 turns out to have nothing to read

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index ab9afb6..1a73529 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -229,6 +229,9 @@ void TcpConnection::_on_socket_read(void)
 	}
 	else
 	{
+		//nothing to read after all, wait for the next read event
+		if (socket_api::is_lasterror_WOULDBLOCK()) return;
+
 		//error!
 		_on_socket_error();
 	}
-- 
2.43.0


From 03f1b6b6ada24073570e223a5195058fe59d086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:52 +0000
Subject: [PATCH 20/58] fix: TcpConnection does not count a failed write as -1
 bytes written

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 1a73529..ac333bd 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -254,7 +254,7 @@ void TcpConnection::_on_socket_write(void)
 				//log error
 				CY_LOG(L_ERROR, "write socket error, err=%d", socket_api::get_lasterror());
 			}
-			if (m_write_statistics) {
+			else if (m_write_statistics) {
 				m_write_statistics->push(len);
 			}
 		}
-- 
2.43.0


From df793f1490d4f867dc4056fe12c2079ee40de8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:09 +0000
Subject: [PATCH 21/58] fix: TcpConnection::send from another thread copes with
 the connection being closed meanwhile

---
 .../cyNetwork/network/cyn_tcp_connection.cpp  | 34 +++++++++++--------
 source/cyNetwork/network/cyn_tcp_connection.h |  1 +
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index ac333bd..594b04e 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -15,6 +15,7 @@ TcpConnection::TcpConnection(int32_t id, socket_t sfd, Looper* looper, Owner* ow
 	, m_socket(sfd)
 	, m_state(kConnected)
 	, m_looper(looper)
+	, m_looper_thread(looper->get_thread_id())
 	, m_event_id(Looper::INVALID_EVENT_ID)
 	, m_owner(owner)
 	, m_param(nullptr)
@@ -74,7 +75,10 @@ TcpConnection::~TcpConnection()
 	assert(get_state()==kDisconnected);
 	assert(m_socket == INVALID_SOCKET);
 	assert(m_event_id == Looper::INVALID_EVENT_ID);
-	assert(m_write_buf_lock == nullptr);
+
+	//destroy write buf lock, nobody else can use this connection now
+	sys_api::mutex_destroy(m_write_buf_lock);
+	m_write_buf_lock = nullptr;
 }
 
 //-------------------------------------------------------------------------------------
@@ -88,12 +92,16 @@ void TcpConnection::send(const char* buf, size_t len)
 {
 	if (buf == nullptr || len == 0) return;
 
-	if (sys_api::thread_get_current_id() == m_looper->get_thread_id())
+	if (sys_api::thread_get_current_id() == m_looper_thread)
 	{
 		_send(buf, len);
 	}
 	else
 	{
+		//write to output buf
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
+		//the connection can't be closed by work thread while the lock is held
 		if (get_state() != kConnected)
 		{
 			//log error, give up send message
@@ -101,9 +109,6 @@ void TcpConnection::send(const char* buf, size_t len)
 			return;
 		}
 
-		//write to output buf
-		sys_api::auto_mutex lock(m_write_buf_lock);
-
 		//write to write buffer
 		m_write_buf.memcpy_into(buf, len);
 
@@ -287,12 +292,17 @@ void TcpConnection::_on_socket_close(void)
 
 	TcpConnectionPtr thisPtr = shared_from_this();
 
-	//disable all event
-	m_state = kDisconnected;
+	{
+		//other threads may be sending
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
+		//disable all event
+		m_state = kDisconnected;
 
-	//delete looper event
-	m_looper->delete_event(m_event_id);
-	m_event_id = Looper::INVALID_EVENT_ID;
+		//delete looper event
+		m_looper->delete_event(m_event_id);
+		m_event_id = Looper::INVALID_EVENT_ID;
+	}
 	
 	//logic callback
 	if (m_on_close) {
@@ -306,10 +316,6 @@ void TcpConnection::_on_socket_close(void)
 	//close socket
 	socket_api::close_socket(m_socket);
 	m_socket = INVALID_SOCKET;
-
-	//destroy write buf lock
-	sys_api::mutex_destroy(m_write_buf_lock);
-	m_write_buf_lock = nullptr;
 }
 
 //-------------------------------------------------------------------------------------
diff --git a/source/cyNetwork/network/cyn_tcp_connection.h b/source/cyNetwork/network/cyn_tcp_connection.h
index 79bb791..2271f64 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.h
+++ b/source/cyNetwork/network/cyn_tcp_connection.h
@@ -82,6 +82,7 @@ private:
 	Address m_local_addr;
 	Address m_peer_addr;
 	Looper* m_looper;
+	thread_id_t m_looper_thread;	//the looper may be gone when a closed connection is still referenced
 	Looper::event_id_t m_event_id;
 	Owner* m_owner;
 	void* m_param;
-- 
2.43.0


From 3c2784c97083908f6e2afe57f942d99e42a9d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:48 +0000
Subject: [PATCH 22/58] fix: TcpConnection keeps messages whole and none behind
 when threads send and shut down at the same time

---
 .../cyNetwork/network/cyn_tcp_connection.cpp  | 85 ++++++++++---------
 source/cyNetwork/network/cyn_tcp_connection.h |  3 -
 2 files changed, 43 insertions(+), 45 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 594b04e..4b8faa2 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -118,13 +118,6 @@ void TcpConnection::send(const char* buf, size_t len)
 	}
 }
 
-//-------------------------------------------------------------------------------------
-bool TcpConnection::_is_writeBuf_empty(void) const
-{
-	sys_api::auto_mutex lock(m_write_buf_lock);
-	return  m_write_buf.empty();
-}
-
 //-------------------------------------------------------------------------------------
 void TcpConnection::_send(const char* buf, size_t len)
 {
@@ -141,54 +134,58 @@ void TcpConnection::_send(const char* buf, size_t len)
 		return;
 	}
 
-	//nothing in write buf, send it directly
-	if (!(m_looper->is_write(m_event_id)) && _is_writeBuf_empty())
 	{
-		nwrote = socket_api::write(m_socket, buf, len);
-		if (nwrote >= 0)
+		//keep other threads out until the whole message is sent or buffered
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
+		//nothing in write buf, send it directly
+		if (!(m_looper->is_write(m_event_id)) && m_write_buf.empty())
 		{
-			if (m_write_statistics) {
-				m_write_statistics->push(nwrote);
+			nwrote = socket_api::write(m_socket, buf, len);
+			if (nwrote >= 0)
+			{
+				if (m_write_statistics) {
+					m_write_statistics->push(nwrote);
+				}
+				remaining = len - (size_t)nwrote;
 			}
-			remaining = len - (size_t)nwrote;
-		}
-		else
-		{
-			nwrote = 0;
-			int err = socket_api::get_lasterror();
-
-			if(!socket_api::is_lasterror_WOULDBLOCK())
+			else
 			{
-				CY_LOG(L_ERROR, "socket send error, err=%d", err);
+				nwrote = 0;
+				int err = socket_api::get_lasterror();
+
+				if(!socket_api::is_lasterror_WOULDBLOCK())
+				{
+					CY_LOG(L_ERROR, "socket send error, err=%d", err);
 
 #ifdef CY_SYS_WINDOWS
-				if (err == WSAESHUTDOWN || err == WSAENETRESET)
+					if (err == WSAESHUTDOWN || err == WSAENETRESET)
 #else
-				if (err == EPIPE || err == ECONNRESET)
+					if (err == EPIPE || err == ECONNRESET)
 #endif
-				{
-					faultError = true;
+					{
+						faultError = true;
+					}
 				}
 			}
 		}
+
+		if (!faultError) {
+			if (remaining > 0) {
+				//write to write buffer
+				m_write_buf.memcpy_into(buf + nwrote, remaining);
+			}
+
+			//enable write event, wait socket ready
+			m_looper->enable_write(m_event_id);
+		}
 	}
 
 	//shutdown if socket work with fault
 	if (faultError) {
 		m_looper->disable_all(m_event_id);
 		shutdown();
-
-		return;
-	}
-
-	if (remaining > 0) {
-		sys_api::auto_mutex lock(m_write_buf_lock);
-		//write to write buffer
-		m_write_buf.memcpy_into(buf + nwrote, remaining);
 	}
-
-	//enable write event, wait socket ready
-	m_looper->enable_write(m_event_id);
 }
 
 //-------------------------------------------------------------------------------------
@@ -199,12 +196,16 @@ void TcpConnection::shutdown(void)
 	//already closed
 	if (m_state == kDisconnected) return;
 
-	//set the state to disconnecting...
-	m_state = kDisconnecting;
+	{
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
+		//set the state to disconnecting...
+		m_state = kDisconnecting;
+
+		//something still working? wait 
+		if (m_looper->is_write(m_event_id) && !m_write_buf.empty()) return;
+	}
 
-	//something still working? wait 
-	if (m_looper->is_write(m_event_id) && !_is_writeBuf_empty()) return;
-	
 	//ok, we can close the socket now
 	socket_api::shutdown(m_socket);
 	_on_socket_close();
diff --git a/source/cyNetwork/network/cyn_tcp_connection.h b/source/cyNetwork/network/cyn_tcp_connection.h
index 2271f64..1a2a9f5 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.h
+++ b/source/cyNetwork/network/cyn_tcp_connection.h
@@ -116,9 +116,6 @@ private:
 	/// send message (not thread safe, must int work thread)
 	void _send(const char* buf, size_t len);
 
-	//// is write buf empty(thread safe)
-	bool _is_writeBuf_empty(void) const;
-
 public:
 	// record the max size of read buf and write buf
 	size_t get_readebuf_max_size(void) const { return m_readbuf_minmax_size.max(); }
-- 
2.43.0


From d103475cf8dc2e1f6c365d274bb36abcd4681558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:03 +0000
Subject: [PATCH 23/58] fix: writing to a connection closed by its peer does
 not kill the process with SIGPIPE

---
 .../cyNetwork/network/cyn_tcp_connection.cpp   | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 4b8faa2..6cab887 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -6,9 +6,25 @@ Copyright(C) thecodeway.com
 #include <cy_network.h>
 #include "cyn_tcp_connection.h"
 
+#ifndef CY_SYS_WINDOWS
+#include <signal.h>
+#endif
+
 namespace cyclone
 {
 
+//-------------------------------------------------------------------------------------
+static void _ignore_sigpipe(void)
+{
+#ifndef CY_SYS_WINDOWS
+	//writing to a socket closed by the peer should be an error(EPIPE), not the end of the process
+	struct sigaction action;
+	if (::sigaction(SIGPIPE, nullptr, &action) == 0 && action.sa_handler == SIG_DFL) {
+		::signal(SIGPIPE, SIG_IGN);
+	}
+#endif
+}
+
 //-------------------------------------------------------------------------------------
 TcpConnection::TcpConnection(int32_t id, socket_t sfd, Looper* looper, Owner* owner)
 	: m_id(id)
@@ -30,6 +46,8 @@ TcpConnection::TcpConnection(int32_t id, socket_t sfd, Looper* looper, Owner* ow
 	, m_read_statistics(nullptr)
 	, m_write_statistics(nullptr)
 {
+	_ignore_sigpipe();
+
 	//set socket to non-block and close-onexec
 	socket_api::set_nonblock(sfd, true);
 	socket_api::set_close_onexec(sfd, true);
-- 
2.43.0


From 034dd31d78bcff20189be2fdc48786234c47faeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:33 +0000
Subject: [PATCH 24/58] fix: TcpConnection stays alive until its write event is
 handled

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 6cab887..0a2e63d 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -269,6 +269,9 @@ void TcpConnection::_on_socket_write(void)
 	
 	if (!(m_looper->is_write(m_event_id))) return;
 
+	//the callback may close the connection and drop the last reference
+	TcpConnectionPtr thisPtr = shared_from_this();
+
 	{
 		sys_api::auto_mutex lock(m_write_buf_lock);
 		m_writebuf_minmax_size.update(m_write_buf.size());
@@ -294,7 +297,7 @@ void TcpConnection::_on_socket_write(void)
 
 	//write complete
 	if (m_on_send_complete) {
-		m_on_send_complete(this->shared_from_this());
+		m_on_send_complete(thisPtr);
 	}
 
 	//disconnecting? this is the last message send to client, we can shut it down again
-- 
2.43.0


From 90732e5baf99c37115afef0b63a55b9cd884c6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:55 +0000
Subject: [PATCH 25/58] fix: a message sent from another thread during a
 failing send does not keep the broken connection open

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 0a2e63d..628d5b6 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -183,6 +183,9 @@ void TcpConnection::_send(const char* buf, size_t len)
 #endif
 					{
 						faultError = true;
+
+						//nothing can be sent any more, refuse messages from other threads
+						m_state = kDisconnecting;
 					}
 				}
 			}
-- 
2.43.0


From a0a21ac6150d84e2683774181728d5572724820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:54 +0000
Subject: [PATCH 26/58] fix: a TcpClient destroyed while connecting closes its
 socket

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 3eccaf8..b0f9fcb 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -48,6 +48,11 @@ TcpClient::~TcpClient()
 	if (m_connection) {
 		assert(m_connection->get_state() == TcpConnection::kDisconnected);
 	}
+	else if (m_socket != INVALID_SOCKET) {
+		//still connecting
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
+	}
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From f2095d18d134cf3af907f12f3aa5dc050e9647af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:07 +0000
Subject: [PATCH 27/58] fix: TcpClient does not keep the socket of a connect
 that failed at once and report it as connected

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index b0f9fcb..7727009 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -84,6 +84,11 @@ bool TcpClient::connect(const Address& addr)
 	if (!socket_api::connect(m_socket, addr.get_sockaddr_in()))
 	{
 		CY_LOG(L_ERROR, "connect to server error, errno=%d", socket_api::get_lasterror());
+
+		//failed at once, there is nothing to wait for
+		RELEASE_EVENT(m_looper, m_socket_event_id);
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
 		return false;
 	}
 
-- 
2.43.0


From 5d6bc3696e697fbd1668c6d93cf2f53b677beafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:01 +0000
Subject: [PATCH 28/58] fix: a connected handler may disconnect or drop the
 TcpClient whose connect failed

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 17 ++++++++++++++---
 source/cyNetwork/network/cyn_tcp_client.h   |  1 +
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 7727009..b6eab76 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -20,6 +20,7 @@ TcpClient::TcpClient(Looper* looper, void* param, int id)
 	, m_socket(INVALID_SOCKET)
 	, m_socket_event_id(Looper::INVALID_EVENT_ID)
 	, m_retry_timer_id(Looper::INVALID_EVENT_ID)
+	, m_attempt(0)
 	, m_looper(looper)
 	, m_param(param)
 	, m_connection(nullptr)
@@ -73,6 +74,7 @@ bool TcpClient::connect(const Address& addr)
 	socket_api::set_linger(m_socket, false, 0);
 
 	m_serverAddr = addr;
+	m_attempt++;
 
 	//set event callback
 	m_socket_event_id = m_looper->register_event(m_socket, Looper::kRead | Looper::kWrite, this,
@@ -112,12 +114,18 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 
 	if (timeout || socket_api::get_socket_error(m_socket) != 0) {
 		//logic callback
+		TcpClientPtr thisPtr = shared_from_this();	//the callback may drop the last reference
 		uint32_t retry_sleep_ms = 0;
+		uint32_t attempt = m_attempt;
 		if (m_listener.on_connected) {
 			retry_sleep_ms = m_listener.on_connected(shared_from_this(), nullptr, false);
 		}
 		CY_LOG(L_DEBUG, "connect to %s:%d failed! ", m_serverAddr.get_ip(), m_serverAddr.get_port());
-		_abort_connect(retry_sleep_ms);
+
+		//the callback may have disconnected already
+		if (attempt == m_attempt) {
+			_abort_connect(retry_sleep_ms);
+		}
 	}
 	else {
 		//connect success!
@@ -181,6 +189,7 @@ void TcpClient::disconnect(void)
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 	m_sendCache.reset();
+	m_attempt++;
 	switch (get_connection_state())
 	{
 	case TcpConnection::kDisconnected:
@@ -210,10 +219,12 @@ void TcpClient::_on_retry_connect_timer(Looper::event_id_t id)
 	if (!connect(m_serverAddr)) {
 		//failed at once!, logic callback
 		if (m_listener.on_connected) {
+			TcpClientPtr thisPtr = shared_from_this();	//the callback may drop the last reference
+			uint32_t attempt = m_attempt;
 			uint32_t retry_sleep_ms = m_listener.on_connected(shared_from_this(), nullptr, false);
 
-			//retry connection?
-			if (retry_sleep_ms>0) {
+			//retry connection? not if the callback has disconnected
+			if (retry_sleep_ms>0 && attempt == m_attempt) {
 				m_retry_timer_id = m_looper->register_timer_event(retry_sleep_ms, this,
 					std::bind(&TcpClient::_on_retry_connect_timer, this, std::placeholders::_1));
 			}
diff --git a/source/cyNetwork/network/cyn_tcp_client.h b/source/cyNetwork/network/cyn_tcp_client.h
index f84ed62..13e6a7f 100644
--- a/source/cyNetwork/network/cyn_tcp_client.h
+++ b/source/cyNetwork/network/cyn_tcp_client.h
@@ -48,6 +48,7 @@ private:
 	socket_t m_socket;
 	Looper::event_id_t m_socket_event_id;
 	Looper::event_id_t m_retry_timer_id;
+	uint32_t m_attempt;	//changed when an attempt begins or is given up
 
 	Address	 m_serverAddr;
 	Looper*	m_looper;
-- 
2.43.0


From bc315036ea350610adac331eb4fd237071cd339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:01 +0000
Subject: [PATCH 29/58] fix: TcpClient::connect replaces a waiting retry

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index b6eab76..4e8940f 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -64,6 +64,9 @@ bool TcpClient::connect(const Address& addr)
 
 	sys_api::auto_mutex lock(m_connection_lock);
 
+	//this attempt takes the place of a waiting retry
+	RELEASE_EVENT(m_looper, m_retry_timer_id);
+
 	//create socket
 	m_socket = socket_api::create_socket();
 	//set socket to non-block and close-onexec
-- 
2.43.0


From bcaa2c580bb2eed023fe842828328929c856a5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:11 +0000
Subject: [PATCH 30/58] fix: TcpClient::disconnect cancels a waiting retry

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 4e8940f..e545f01 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -196,6 +196,8 @@ void TcpClient::disconnect(void)
 	switch (get_connection_state())
 	{
 	case TcpConnection::kDisconnected:
+		//may be waiting for a retry
+		RELEASE_EVENT(m_looper, m_retry_timer_id);
 		break;
 
 	case TcpConnection::kConnecting:
-- 
2.43.0


From aa239140102202edb7f5290baf3f3ba50e630df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:46 +0000
Subject: [PATCH 31/58] fix: data sent while a TcpClient connects goes before
 messages of other threads

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index e545f01..338e801 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -137,31 +137,37 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 		RELEASE_EVENT(m_looper, m_socket_event_id);
 
 		//established the connection
-		m_connection = std::make_shared<TcpConnection>(m_id, m_socket, m_looper, this);
+		TcpConnectionPtr connection = std::make_shared<TcpConnection>(m_id, m_socket, m_looper, this);
 		CY_LOG(L_DEBUG, "connect to %s:%d success", m_serverAddr.get_ip(), m_serverAddr.get_port());
 
 		//bind callback functions
 		if (m_listener.on_message) {
-			m_connection->set_on_message([this](TcpConnectionPtr conn) {
+			connection->set_on_message([this](TcpConnectionPtr conn) {
 				m_listener.on_message(shared_from_this(), conn);
 			});
 		}
 
 		if(m_listener.on_close) {
-			m_connection->set_on_close([this](TcpConnectionPtr conn) {
+			connection->set_on_close([this](TcpConnectionPtr conn) {
 				CY_LOG(L_DEBUG, "disconnect from %s:%d", m_serverAddr.get_ip(), m_serverAddr.get_port());
 				m_listener.on_close(shared_from_this(), conn);
 			});
 		}
 
-		//send cached message
+		//send cached message, before other threads can use the connection
 		if (!m_sendCache.empty()) {
-			m_connection->send((const char*)m_sendCache.normalize(), m_sendCache.size());
+			connection->send((const char*)m_sendCache.normalize(), m_sendCache.size());
 			m_sendCache.reset();
 		}
+
+		{
+			sys_api::auto_mutex lock(m_connection_lock);
+			m_connection = connection;
+		}
+
 		//logic callback
 		if (m_listener.on_connected) {
-			m_listener.on_connected(shared_from_this(), m_connection, true);
+			m_listener.on_connected(shared_from_this(), connection, true);
 		}
 	}
 }
-- 
2.43.0


From 588c37a5b943f9d9263513eb32cf7f61f56f7f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 32/58] fix: TcpClient does not report a connection as closed
 before it is reported as connected

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 338e801..82ecc7a 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -147,6 +147,13 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 			});
 		}
 
+		//send cached message, before other threads can use the connection
+		if (!m_sendCache.empty()) {
+			connection->send((const char*)m_sendCache.normalize(), m_sendCache.size());
+			m_sendCache.reset();
+		}
+		bool broken = (connection->get_state() == TcpConnection::kDisconnected);
+
 		if(m_listener.on_close) {
 			connection->set_on_close([this](TcpConnectionPtr conn) {
 				CY_LOG(L_DEBUG, "disconnect from %s:%d", m_serverAddr.get_ip(), m_serverAddr.get_port());
@@ -154,20 +161,19 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 			});
 		}
 
-		//send cached message, before other threads can use the connection
-		if (!m_sendCache.empty()) {
-			connection->send((const char*)m_sendCache.normalize(), m_sendCache.size());
-			m_sendCache.reset();
-		}
-
 		{
 			sys_api::auto_mutex lock(m_connection_lock);
 			m_connection = connection;
 		}
 
 		//logic callback
+		TcpClientPtr thisPtr = shared_from_this();	//the callback may drop the last reference
 		if (m_listener.on_connected) {
-			m_listener.on_connected(shared_from_this(), connection, true);
+			m_listener.on_connected(thisPtr, connection, true);
+		}
+		//already closed while sending the cached message
+		if (broken && m_listener.on_close) {
+			m_listener.on_close(thisPtr, connection);
 		}
 	}
 }
-- 
2.43.0


From 375aa411359a5be8b55ecb69aad15a4f04de185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:33 +0000
Subject: [PATCH 33/58] fix: the Address of a socket that has none is not
 uninitialised memory

---
 source/cyNetwork/network/cyn_address.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/cyNetwork/network/cyn_address.cpp b/source/cyNetwork/network/cyn_address.cpp
index 8b7c56b..6d31e23 100644
--- a/source/cyNetwork/network/cyn_address.cpp
+++ b/source/cyNetwork/network/cyn_address.cpp
@@ -55,6 +55,8 @@ Address& Address::operator=(const Address& other)
 //-------------------------------------------------------------------------------------
 Address::Address(bool peer, socket_t sfd)
 {
+	memset(&m_address, 0, sizeof m_address);
+	m_address.sin_family = AF_INET;
 	if (peer)
 		socket_api::getpeername(sfd, m_address);
 	else
-- 
2.43.0


From 2192249d4518e943877ff224c49dabb4d5175c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:58 +0000
Subject: [PATCH 34/58] fix: a stop refused in a work thread does not prevent
 the server from being stopped later

---
 source/cyNetwork/network/cyn_tcp_server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index b297889..ce4ccae 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -106,7 +106,7 @@ void TcpServer::stop(void)
 	//not running?
 	if (m_running == 0) return;
 	//is shutdown in processing?
-	if (m_shutdown_ing.exchange(1) > 0)return;
+	if (m_shutdown_ing.load() > 0) return;
 
 	//this function can't run in work thread
 	for (auto work : m_work_thread_pool){
@@ -115,6 +115,7 @@ void TcpServer::stop(void)
 			return;
 		}
 	}
+	if (m_shutdown_ing.exchange(1) > 0) return;
 
 	//shutdown the the master thread
 	TcpServerMasterThread::ShutdownCmd shutdownCmd;
-- 
2.43.0


From 1916392fb880715ed9d4fcc6d31b6c359a67e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:09 +0000
Subject: [PATCH 35/58] fix: stopping a server shuts down every connection it
 accepts and ends every work thread

---
 source/cyNetwork/network/cyn_tcp_server.cpp               | 7 +++++--
 source/cyNetwork/network/cyn_tcp_server.h                 | 1 +
 .../network/internal/cyn_tcp_server_master_thread.cpp     | 6 +++---
 .../network/internal/cyn_tcp_server_work_thread.cpp       | 8 ++++++--
 .../network/internal/cyn_tcp_server_work_thread.h         | 3 ++-
 5 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index ce4ccae..a54607b 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -120,8 +120,12 @@ void TcpServer::stop(void)
 	//shutdown the the master thread
 	TcpServerMasterThread::ShutdownCmd shutdownCmd;
 	m_master_thread->send_thread_message(TcpServerMasterThread::ShutdownCmd::ID, sizeof(shutdownCmd), (const char*)&shutdownCmd);
+}
 
-	//shutdown all connection
+//-------------------------------------------------------------------------------------
+void TcpServer::_on_master_shutdown(void)
+{
+	//shutdown all connection, after the last accepted socket has been sent to it's work thread
 	for (auto work : m_work_thread_pool){
 		work->send_thread_message(TcpServerWorkThread::ShutdownCmd::ID, 0, 0);
 	}
@@ -168,7 +172,6 @@ void TcpServer::shutdown_connection(TcpConnectionPtr conn)
 
 	TcpServerWorkThread::CloseConnectionCmd closeConnectionCmd;
 	closeConnectionCmd.conn_id = conn->get_id();
-	closeConnectionCmd.shutdown_ing = m_shutdown_ing;
 	work->send_thread_message(TcpServerWorkThread::CloseConnectionCmd::ID, sizeof(closeConnectionCmd), (const char*)&closeConnectionCmd);
 }
 
diff --git a/source/cyNetwork/network/cyn_tcp_server.h b/source/cyNetwork/network/cyn_tcp_server.h
index 0dc4c1c..106647a 100644
--- a/source/cyNetwork/network/cyn_tcp_server.h
+++ b/source/cyNetwork/network/cyn_tcp_server.h
@@ -102,6 +102,7 @@ private:
 private:
 	//called by master thread
 	void _on_accept_socket(socket_t fd);
+	void _on_master_shutdown(void);
 
 	friend class TcpServerMasterThread;
 private:
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 84ab628..4028cdd 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -171,6 +171,9 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 		}
 		m_acceptor_sockets.clear();
 
+		//no more socket will be accepted, shutdown the work thread(s)
+		m_server->_on_master_shutdown();
+
 		//stop looper
 		looper->push_stop_request();
 	}
@@ -209,9 +212,6 @@ void TcpServerMasterThread::_on_accept_event(Looper::event_id_t id, socket_t fd,
 	(void)id;
 	(void)event;
 
-	//is shutdown in processing?		
-	if (m_server->m_shutdown_ing.load() > 0) return;
-
 	//call accept and create peer socket		
 	socket_t connfd = socket_api::accept(fd, 0);
 	if (connfd == INVALID_SOCKET)
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
index 6165ca7..d42112c 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
@@ -12,6 +12,7 @@ namespace cyclone
 TcpServerWorkThread::TcpServerWorkThread(TcpServer* server, int32_t index)
 	: m_server(server)
 	, m_index(index)
+	, m_shutdown_ing(false)
 {
 	//run work thread
 	m_work_thread = new WorkThread();
@@ -21,6 +22,7 @@ TcpServerWorkThread::TcpServerWorkThread(TcpServer* server, int32_t index)
 	char temp[MAX_PATH] = { 0 };
 	std::snprintf(temp, MAX_PATH, "tcp_work_%d", m_index);
 	m_work_thread->start(temp);
+	m_thread_id = m_work_thread->get_looper()->get_thread_id();
 }
 
 //-------------------------------------------------------------------------------------
@@ -54,7 +56,7 @@ void TcpServerWorkThread::send_thread_message(const Packet** message, int32_t co
 //-------------------------------------------------------------------------------------
 bool TcpServerWorkThread::is_in_workthread(void) const
 {
-	return sys_api::thread_get_current_id() == m_work_thread->get_looper()->get_thread_id();
+	return sys_api::thread_get_current_id() == m_thread_id;
 }
 
 //-------------------------------------------------------------------------------------
@@ -141,7 +143,7 @@ void TcpServerWorkThread::_on_workthread_message(Packet* message)
 		}
 
 		//if all connection is shutdown, and server is in shutdown process, quit the loop
-		if (m_connections.empty() && closeConnectionCmd.shutdown_ing > 0) {
+		if (m_connections.empty() && m_shutdown_ing) {
 			//push loop quit command
 			m_work_thread->get_looper()->push_stop_request();
 			return;
@@ -150,6 +152,8 @@ void TcpServerWorkThread::_on_workthread_message(Packet* message)
 	else if (msg_id == ShutdownCmd::ID)
 	{
 		CY_LOG(L_DEBUG, "receive shutdown cmd");
+		m_shutdown_ing = true;
+
 		//all connection is disconnect, just quit the loop
 		if (m_connections.empty()) {
 			//push loop request command
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
index 39b0937..7241d6b 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
@@ -22,7 +22,6 @@ public:
 	{
 		enum { ID = kCloseConnectionCmdID };
 		int32_t conn_id;
-		int32_t shutdown_ing;
 	};
 
 	struct ShutdownCmd
@@ -54,6 +53,8 @@ private:
 
 	typedef std::unordered_map< int32_t, TcpConnectionPtr > ConnectionMap;
 	ConnectionMap	m_connections;
+	bool			m_shutdown_ing;
+	thread_id_t		m_thread_id;
 
 private:
 	//// called by work thread
-- 
2.43.0


From e549bbf1c742c09816e4f910da1ec14128cea225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:29 +0000
Subject: [PATCH 36/58] fix: other threads may use the work threads of a
 TcpServer until it is destroyed

---
 source/cyNetwork/network/cyn_tcp_server.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index a54607b..39da875 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -42,6 +42,12 @@ TcpServer::~TcpServer()
 		delete m_master_thread;
 		m_master_thread = nullptr;
 	}
+
+	//connections may refer to their work thread until now
+	for (auto work : m_work_thread_pool) {
+		delete work;
+	}
+	m_work_thread_pool.clear();
 }
 
 //-------------------------------------------------------------------------------------
@@ -157,9 +163,7 @@ void TcpServer::join(void)
 	//wait all thread quit
 	for (auto work : m_work_thread_pool) {
 		work->join();
-		delete work;
 	}
-	m_work_thread_pool.clear();
 	m_running = 0;
 
 	CY_LOG(L_DEBUG, "accept thread stop!");
-- 
2.43.0


From bcbfedf2afdd12e7affbad599f3846d0f0403e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:48 +0000
Subject: [PATCH 37/58] fix: a TcpServer may be destroyed unstarted, and a
 listen address be stopped after the server

---
 .../network/internal/cyn_tcp_server_master_thread.cpp  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 4028cdd..c9fcec1 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -17,7 +17,12 @@ TcpServerMasterThread::TcpServerMasterThread(TcpServer* server)
 //-------------------------------------------------------------------------------------
 TcpServerMasterThread::~TcpServerMasterThread()
 {
-	assert(m_acceptor_sockets.empty());
+	//never started?
+	for (auto& listen_socket : m_acceptor_sockets) {
+		if (std::get<0>(listen_socket) != INVALID_SOCKET) {
+			socket_api::close_socket(std::get<0>(listen_socket));
+		}
+	}
 }
 
 //-------------------------------------------------------------------------------------
@@ -156,7 +161,7 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 		Looper* looper = m_master_thread.get_looper();
 
 		//close all listen socket(s)
-		for (auto listen_socket : m_acceptor_sockets) {
+		for (auto& listen_socket : m_acceptor_sockets) {
 			auto& sfd = std::get<0>(listen_socket);
 			auto& event_id = std::get<1>(listen_socket);
 
@@ -169,7 +174,6 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 				sfd = INVALID_SOCKET;
 			}
 		}
-		m_acceptor_sockets.clear();
 
 		//no more socket will be accepted, shutdown the work thread(s)
 		m_server->_on_master_shutdown();
-- 
2.43.0


From 4e6945598fcccb7101710300a6e6b2938febd0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:04 +0000
Subject: [PATCH 38/58] fix: the bind address of a stopped listener is not
 uninitialised memory

---
 .../network/internal/cyn_tcp_server_master_thread.cpp      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index c9fcec1..92f68b8 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -114,10 +114,11 @@ Address TcpServerMasterThread::get_bind_address(size_t index)
 	Address address;
 	if (index >= m_acceptor_sockets.size()) return address;
 
-	sockaddr_in addr;
-	socket_api::getsockname(std::get<0>(m_acceptor_sockets[index]), addr);
+	//listen stopped already?
+	socket_t sfd = std::get<0>(m_acceptor_sockets[index]);
+	if (sfd == INVALID_SOCKET) return address;
 
-	return Address(addr);
+	return Address(false, sfd);
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From fbdff05a67c79c09437ce23d41eafe2c7381c2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:24 +0000
Subject: [PATCH 39/58] fix: a log message is not lost when another process
 creates the log directory first

---
 source/cyCore/core/cyc_logger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_logger.cpp b/source/cyCore/core/cyc_logger.cpp
index 270a42d..22e9b5e 100644
--- a/source/cyCore/core/cyc_logger.cpp
+++ b/source/cyCore/core/cyc_logger.cpp
@@ -145,7 +145,8 @@ void disk_log(LOG_LEVEL level, const char* message, ...)
 		if (0 == CreateDirectory(thefile.file_path.c_str(), NULL))
 #else
 	if (!thefile.logpath_created && access(thefile.file_path.c_str(), F_OK)!=0) {
-		if (mkdir(thefile.file_path.c_str(), 0755) != 0)
+		//another process may create it at the same time
+		if (mkdir(thefile.file_path.c_str(), 0755) != 0 && errno != EEXIST)
 #endif
 		{
 			//create log path failed!
-- 
2.43.0


From 544116c00de68c8be8542ff7425fa974ff838032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:24 +0000
Subject: [PATCH 40/58] fix: a log file that cannot be opened for appending is
 not truncated

---
 source/cyCore/core/cyc_logger.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/source/cyCore/core/cyc_logger.cpp b/source/cyCore/core/cyc_logger.cpp
index 22e9b5e..b3b24e0 100644
--- a/source/cyCore/core/cyc_logger.cpp
+++ b/source/cyCore/core/cyc_logger.cpp
@@ -155,11 +155,8 @@ void disk_log(LOG_LEVEL level, const char* message, ...)
 		thefile.logpath_created = true;
 	}
 
+	//"a" creates the file if needed, "w" would discard what is in it
 	FILE* fp = fopen(thefile.file_path_name.c_str(), "a");
-	if (fp == 0) {
-		//create the log file first
-		fp = fopen(thefile.file_path_name.c_str(), "w");
-	}
 	if (fp == 0) return;
 
 	char timebuf[32] = { 0 };
-- 
2.43.0


From 96b0088da8b224dcc4dd51b49fba42869f7eb6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:24 +0000
Subject: [PATCH 41/58] fix: process and host names that do not fit are
 terminated

---
 source/cyCore/core/cyc_logger.cpp     | 3 ++-
 source/cyCore/core/cyc_system_api.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_logger.cpp b/source/cyCore/core/cyc_logger.cpp
index b3b24e0..750d92e 100644
--- a/source/cyCore/core/cyc_logger.cpp
+++ b/source/cyCore/core/cyc_logger.cpp
@@ -43,8 +43,9 @@ struct DiskLogFile
 		sys_api::process_get_module_name(process_name, 32);
 		
 		//get host name
-		char host_name[32];
+		char host_name[32] = { 0 };
 		::gethostname(host_name, 32);
+		host_name[31] = 0; //a longer name is not terminated
 
 		//get process id
 		pid_t process_id = sys_api::process_get_id();
diff --git a/source/cyCore/core/cyc_system_api.cpp b/source/cyCore/core/cyc_system_api.cpp
index 9366664..d073903 100644
--- a/source/cyCore/core/cyc_system_api.cpp
+++ b/source/cyCore/core/cyc_system_api.cpp
@@ -51,7 +51,7 @@ void process_get_module_name(char* module_name, size_t max_size)
 		proc_pidpath(process_get_id(), process_path_name, PROC_PIDPATHINFO_MAXSIZE);
 	#else
 		char process_path_name[256] = { 0 };
-		if (readlink("/proc/self/exe", process_path_name, 256)<0) {
+		if (readlink("/proc/self/exe", process_path_name, 255)<0) {
 			strncpy(process_path_name, "unknown", 256);
 		}
 	#endif
@@ -61,6 +61,7 @@ void process_get_module_name(char* module_name, size_t max_size)
 	else process_name = "unknown";
 
 	strncpy(module_name, process_name, max_size);
+	if (max_size > 0) module_name[max_size - 1] = 0; //a longer name is cut off
 #endif
 
 }
-- 
2.43.0


From 59a2d9f180216675aef74ee04ad0a6de7ac7d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 42/58] fix: the hash of an Address depends on every byte of
 address and port

---
 source/cyNetwork/network/cyn_address.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/cyn_address.cpp b/source/cyNetwork/network/cyn_address.cpp
index 6d31e23..c8123fc 100644
--- a/source/cyNetwork/network/cyn_address.cpp
+++ b/source/cyNetwork/network/cyn_address.cpp
@@ -94,13 +94,13 @@ uint32_t Address::hash_value(const sockaddr_in& addr)
 	//hash address
 	const uint8_t* v = (const uint8_t*)&(addr.sin_addr);
 	for (size_t i = 0; i < 4; i++) {
-		hash = hash ^ v[0];
+		hash = hash ^ v[i];
 		hash = hash * FNV_prime;
 	}
 	//hash port
 	v = (const uint8_t*)&(addr.sin_port);
 	for (size_t i = 0; i < 2; i++) {
-		hash = hash ^ v[0];
+		hash = hash ^ v[i];
 		hash = hash * FNV_prime;
 	}
 	return hash;
-- 
2.43.0


From 98b5ec1ccfd411c0734ff415a02de0f158fad7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:16 +0000
Subject: [PATCH 43/58] fix: check_connect copes with many open descriptors and
 interrupted waits, and closes its socket when it can't be set up

---
 source/cyCore/core/cyc_socket_api.cpp | 38 +++++++++++++++++++++------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 26976dd..9b1208a 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -9,6 +9,7 @@ Copyright(C) thecodeway.com
 #else
 #include <netdb.h>
 #include <netinet/tcp.h>
+#include <poll.h>
 #endif
 #include <fcntl.h>
 
@@ -472,7 +473,10 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 	if (s == INVALID_SOCKET) return false;
 
 	// set to non block mode
-	if (!set_nonblock(s, true)) return false;
+	if (!set_nonblock(s, true)) {
+		close_socket(s);
+		return false;
+	}
 
 	// begin connect...
 	if (!connect(s, addr)) {
@@ -482,6 +486,7 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 	}
 
 	// wait connect result
+#ifdef CY_SYS_WINDOWS
 	fd_set set_write, set_err;
 
 	FD_ZERO(&set_write);
@@ -492,13 +497,7 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 
 	// check if the socket is ready
 	timeval time_out = { timeout_ms/1000, (timeout_ms%1000) * 1000};
-	int ret = ::select(
-#ifdef CY_SYS_WINDOWS
-		0, 
-#else
-		s+1,
-#endif
-		nullptr, &set_write, &set_err, timeout_ms<0 ? nullptr : &time_out);
+	int ret = ::select(0, nullptr, &set_write, &set_err, timeout_ms<0 ? nullptr : &time_out);
 
 	if (ret <= 0) {
 		//time out or socket error
@@ -511,6 +510,29 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 		close_socket(s);
 		return false;
 	}
+#else
+	// fd_set can't hold descriptors beyond FD_SETSIZE
+	struct pollfd poll_fd;
+	poll_fd.fd = s;
+	poll_fd.events = POLLOUT;
+	poll_fd.revents = 0;
+
+	const int64_t begin_time = sys_api::performance_time_now();
+	int wait_ms = timeout_ms;
+	int ret = 0;
+	while ((ret = ::poll(&poll_fd, 1, wait_ms)) < 0 && errno == EINTR) {
+		//interrupted by a signal, go on waiting
+		if (timeout_ms < 0) continue;
+		int64_t elapsed_ms = (sys_api::performance_time_now() - begin_time) / 1000;
+		wait_ms = elapsed_ms < timeout_ms ? timeout_ms - (int)elapsed_ms : 0;
+	}
+
+	if (ret <= 0) {
+		//time out or socket error
+		close_socket(s);
+		return false;
+	}
+#endif
 
 	int err = get_socket_error(s);
 	if (err != 0) {
-- 
2.43.0


From eacb4baddbee74cf4e9abff79a470cf7f0804971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:16 +0000
Subject: [PATCH 44/58] fix: a pipe that could not be created does not use or
 close other descriptors

---
 source/cyEvent/event/cye_pipe.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/cyEvent/event/cye_pipe.cpp b/source/cyEvent/event/cye_pipe.cpp
index 9f9ffe0..e847ffd 100644
--- a/source/cyEvent/event/cye_pipe.cpp
+++ b/source/cyEvent/event/cye_pipe.cpp
@@ -83,6 +83,8 @@ void Pipe::destroy_socket_pipe(pipe_port_t handles[2])
 //-------------------------------------------------------------------------------------
 Pipe::Pipe()
 {
+	m_pipe_fd[0] = m_pipe_fd[1] = INVALID_SOCKET;
+
 #ifdef CY_SYS_WINDOWS
 	if (!construct_socket_pipe(m_pipe_fd))
 #else
@@ -96,18 +98,16 @@ Pipe::Pipe()
 #endif
 	{
 		CY_LOG(L_FATAL, "create pipe failed!");
+
+		//close what was opened
+		destroy_socket_pipe(m_pipe_fd);
 	}
 }
 
 //-------------------------------------------------------------------------------------
 Pipe::~Pipe()
 {
-#ifdef CY_SYS_WINDOWS
 	destroy_socket_pipe(m_pipe_fd);
-#else
-	::close(m_pipe_fd[0]);
-	::close(m_pipe_fd[1]);
-#endif
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 09ff89143c4690351f20f51a091d4ca107402f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:15 +0000
Subject: [PATCH 45/58] fix: close the listening socket when it can't be made
 non-blocking

---
 .../cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 92f68b8..7b170c9 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -65,6 +65,7 @@ bool TcpServerMasterThread::bind_socket(const Address& bind_addr, bool enable_re
 	if (!socket_api::set_nonblock(sfd, true)) {
 		//the process should be stop		
 		CY_LOG(L_ERROR, "set socket to non block mode error");
+		socket_api::close_socket(sfd);
 		return false;
 	}
 
-- 
2.43.0


From d3316547d9b8ac845209111698292802eb72537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:15 +0000
Subject: [PATCH 46/58] fix: give the channel slot back when a timer can't be
 created

---
 source/cyEvent/event/cye_looper.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index 266932b..afa72ce 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -108,6 +108,11 @@ Looper::event_id_t Looper::register_timer_event(uint32_t milliSeconds,
 		//error...
 		CY_LOG(L_FATAL, "CreateTimerQueueTimer Failed");
         delete timer;
+
+		//give the slot back
+		channel.timer = false;
+		channel.next = m_free_head;
+		m_free_head = id;
 		return INVALID_EVENT_ID;
 	}
 #elif defined(CY_HAVE_TIMERFD)
@@ -117,6 +122,11 @@ Looper::event_id_t Looper::register_timer_event(uint32_t milliSeconds,
 		//error
         CY_LOG(L_FATAL, "call timerfd_create Failed");
         delete timer;
+
+		//give the slot back
+		channel.timer = false;
+		channel.next = m_free_head;
+		m_free_head = id;
         return INVALID_EVENT_ID;
 	}
 
-- 
2.43.0


From 78199488a4ffa3ed9f30c72dff1dbadb8cedd2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:38 +0000
Subject: [PATCH 47/58] fix: relay_server survives a target that refuses the
 connection

---
 samples/relay/relay_server.cpp | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index d966b73..17ed7a4 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -265,7 +265,7 @@ private:
 				//connect to up server
 				CY_LOG(L_TRACE, "Connect to up server %s:%d", m_upAddress.get_ip(), m_upAddress.get_port());
 				session->m_upClient = std::make_shared<TcpClient>(pipe->m_looper, pipe, newSessionMsg.id);
-				session->m_upClient->m_listener.on_connected = std::bind(&RelayServer::onServerConnected, this, _1, _2, _3);
+				session->m_upClient->m_listener.on_connected = std::bind(&RelayServer::onServerConnected, this, newSessionMsg.id, _1, _2, _3);
 				session->m_upClient->m_listener.on_message = std::bind(&RelayServer::onServerMessage, this, _1, _2);
 				session->m_upClient->m_listener.on_close = std::bind(&RelayServer::onServerClose, this, _1, _2);
 
@@ -393,13 +393,12 @@ private:
 	}
 private:
 	//-------------------------------------------------------------------------------------
-	uint32_t onServerConnected(TcpClientPtr client, TcpConnectionPtr conn, bool success)
+	uint32_t onServerConnected(int32_t id, TcpClientPtr client, TcpConnectionPtr conn, bool success)
 	{
 		RelayPipe* pipe = (RelayPipe*)(client->get_param());
 		if (pipe->m_downState != kHandshaked) return 0;
 
 		if (success) {
-			int32_t id = conn->get_id();
 			auto it = pipe->m_relaySessionMap.find(id);
 			assert(it != pipe->m_relaySessionMap.end());
 			if (it == pipe->m_relaySessionMap.end()) {
@@ -411,7 +410,6 @@ private:
 			CY_LOG(L_TRACE, "[%d]Connect to UP success(%s:%d)", id, conn->get_peer_addr().get_ip(), conn->get_peer_addr().get_port());
 		}else {
 			//send close session msg to down
-			int32_t id = conn->get_id();
 			auto it = pipe->m_relaySessionMap.find(id);
 			if (it == pipe->m_relaySessionMap.end()) {
 				return 0;
@@ -419,18 +417,9 @@ private:
 			RelaySessionPtr session = it->second;
 			assert(session->m_upState == RelaySession::kConnecting);
 
-			RelayCloseSessionMsg msg;
-			msg.id = session->m_id;
-
-			Packet packet;
-			packet.build_from_memory(RELAY_PACKET_HEADSIZE, RelayCloseSessionMsg::ID, (uint16_t)(sizeof(RelayCloseSessionMsg)), (const char*)&msg);
-
-			//send to down client
-			pipe->m_downConnection->send((const char*)packet.get_memory_buf(), packet.get_memory_size());
-			session->m_upState = RelaySession::kDisconnected;
-
-			//send to work thread to delete session and client
-			m_downServer->send_work_message(pipe->m_workthread_index, &packet);
+			//close the socket and delete the session
+			client->disconnect();
+			_kickDownSession(pipe, id, session);
 			CY_LOG(L_TRACE, "[%d]Connect to UP failed!", id);
 		}
 		return 0;
-- 
2.43.0


From 8d1f672b90c11d65d363cf88d7e45ad2110e43e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:36 +0000
Subject: [PATCH 48/58] fix: relay_server keeps a session until its last data
 has been sent

---
 samples/relay/relay_server.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index 17ed7a4..faa7591 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -288,11 +288,7 @@ private:
 				auto it = pipe->m_relaySessionMap.find(closeSessionMsg.id);
 				if (it == pipe->m_relaySessionMap.end()) break;
 
-				RelaySessionPtr session = it->second;
-				session->m_upState = RelaySession::kDisconnecting;
-				session->m_upClient->disconnect();
-				session->m_upState = RelaySession::kDisconnected;
-				pipe->m_relaySessionMap.erase(it);
+				_closeSession(pipe, it->second);
 
 				CY_LOG(L_INFO, "[%d]Receive close session message, close it", closeSessionMsg.id);
 			}
@@ -357,13 +353,10 @@ private:
 		pipe->m_downState = kDisconnected;
 
 		//close all tunnel
-		for (auto it = pipe->m_relaySessionMap.begin(); it != pipe->m_relaySessionMap.end(); it++) {
-			RelaySessionPtr session = it->second;
-
-			session->m_upClient->disconnect();
-			session->m_upState = RelaySession::kDisconnected;
+		RelaySessionMap sessions = pipe->m_relaySessionMap;
+		for (auto it = sessions.begin(); it != sessions.end(); it++) {
+			_closeSession(pipe, it->second);
 		}
-		pipe->m_relaySessionMap.clear();
 
 		pipe->m_downConnection.reset();
 
@@ -486,6 +479,10 @@ private:
 		if (session->m_upState == RelaySession::kConnected) {
 			_kickDownSession(pipe, session->m_id, session);
 		}
+		else {
+			session->m_upState = RelaySession::kDisconnected;
+			pipe->m_relaySessionMap.erase(it);
+		}
 
 		CY_LOG(L_TRACE, "[%d]UP shutdown the client, send kick msg to DOWN", id);
 	}
@@ -496,6 +493,18 @@ private:
 		return ((size & 0xF) == 0) ? size : ((size & (size_t)(~0xF)) + 0x10);
 	}
 	
+	//-------------------------------------------------------------------------------------
+	void _closeSession(RelayPipe* pipe, RelaySessionPtr session) {
+		session->m_upState = RelaySession::kDisconnecting;
+		session->m_upClient->disconnect();
+
+		//if there is still data to be sent, the session will be deleted when it is closed
+		if (session->m_upClient->get_connection_state() == TcpConnection::kDisconnecting) return;
+
+		session->m_upState = RelaySession::kDisconnected;
+		pipe->m_relaySessionMap.erase(session->m_id);
+	}
+
 	//-------------------------------------------------------------------------------------
 	void _kickDownSession(RelayPipe* pipe, int32_t session_id, RelaySessionPtr session) {
 		if (pipe->m_downState != kHandshaked) return;
-- 
2.43.0


From 3c7550538896ab104c0d898a92af74d9829ca3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:54 +0000
Subject: [PATCH 49/58] fix: relay_server leaves the message loop after an
 invalid packet

---
 samples/relay/relay_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index faa7591..7813185 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -340,7 +340,7 @@ private:
 			default:
 				CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
 				server->shutdown_connection(conn);
-				break;
+				return;
 			}
 		}
 		}
-- 
2.43.0


From 5b00c156de7411236c05afd98aa6cb3eb548553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:57 +0000
Subject: [PATCH 50/58] fix: socks5 server waits for the rest of a handshake or
 request that arrives in pieces

---
 samples/socks5/s5_main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/samples/socks5/s5_main.cpp b/samples/socks5/s5_main.cpp
index 325e8cf..3f91708 100644
--- a/samples/socks5/s5_main.cpp
+++ b/samples/socks5/s5_main.cpp
@@ -221,6 +221,7 @@ private:
 		{
 			//handshake
 			int32_t s5_ret = s5_get_handshake(inputBuf);
+			if (s5_ret == S5ERR_NEED_MORE_DATA) return;	//wait for the rest
 			if (s5_ret != S5ERR_SUCCESS) {
 				CY_LOG(L_WARN, "tunnel[%d]: handshake error, code=%d", conn->get_id(), s5_ret);
 				server->shutdown_connection(conn);
@@ -242,6 +243,7 @@ private:
 			Address address;
 			std::string domain;
 			int32_t s5_ret = s5_get_connect_request(inputBuf, address, domain);
+			if (s5_ret == S5ERR_NEED_MORE_DATA) return;	//wait for the rest
 			if (s5_ret != S5ERR_SUCCESS) {
 				CY_LOG(L_WARN, "get connect request error, code=%d", s5_ret);
 				server->shutdown_connection(conn);
-- 
2.43.0


From 9927bf6e84d5fe708ea12d092f65a4b897ccab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:02 +0000
Subject: [PATCH 51/58] fix: socks5 server answers a client whose target can't
 be reached at all

---
 samples/socks5/s5_main.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/samples/socks5/s5_main.cpp b/samples/socks5/s5_main.cpp
index 3f91708..bd52004 100644
--- a/samples/socks5/s5_main.cpp
+++ b/samples/socks5/s5_main.cpp
@@ -47,7 +47,10 @@ public:
 		m_remoteConnection->m_listener.on_message = std::bind(&S5Tunnel::onServerMessage, this, _2);
 		m_remoteConnection->m_listener.on_close = std::bind(&S5Tunnel::onServerClose, this);
 
-		m_remoteConnection->connect(address);
+		if (!m_remoteConnection->connect(address)) {
+			//failed at once, nothing more will be called back
+			onServerConnected(nullptr, false);
+		}
 	}
 
 	void forword_up(RingBuf& inputBuf) {
-- 
2.43.0


From cc4b45fb19ad069ac64facfc645c9a00a246bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:45 +0000
Subject: [PATCH 52/58] fix: socks5 server keeps a tunnel until its last data
 has been sent

---
 samples/socks5/s5_main.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/samples/socks5/s5_main.cpp b/samples/socks5/s5_main.cpp
index bd52004..c13fc02 100644
--- a/samples/socks5/s5_main.cpp
+++ b/samples/socks5/s5_main.cpp
@@ -62,6 +62,11 @@ public:
 		if (m_remoteConnection)
 			m_remoteConnection->disconnect();
 	}
+	//the local side is gone, but there is still data to be sent to remote
+	bool is_lingering(void) const {
+		return m_remoteConnection && m_remoteConnection->get_connection_state() == TcpConnection::kDisconnecting;
+	}
+	void set_on_finished(std::function<void(void)> on_finished) { m_onFinished = on_finished; }
 private:
 	uint32_t onServerConnected(TcpConnectionPtr conn, bool success) 
 	{
@@ -97,6 +102,12 @@ private:
 	void onServerClose(void) 
 	{
 		m_state = S5_DISCONNECTED;
+		if (m_onFinished) {
+			std::function<void(void)> on_finished;
+			on_finished.swap(m_onFinished);
+			on_finished();	//this tunnel is deleted
+			return;
+		}
 		m_localServer->shutdown_connection(m_localConnection);
 	}
 
@@ -107,6 +118,7 @@ private:
 	TcpClientPtr m_remoteConnection;
 	TcpConnectionPtr m_localConnection;
 	Address m_address;
+	std::function<void(void)> m_onFinished;
 
 public:
 	S5Tunnel(TcpServer* localServer, Looper* looper, TcpConnectionPtr localConnection)
@@ -118,10 +130,7 @@ public:
 	{
 	}
 	~S5Tunnel() {
-		if (m_remoteConnection) {
-            assert(m_remoteConnection.use_count()==1);
-			m_remoteConnection = nullptr;
-		}
+		m_remoteConnection = nullptr;
 	}
 };
 
@@ -147,6 +156,11 @@ public:
 		if (it == m_tunnelMap.end()) return;
 
 		it->second.disconnect();
+		if (it->second.is_lingering()) {
+			//delete it when the last data has been sent
+			it->second.set_on_finished([this, conn_id]() { m_tunnelMap.erase(conn_id); });
+			return;
+		}
 		m_tunnelMap.erase(it);
 	}
 
-- 
2.43.0


From 03a998278b84d71cbc4fd986c943f5590b5da09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:12 +0000
Subject: [PATCH 53/58] fix: chat server does not lock itself up sending to a
 broken connection

---
 samples/chat/chat_server.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/samples/chat/chat_server.cpp b/samples/chat/chat_server.cpp
index 071bf61..0f01ff9 100644
--- a/samples/chat/chat_server.cpp
+++ b/samples/chat/chat_server.cpp
@@ -26,6 +26,7 @@ public:
 	void startAndJoin(uint16_t server_port)
 	{
 		m_clients_lock = sys_api::mutex_create();
+		m_send_lock = sys_api::mutex_create();
 
 		TcpServer server;
 		server.m_listener.on_connected = std::bind(&ChatServer::onClientConnected, this, _3);
@@ -38,6 +39,7 @@ public:
 
 		server.join();
 
+		sys_api::mutex_destroy(m_send_lock);
 		sys_api::mutex_destroy(m_clients_lock);
 	}
 private:
@@ -66,9 +68,17 @@ private:
 			if (!packet.build_from_ringbuf(PACKET_HEAD_SIZE, buf)) return;
 
 			{
-				sys_api::auto_mutex lock(m_clients_lock);
+				//all clients get the messages in the same order
+				sys_api::auto_mutex send_lock(m_send_lock);
+
+				//sending may close a broken connection, which takes m_clients_lock again
+				std::map< int32_t, Client > clients;
+				{
+					sys_api::auto_mutex lock(m_clients_lock);
+					clients = m_clients;
+				}
 
-				for (auto client : m_clients) {
+				for (auto client : clients) {
 					client.second.connection->send(packet.get_memory_buf(), packet.get_memory_size());
 				}
 			}
@@ -94,6 +104,7 @@ private:
 	};
 	std::map< int32_t, Client > m_clients;
 	sys_api::mutex_t m_clients_lock;
+	sys_api::mutex_t m_send_lock;
 };
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From aab5007ed8080f73e437ae2b13e8956bcf06f61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:29 +0000
Subject: [PATCH 54/58] fix: chat client shows all messages that have arrived,
 of any length, and waits for incomplete ones

---
 samples/chat/chat_client.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/samples/chat/chat_client.cpp b/samples/chat/chat_client.cpp
index ce2969d..871d5a0 100644
--- a/samples/chat/chat_client.cpp
+++ b/samples/chat/chat_client.cpp
@@ -81,13 +81,14 @@ public:
 	{
 		RingBuf& buf = conn->get_input_buf();
 
-		Packet packet;
-		packet.build_from_ringbuf(PACKET_HEAD_SIZE, buf);
-
-		char temp[1024] = { 0 };
-		memcpy(temp, packet.get_packet_content(), packet.get_packet_size());
+		for (;;)
+		{
+			Packet packet;
+			if (!packet.build_from_ringbuf(PACKET_HEAD_SIZE, buf)) return;
 
-		CY_LOG(L_INFO, "%s", temp);
+			std::string text(packet.get_packet_content(), packet.get_packet_size());
+			CY_LOG(L_INFO, "%s", text.c_str());
+		}
 	}
 
 	//-------------------------------------------------------------------------------------
-- 
2.43.0


From fbcd0460ed093393086962bfa6e4fba858760d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:29 +0000
Subject: [PATCH 55/58] fix: echo server echoes texts longer than its buffer at
 once

---
 samples/echo/echo_server.cpp | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/samples/echo/echo_server.cpp b/samples/echo/echo_server.cpp
index d0952fa..3616069 100644
--- a/samples/echo/echo_server.cpp
+++ b/samples/echo/echo_server.cpp
@@ -36,27 +36,29 @@ void onPeerMessage(TcpServer* server, int32_t thread_index, TcpConnectionPtr con
 {
 	RingBuf& buf = conn->get_input_buf();
 
-	char temp[MAX_ECHO_LENGTH + 1] = { 0 };
-	buf.memcpy_out(temp, MAX_ECHO_LENGTH);
+	while (!buf.empty()) {
+		char temp[MAX_ECHO_LENGTH + 1] = { 0 };
+		buf.memcpy_out(temp, MAX_ECHO_LENGTH);
 
-	CY_LOG(L_INFO, "[T=%d]receive:%s", thread_index, temp);
+		CY_LOG(L_INFO, "[T=%d]receive:%s", thread_index, temp);
 
-	if (strcmp(temp, "exit") == 0) {
-		server->shutdown_connection(conn);
-		return;
-	}
+		if (strcmp(temp, "exit") == 0) {
+			server->shutdown_connection(conn);
+			return;
+		}
 
-	if (strcmp(temp, "shutdown") == 0) {
-		sys_api::thread_create_detached([server](void*) {
-			server->stop();
-		}, 0, nullptr);
-		return;
-	}
+		if (strcmp(temp, "shutdown") == 0) {
+			sys_api::thread_create_detached([server](void*) {
+				server->stop();
+			}, 0, nullptr);
+			return;
+		}
 
-	size_t len = strlen(temp);
-	for (size_t i = 0; i < len; i++) temp[i] = (char)toupper(temp[i]);
+		size_t len = strlen(temp);
+		for (size_t i = 0; i < len; i++) temp[i] = (char)toupper(temp[i]);
 
-	conn->send(temp, strlen(temp));
+		conn->send(temp, strlen(temp));
+	}
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 0a1ae8bcacf303dbe2c15418edb4021b66012dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:45 +0000
Subject: [PATCH 56/58] fix: relay_local closes its clients when the connection
 to relay_server is lost

---
 samples/relay/relay_local.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/samples/relay/relay_local.cpp b/samples/relay/relay_local.cpp
index d99c5f6..018ccae 100644
--- a/samples/relay/relay_local.cpp
+++ b/samples/relay/relay_local.cpp
@@ -180,7 +180,7 @@ private:
 		}
 		RingBuf& ringBuf = conn->get_input_buf();
 
-		while (!ringBuf.empty()) {
+		while (!ringBuf.empty() && pipe->m_upState == kHandshaked) {
 			size_t msgSize = (ringBuf.size() < 0xFF00u) ? ringBuf.size() : 0xFF00u;
 
 			RelayForwardMsg forwardMsg;
@@ -418,6 +418,13 @@ private:
 		
 		pipe->m_upClient = nullptr;
 		pipe->m_upState = kDisConnected;
+
+		//all sessions are lost
+		RelaySessionMap sessions;
+		sessions.swap(pipe->m_sessionMap);
+		for (auto it = sessions.begin(); it != sessions.end(); it++) {
+			m_downServer->shutdown_connection(it->second.m_downConnection);
+		}
 	}
 
 private:
-- 
2.43.0


From 5aea4d1c52a06b122e105a4ed098bd303cdbe6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:45 +0000
Subject: [PATCH 57/58] fix: relay_local leaves the message loop after an
 invalid packet

---
 samples/relay/relay_local.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/samples/relay/relay_local.cpp b/samples/relay/relay_local.cpp
index 018ccae..4e2be7a 100644
--- a/samples/relay/relay_local.cpp
+++ b/samples/relay/relay_local.cpp
@@ -406,8 +406,16 @@ private:
 				}
 				break;
 
+				default:
+					CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
+					client->disconnect();
+					pipe->m_upState = kDisConnected;
+					return;
 				}
 			}
+			else {
+				return;
+			}
 		}
 	}
 
-- 
2.43.0


From 848bf84e4b8e9dd3ddd418042db116d783c6b1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:45 +0000
Subject: [PATCH 58/58] fix: the relay programs refuse messages whose sizes
 don't match

---
 samples/relay/relay_local.cpp  | 21 +++++++++++++++++++++
 samples/relay/relay_server.cpp | 28 ++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+)

diff --git a/samples/relay/relay_local.cpp b/samples/relay/relay_local.cpp
index 4e2be7a..6e03af7 100644
--- a/samples/relay/relay_local.cpp
+++ b/samples/relay/relay_local.cpp
@@ -351,8 +351,23 @@ private:
 					if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
 
 					RelayForwardMsg forwardMsg;
+					if (packet.get_packet_size() < sizeof(RelayForwardMsg)) {
+						CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
+						client->disconnect();
+						pipe->m_upState = kDisConnected;
+						return;
+					}
 					memcpy(&forwardMsg, packet.get_packet_content(), sizeof(RelayForwardMsg));
 
+					//check size
+					size_t buf_size = packet.get_packet_size() - sizeof(RelayForwardMsg);
+					if (forwardMsg.size < 0 || (size_t)forwardMsg.size > buf_size || (m_encryptMode && buf_size != _round16(buf_size))) {
+						CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
+						client->disconnect();
+						pipe->m_upState = kDisConnected;
+						return;
+					}
+
 					//decrypt
 					if (m_encryptMode)
 					{
@@ -392,6 +407,12 @@ private:
 					if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
 
 					RelayCloseSessionMsg closeSessionMsg;
+					if (packet.get_packet_size() != sizeof(closeSessionMsg)) {
+						CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
+						client->disconnect();
+						pipe->m_upState = kDisConnected;
+						return;
+					}
 					memcpy(&closeSessionMsg, packet.get_packet_content(), sizeof(closeSessionMsg));
 
 					auto it = pipe->m_sessionMap.find(closeSessionMsg.id);
diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index 7813185..9fc4b40 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -256,7 +256,17 @@ private:
 				if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
 
 				RelayNewSessionMsg newSessionMsg;
+				if (packet.get_packet_size() != sizeof(newSessionMsg)) {
+					CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
+					server->shutdown_connection(conn);
+					return;
+				}
 				memcpy(&newSessionMsg, packet.get_packet_content(), sizeof(newSessionMsg));
+				if (pipe->m_relaySessionMap.find(newSessionMsg.id) != pipe->m_relaySessionMap.end()) {
+					CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
+					server->shutdown_connection(conn);
+					return;
+				}
 
 				//create new relay session
 				RelaySessionPtr session = std::make_shared<RelaySession>(newSessionMsg.id);
@@ -283,6 +293,11 @@ private:
 				if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
 
 				RelayCloseSessionMsg closeSessionMsg;
+				if (packet.get_packet_size() != sizeof(closeSessionMsg)) {
+					CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
+					server->shutdown_connection(conn);
+					return;
+				}
 				memcpy(&closeSessionMsg, packet.get_packet_content(), sizeof(closeSessionMsg));
 
 				auto it = pipe->m_relaySessionMap.find(closeSessionMsg.id);
@@ -301,8 +316,21 @@ private:
 				if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
 
 				RelayForwardMsg forwardMsg;
+				if (packet.get_packet_size() < sizeof(forwardMsg)) {
+					CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
+					server->shutdown_connection(conn);
+					return;
+				}
 				memcpy(&forwardMsg, packet.get_packet_content(), sizeof(forwardMsg));
 
+				//check size
+				size_t buf_size = packet.get_packet_size() - sizeof(RelayForwardMsg);
+				if (forwardMsg.size < 0 || (size_t)forwardMsg.size > buf_size || (m_encryptMode && buf_size != _round16(buf_size))) {
+					CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
+					server->shutdown_connection(conn);
+					return;
+				}
+
 				int32_t id = forwardMsg.id;
 				auto it = pipe->m_relaySessionMap.find(id);
 				if (it == pipe->m_relaySessionMap.end()) {
-- 
2.43.0

